// M08: readers of instances, on in-memory files with symbolic bytes.
// KIND 0 tiles, 1 pancake, 2 ruml grid, 3 octile grid, 4 seeded grid, 5 vacuum, 6 traffic.
#define MEMFILE 512
#include "memfile.hpp"
#include <memory>
#include <cmath>
#define private public
#if KIND == 0
#include "tiles/tiles.cc"
#elif KIND == 1
#include "pancake/pancake.cc"
#elif KIND <= 4
#include "gridnav/gridmap.cc"
#elif KIND == 5
#include "gridnav/gridmap.cc"
#include "vacuum/vacuum.cc"
#elif KIND == 6
#include "traffic/traffic.hpp"
#include "traffic/gridmap.cc"
#include "traffic/traffic.cc"
#endif
#undef private
static FILE *f() { return memfile(0); }
static void lit(const char *s) { m_fputs(s, f()); }
static int digit(const char *name, int lo, int hi) { int d = sym_int(name, lo, hi); m_fputc('0' + d, f()); return d; }
static int byte(const char *name) { int c = sym_int(name, 0, 255); m_fputc(c, f()); return c; }
static void verdict(int ok) {	// from here on the reader may give up exactly when the text is not well formed
	if (sym_conc(ok)) { sym_cover("good"); sym_exit_ok(0); } else { sym_cover("bad"); sym_exit_ok(1); }
}
#define ACCEPTED(ok) sym_assert(ok, "an ill-formed instance is refused")

static unsigned char terr[256];	// what an octile map's characters mean
static void mkterr() {
#if KIND == 3
	terr['.'] = terr['G'] = GridMap::Passable; terr['@'] = terr['O'] = GridMap::OutOfBounds; terr['T'] = GridMap::Tree; terr['S'] = GridMap::Swamp; terr['W'] = GridMap::Water;
#endif
}
extern "C" void sym_main() {
	mkterr();
#if KIND == 0
	enum { N = Tiles::Ntiles };
	int w = digit("width", 0, 9); lit(" "); int h = digit("height", 0, 9);
	lit("\nstarting positions for each tile:\n");
	int p[N], g[N], ok = (w == WIDTH) & (h == HEIGHT);
	for (int i = 0; i < N; i++) { p[i] = digit("start", 0, 9); lit("\n"); ok &= p[i] < N; for (int j = 0; j < i; j++) ok &= p[i] != p[j]; }
	lit("goal positions:\n");
	for (int i = 0; i < N; i++) { g[i] = digit("goal", 0, 9); lit("\n"); ok &= g[i] < N; for (int j = 0; j < i; j++) ok &= g[i] != g[j]; }
	if (sym_conc(sym_bool("cut"))) { memfile(0); mem(f())->n -= 2 + 2 * sym_conc(sym_range("lost", 0, N - 1)); ok = 0; }
	verdict(ok);
	Tiles t(f());
	ACCEPTED(ok);
	for (int i = 0; i < N; i++) { sym_assert(t.goalpos[i] == (unsigned) g[i], "the goal is as described"); int at = -1; for (int j = 0; j < N; j++) at = sym_ite(p[i] == j, t.init[j], at); sym_assert(at == i, "the start is as described"); }
#elif KIND == 1
	enum { N = Pancake::Ncakes };
	int n = digit("count", 0, 9), c[N], ok = n == N; lit("\n");
	int neg = sym_conc(sym_range("negative", -1, N - 1));
	for (int i = 0; i < N; i++) { if (i == neg) { lit("-"); ok = 0; } c[i] = digit("cake", i == neg ? 1 : 0, 9); lit(i % 2 ? "\n" : " "); ok &= c[i] < N; for (int j = 0; j < i; j++) ok &= c[i] != c[j]; }
	if (sym_conc(sym_bool("cut"))) { mem(f())->n -= 2 + 2 * sym_conc(sym_range("lost", 0, N - 2)); ok = 0; }
	verdict(ok);
	Pancake d(f());
	ACCEPTED(ok);
	Pancake::State s = d.initialstate();
	for (int i = 0; i < N; i++) sym_assert(s.cakes[i] == c[i], "the stack is as described");
#elif KIND == 2 || KIND == 3
	int h = sym_conc(sym_int("height", 0, 2)), w = sym_conc(sym_int("width", 0, 2)), ok = 1, cell[2][2];
	if (KIND == 2) { m_fputc('0' + h, f()); lit(" "); m_fputc('0' + w, f()); lit("\nBoard:\n"); }
	else { lit("type octile\nheight "); m_fputc('0' + h, f()); lit("\nwidth "); m_fputc('0' + w, f()); lit("\nmap\n"); }
	int odd = KIND == 3 && w * h ? sym_conc(sym_range("oddcell", 0, w * h - 1)) : 0;	// in octile maps, one cell is any byte
	// the octile header ends in white space that the reader skips, so a row cannot begin with some
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			int c = cell[y][x] = KIND == 3 && y * w + x != odd ? (sym_conc(sym_bool("cell")) ? 'T' : '.') : byte("cell");
			if (KIND == 3 && y * w + x != odd) m_fputc(c, f());
			if (KIND == 2) ok &= (c == ' ') | (c == '#');
			else { ok &= terr[c] != 0; if (!x && !y) { sym_assume(c != ' '); sym_assume(c - 9 > 4u); } }
		}
		int e = byte("rowend"); ok &= e == '\n'; if (KIND == 3 && !w && !y) sym_assume((e != ' ') & (e - 9 > 4u | e == '\n'));
	}
	if (KIND == 3 && !w && h) ok = 0;	// rows of nothing are skipped with the header
	int life = 0, eight = 0;
	if (KIND == 2) {
		int a = sym_conc(sym_bool("cost")), b = sym_conc(sym_bool("movement"));
		int ca = byte("costletter"); life = ca == 'L'; ok &= ca == (a ? 'L' : 'U'); lit(a ? "ife\n" : "nit\n");
		int cb = byte("movementletter"); sym_assume(cb != (b ? 'F' : 'E')); eight = cb == 'E'; ok &= cb == (b ? 'E' : 'F'); lit(b ? "ight-way" : "our-way"); lit("\n7 8");
	}
	int cut = 0;
	if (sym_conc(sym_bool("cut"))) { cut = 1; MemFile *m = mem(f()); int k = KIND == 2 ? 22 : 1; if (m->n > k + 4) m->n -= k; ok = 0; }
	if (KIND == 3 && (cut || !w)) { sym_exit_ok(1); }
	else verdict(ok);
	static char room[sizeof(GridMap) + 16]; for (size_t i = 0; i < sizeof room; i++) ((volatile char*) room)[i] = 0x5a;	// nothing is zero by chance
	GridMap &m = *new (room) GridMap(f());
	if (KIND == 3 && (cut || !w)) { if (!cut) sym_assert(m.w == 2 && m.h == (unsigned) h + 2, "an empty map keeps its size"); return; }
	ACCEPTED(ok);
	sym_assert(m.w == (unsigned) w + 2 && m.h == (unsigned) h + 2 && m.sz == m.w * m.h, "the map is as large as described");
	sym_assert(m.lifecost == (bool) life, "the cost model is as described");
	sym_assert(m.nmvs == (KIND == 3 || sym_conc(eight) ? 8u : 4u), "the movement model is as described");
	if (KIND == 3) sym_assert(m.mvs[3].n == 3 && m.mvs[3].dx == -1, "octile movement");
	for (int y = 0; y < h + 2; y++) for (int x = 0; x < w + 2; x++) {
		int l = m.index(x, y), in = x && y && x <= w && y <= h, want = GridMap::OutOfBounds;
		if (in) {
			int c = KIND == 2 ? cell[h - y][x - 1] : cell[y - 1][x - 1];
			want = KIND == 2 ? sym_ite(c == ' ', GridMap::Passable, GridMap::OutOfBounds) :
				terr[c];
			sym_assert(m.map[l] == c, "the cells are as described");
		}
		sym_assert(m.flags[l] == want, "the terrain is as described");
	}
	if (KIND == 2) { sym_assert(m_fgetc(f()) == '\n' && m_fgetc(f()) == '7', "the start and goal are left to be read"); }
#elif KIND == 4
	int w = digit("width", 0, 2), h = 0, ok = 1;
	mem(f())->n = 0;
	w = sym_conc(w); h = sym_conc(sym_int("height", 0, 2));
	int full = sym_conc(sym_bool("full"));
	lit("seed 17 "); m_fputc('0' + w, f()); lit(" "); m_fputc('0' + h, f()); lit(full ? " 1\n" : " 0\n");
	int a = sym_conc(sym_bool("cost")), b = sym_conc(sym_bool("movement"));
	int cb = byte("movementletter"); ok &= cb == (b ? 'E' : 'F'); sym_assume((cb != ' ') & (cb - 9 > 4u)); lit(b ? "ightway\n" : "ourway\n");
	int ca = byte("costletter"); ok &= ca == (a ? 'L' : 'U'); sym_assume((ca != (a ? 'U' : 'L')) & (ca != ' ') & (ca - 9 > 4u)); lit(a ? "ife\n" : "nit\n");
	verdict(ok);
	static char room[sizeof(GridMap) + 16]; for (size_t i = 0; i < sizeof room; i++) ((volatile char*) room)[i] = 0x5a;
	GridMap &m = *new (room) GridMap(f());
	ACCEPTED(ok);
	sym_assert(m.w == (unsigned) w + 2 && m.h == (unsigned) h + 2 && m.sz == m.w * m.h, "the map is as large as described");
	sym_assert(m.lifecost == (bool) a && m.nmvs == (b ? 8u : 4u), "the models are as described");
	for (int y = 0; y < h + 2; y++) for (int x = 0; x < w + 2; x++) {
		int in = x && y && x <= w && y <= h;
		sym_assert(m.blkd(m.index(x, y)) == (!in || full), "every cell is blocked with the stated probability");
	}
#elif KIND == 5
	int w = sym_conc(sym_int("width", -1, 2)), h = sym_conc(sym_int("height", -1, 2)), ok = w >= 0 && h >= 0, cell[2][2], starts = 0;
	m_fprintf(f(), "%d %d\n", w, h);
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			int c = cell[y][x] = byte("cell");
			if (!x && !y) sym_assume((c != ' ') & (c - 9 > 4u));
			ok &= (c == '#') | (c == '*') | (c == '@') | (c == ':') | (c == '_'); starts += c == '@';
		}
		int e = byte("rowend"); if (y < h - 1) ok &= e == '\n';
		if (!w) sym_assume(e == 'x');
	}
	if (!w && h > 1) ok = 0;
	ok &= starts > 0; sym_assume(starts <= 1);
	verdict(ok);
	Vacuum d(f());
	ACCEPTED(ok);
	sym_assert(d.map->w == (unsigned) w + 2 && d.map->h == (unsigned) h + 2, "the map is as large as described");
	Vacuum::State s = d.initialstate();
	int dirt = 0;
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
		int c = cell[y][x], l = d.map->index(x + 1, y + 1);
		sym_assert(d.map->blkd(l) == (c == '#'), "the walls are as described");
		sym_assert((s.loc == l) == (c == '@'), "the start is as described");
		sym_assert((d.dirt[l] >= 0) == (c == '*'), "the dirt is as described");
		sym_assert(d.chargers[l] == (c == ':'), "the chargers are as described");
		dirt += c == '*';
	}
	sym_assert(s.ndirt == dirt, "the amount of dirt is as described");
#elif KIND == 6
	int sx = digit("sx", 0, 3), sy = (lit(" "), digit("sy", 0, 3)), gx = (lit(" "), digit("gx", 0, 3)), gy = (lit(" "), digit("gy", 0, 3)); lit("\n");
	int w = digit("width", 0, 4), h = (lit(" "), digit("height", 0, 4)), ok = (w > 0) & (h > 0) & (sx < w) & (gx < w) & (sy < h) & (gy < h); lit("\n");
	int n = sym_conc(sym_range("obstacles", 0, 2)), o[2][4];
	for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) { int neg = j >= 2 && i == 1; if (neg) lit("-"); o[i][j] = digit("obstacle", 0, 3); if (neg) o[i][j] = -o[i][j]; lit(j < 3 ? " " : "\n"); }
	if (n && sym_conc(sym_bool("cut"))) { int k = sym_conc(sym_range("lost", 1, 3)); mem(f())->n -= 2 * k + (n == 2) * (k < 3 ? k : 2); ok = 0; }
	else if (sym_conc(sym_bool("junk"))) { int c = byte("junk"); sym_assume((c < '0') | (c > '9')); sym_assume((c != ' ') & (c - 9 > 4u)); ok = 0; }
	verdict(ok);
	Traffic d(f());
	ACCEPTED(ok);
	w = sym_conc(w); h = sym_conc(h);
	sym_assert(d.map->w == (unsigned) w && d.map->h == (unsigned) h, "the map is as large as described");
	sym_assert(d.start == (unsigned) (sy * w + sx) && d.finish == (unsigned) (gy * w + gx), "start and goal are as described");
	sym_assert(d.map->obstacles.size() == (unsigned) n, "every obstacle is read");
	for (int i = 0; i < n; i++) { GridMap::Obstacle &b = d.map->obstacles[i]; sym_assert((b.x == o[i][0]) & (b.y == o[i][1]) & (b.dx == o[i][2]) & (b.dy == o[i][3]), "the obstacles are as described"); }
#endif
	sym_cover("read");
}
