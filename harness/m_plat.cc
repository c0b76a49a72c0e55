// M13: the platformer.  KIND 0: one frame from any state; 1: levels read from text and walks on them.
#define MEMFILE 512
#include "memfile.hpp"
#include <cmath>
#include <limits>
#include <cerrno>
#define private public
#if KIND == 0
#include "plat2d/plat2d.hpp"
#else
#include "plat2d/tile.cc"
#include "plat2d/lvl.cc"
#include "plat2d/plat2d.cc"
// the visibility graph is only for the estimate, which is not checked here: nothing is obstructed, nothing sees anything
// utils/hash.c reads a word at the end of the key and masks it, by design; this folds the same bytes
extern "C" unsigned long hashbytes(unsigned char b[], unsigned int n) { unsigned long r = n; for (unsigned i = 0; i < n; i++) r = r * 31 + b[i]; return r; }
PolyMap::PolyMap(const bool[], unsigned int, unsigned int) { }
bool PolyMap::isvisible(const geom2d::Pt&, const geom2d::Pt&) const { return false; }
void PolyMap::draw(Image&, double) const { }
geom2d::Pt PolyMap::min() const { return geom2d::Pt(0, 0); }
geom2d::Pt PolyMap::max() const { return geom2d::Pt(8, 8); }
VisGraph::VisGraph(const PolyMap &m) : map(m) { }
unsigned int VisGraph::add(const geom2d::Pt &p) { verts.push_back(Vert(verts.size(), p)); return verts.size() - 1; }
void VisGraph::scale(double, double) { }
void VisGraph::translate(double, double) { }
#endif
#undef private
// pictures are not looked at
void Image::saveeps(const char*, bool, int) const { }
Image::~Image() { }
const Color Image::red, Image::green, Image::blue, Image::white, Image::black, Image::yellow;
Color somecolors[1]; const unsigned int Nsomecolors = 1;
void Image::Line::writeeps(FILE*) const { }
void Image::Pt::writeeps(FILE*) const { }
void Image::Poly::writeeps(FILE*) const { }
void Image::Text::writeeps(FILE*) const { }
static bool solid(const Lvl &l, int x, int y) { return tiles[(int) l.blks[x * l.h + y].tile].flags & Tile::Collide; }
// water slows by 0.7, which is not exact: a millionth of a pixel is allowed for that (in the frame harness nothing is)
#if KIND == 0
static const double E = 0;
#else
static const double E = 1e-6;
#endif
static int clear(const Lvl &l, const Player &p) {	// the player is inside and in no solid tile
	const Bbox &b = p.body.bbox;
	int ok = (b.min.x >= -E) & (b.min.y >= -E) & (b.max.x <= 32.0 * l.w + E) & (b.max.y <= 32.0 * l.h + E);
	for (unsigned x = 0; x < l.w; x++) for (unsigned y = 0; y < l.h; y++)
		if (solid(l, x, y)) ok &= (b.min.x >= 32.0 * (x + 1) - E) | (b.max.x <= 32.0 * x + E) | (b.min.y >= 32.0 * (y + 1) - E) | (b.max.y <= 32.0 * y + E);
	return ok;
}
static int size(const Player &p) { const Bbox &b = p.body.bbox; double w = b.max.x - b.min.x - Player::Width, h = b.max.y - b.min.y - Player::Height; return (w >= -E) & (w <= E) & (h >= -E) & (h <= E); }
extern "C" void sym_main() {
#if KIND == 0
	Lvl l(W0, H0);
	int block = sym_conc(sym_range("block", 0, NBLK));	// one of the four inner tiles may be solid
	for (int x = 0; x < W0; x++) for (int y = 0; y < H0; y++) {
		int edge = !x || !y || x == W0 - 1 || y == H0 - 1;
		l.blks[x * H0 + y].tile = edge || (block && block == x + 2 * (y - 1)) ? '#' : ' ';
	}
	Player p(0, 0, Player::Width, Player::Height);
	static const double ys[] = { 67, 40.5, 58, 32 }, dys[] = { 0, -8, 3.5, 12, -1.5 };
	unsigned ky = sym_conc(sym_range("y", 0, NY - 1)), kd = sym_conc(sym_range("dy", 0, NDY - 1));
	double x = sym_fix_("x", XLO * 4, XHI * 4, 2), y = ys[ky];
	p.body.bbox.min.x = x; p.body.bbox.min.y = y; p.body.bbox.max.x = x + Player::Width; p.body.bbox.max.y = y + Player::Height;
	p.body.dy = dys[kd];
	p.body.fall = kd ? 1 : sym_conc(sym_bool("fall"));
	p.jframes = p.body.dy < 0 ? 3 : 0;
	sym_assume(clear(l, p));
	sym_assume(p.body.fall | (p.body.dy >= 0));
	static const unsigned ops[] = { Player::Left, Player::Right, Player::Jump, Player::Left | Player::Jump, Player::Right | Player::Jump, 0 };
	unsigned op = ops[sym_conc(sym_range("controls", 0, NOPS - 1))];
	Player q(p);
	q.act(l, op);
	sym_assert(clear(l, q), "the player is never in a wall");
	sym_assert(size(q), "the player keeps its size");
	double dx = q.body.bbox.min.x - x, dy = q.body.bbox.min.y - y;
	sym_assert((dx <= Maxx) & (dx >= -Maxx) & (dy <= Maxy) & (dy >= -Maxy), "a frame moves the player no further than stated");
	sym_assert((q.body.dy >= -Jmpspeed) & (q.body.dy <= Body::Maxdy + 0.5), "the speed stays within its limits");
	sym_cover("frame");
#else
	// a level of any size with a start, a goal and at most one solid or water tile inside the walls
	int w = sym_conc(sym_range("w", 3, MAXW)), h = sym_conc(sym_range("h", 3, MAXH));
	int in = (w - 2) * (h - 2);
	sym_assume(in >= 2);
	int up = sym_conc(sym_range("up", 0, in - 1)), down = sym_conc(sym_range("down", 0, in - 1)), other = sym_conc(sym_range("other", 0, in - 1));
	sym_assume(up != down);
	int water = sym_conc(sym_bool("water"));
	std::string t = "1 "; t += (char) ('0' + w); t += ' '; t += (char) ('0' + h); t += " 0\n";
	std::vector<char> ts(w * h);
	for (int y = 0; y < h; y++) { for (int x = 0; x < w; x++) {
		int k = !x || !y || x == w - 1 || y == h - 1 ? -1 : (x - 1) + (w - 2) * (y - 1);
		char c = k < 0 ? '#' : k == up ? (water ? 'U' : 'u') : k == down ? 'd' : k == other ? (water ? 'w' : '#') : ' ';
		ts[x * h + y] = c; t += c;
	} t += '\n'; }
	for (unsigned i = 0; i < t.size(); i++) m_fputc(t[i], memfile(0));
	Plat2d d(memfile(0));
	sym_assert(((int) d.lvl.width() == w) & ((int) d.lvl.height() == h), "the level has the size it says");
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) sym_assert((char) d.lvl.blks[x * h + y].tile == ts[x * h + y], "every tile is where the file has it");
	int ux = 1 + up % (w - 2), uy = 1 + up / (w - 2), gx = 1 + down % (w - 2), gy = 1 + down / (w - 2);
	Plat2d::State s = d.initialstate();
	sym_assert((s.player.body.bbox.min.x == 32 * ux + Player::Offx) & (s.player.body.bbox.min.y == 32 * uy + Player::Offy) & size(s.player) & clear(d.lvl, s.player), "the player starts in the start tile");
	sym_cover("start");
	// some frames of one control, then frames of any
	static const int pres[] = { 0, 4, 11 };
	int pre = pres[sym_conc(sym_range("pre", 0, 2))];
	unsigned held = pre ? 1 << sym_conc(sym_range("held", 0, 2)) : 0;
	for (int step = 0; step < pre + STEPS; step++) {
		double cx = s.player.body.bbox.min.x + Player::Width / 2.0, cy = s.player.body.bbox.min.y + Player::Height / 2.0;
		int at = (cx >= 32 * gx) & (cx < 32 * gx + 32) & (cy >= 32 * gy) & (cy < 32 * gy + 32);
		sym_assert(d.isgoal(s) == at, "the goal is reached exactly when the player's middle is in the goal tile");
		if (at) sym_cover("goal");
		Plat2d::Operators ops(d, s);
		sym_assert((ops.size() == 3) | (ops.size() == 5), "controls");
		if (ops.size() == 3) {	// what is left out changes nothing
			Player a(s.player), b(s.player);
			a.act(d.lvl, Player::Left); b.act(d.lvl, Player::Left | Player::Jump);
			sym_assert(a == b, "a control that is not offered does what an offered one does");
			sym_cover("pruned");
		}
		// the states packed for the closed list behave as the originals
		Plat2d::PackedState pk, pk2;
		Plat2d::State src(s), buf;
		d.pack(pk, src);
		Plat2d::State &un = d.unpack(buf, pk);
		sym_assert(un.player == s.player, "packing keeps the state");
		unsigned op = step < pre ? held : ops[sym_conc(sym_range("control", 0, ops.size() - 1))];
		Plat2d::Edge e(d, s, op), f(d, un, op);
		sym_assert((e.cost == 1) & (f.cost == 1), "a frame costs one");
		sym_assert(e.state.player == f.state.player, "packing keeps what comes next");
		d.pack(pk2, f.state); Plat2d::PackedState pk3; d.pack(pk3, e.state);
		sym_assert(pk2.eq(&d, pk3) && pk2.hash(&d) == pk3.hash(&d), "equal states are equal and hash alike");
		sym_assert(clear(d.lvl, e.state.player) & size(e.state.player), "the player stays clear of walls");
		if (e.revop != Plat2d::Nop) {
			Plat2d::Edge back(d, e.state, e.revop);
			sym_assert((back.state.player == s.player) & (e.revcost == back.cost), "the declared way back leads back at the declared cost");
			sym_cover("back");
		}
		std::pair<int, int> id = d.ident(s);
		if (id.first != Plat2d::Nop) { Plat2d::Edge i(d, s, id.first); sym_assert((i.state.player == s.player) & (i.cost == id.second), "the identity control changes nothing"); sym_cover("ident"); }
		s = e.state;
	}
#endif
}
