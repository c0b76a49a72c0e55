// M09: the vacuum world.  KIND 0: walks over every small map; 1: the estimate against every walk.
#define MEMFILE 256
#include "memfile.hpp"
#include <memory>
#include <cmath>
#include "gridnav/gridmap.cc"
#include "vacuum/vacuum.cc"
static Vacuum *mk(int w, int h, const char *cells) {
	FILE *f = memfile(0);
	m_fprintf(f, "%d %d\n", w, h);
	for (int y = 0; y < h; y++) { for (int x = 0; x < w; x++) m_fputc(cells[y * w + x], f); m_fputc('\n', f); }
	return new Vacuum(f);
}
extern "C" void sym_main() {
	char cells[W * W + 9];
	int w = sym_conc(sym_range("width", KIND ? W : 1, W)), h = sym_conc(sym_range("height", KIND ? W : 1, KIND ? W : CELLS / w)), n = w * h, at = sym_conc(sym_range("start", 0, n - 1));
#if KIND == 0
	for (int i = 0; i < n; i++) cells[i] = i == at ? '@' : "_#*:"[sym_conc(sym_range("cell", 0, 3))];
	Vacuum *d = mk(w, h, cells);
	Vacuum::State s[STEPS + 1]; int loc[STEPS + 1]; unsigned dirt[STEPS + 1] = { };
	s[0] = d->initialstate(); loc[0] = at;
	for (int i = 0; i < n; i++) if (cells[i] == '*') dirt[0] |= 1u << i;
	for (int k = 0; k <= STEPS; k++) {
		int x = loc[k] % w, y = loc[k] / w, nd = __builtin_popcount(dirt[k]);
		sym_assert(d->isgoal(s[k]) == !dirt[k], "a state is a goal exactly when no dirt is left");
		int est = d->h(s[k]);
		sym_assert(est >= nd && (nd > 0 || est == 0), "the estimate counts the dirt");
		Vacuum::Operators ops(*d, s[k]);
		bool seen[4] = { }, sucks = false;
		int to[6]; unsigned left[6];
		for (unsigned i = 0; i < ops.size(); i++) {
			Vacuum::Edge e(*d, s[k], ops[i]);
			sym_assert(e.cost == 1, "an action costs one");
			to[i] = loc[k]; left[i] = dirt[k];
			if (ops[i] == Vacuum::Suck) {
				sym_assert(!sucks && (dirt[k] >> loc[k] & 1), "vacuuming is offered where there is dirt");
				sucks = true; left[i] &= ~(1u << loc[k]);
				sym_assert(e.revop == Vacuum::Nop, "vacuuming cannot be undone");
				sym_cover("suck");
			} else {
				int dx = -9, dy = -9, dir = -1;
				for (int j = 0; j < 4; j++) {
					int nx = x + (j == 0) - (j == 1), ny = y + (j == 2) - (j == 3);
					if (e.state.loc == s[k].loc + (nx - x) + (ny - y) * (w + 2)) { dir = j; dx = nx; dy = ny; }
				}
				sym_assert(dir >= 0 && !seen[dir], "a move goes to a neighbour");
				seen[dir] = true;
				sym_assert(dx >= 0 && dy >= 0 && dx < w && dy < h && cells[dy * w + dx] != '#', "a move goes to a free cell");
				to[i] = dy * w + dx;
				Vacuum::State t = e.state;
				Vacuum::Edge b(*d, t, e.revop);
				sym_assert(b.state.eq(d, s[k]) && b.cost == e.revcost, "the way back");
			}
			Vacuum::State p, q; Vacuum::PackedState pk;
			p = e.state; d->pack(pk, p);
			sym_assert(d->unpack(q, pk).eq(d, e.state) && pk.hash(d) == e.state.hash(d), "packing");
		}
		for (int j = 0; j < 4; j++) {
			int nx = x + (j == 0) - (j == 1), ny = y + (j == 2) - (j == 3);
			sym_assert(seen[j] == (nx >= 0 && ny >= 0 && nx < w && ny < h && cells[ny * w + nx] != '#'), "a move is offered exactly when the cell is free");
		}
		sym_assert(sucks == (bool) (dirt[k] >> loc[k] & 1), "vacuuming is offered where there is dirt");
		for (int j = 0; j < k; j++) {
			bool same = loc[j] == loc[k] && dirt[j] == dirt[k];
			sym_assert(s[j].eq(d, s[k]) == same, "states are equal exactly when robot and dirt are");
			if (same) sym_assert(s[j].hash(d) == s[k].hash(d), "equal states hash alike");
			sym_assert(s[j].ndirt == __builtin_popcount(dirt[j]), "an action leaves earlier states alone");
		}
		if (k == STEPS || !ops.size()) break;
		int i = sym_conc(sym_range("op", 0, ops.size() - 1));
		Vacuum::Edge e(*d, s[k], ops[i]);
		s[k + 1] = e.state; loc[k + 1] = to[i]; dirt[k + 1] = left[i];
		sym_assert(s[k + 1].ndirt == __builtin_popcount(left[i]), "the amount of dirt");
		sym_cover("step");
	}
#else
	for (int i = 0; i < n; i++) cells[i] = '_';
	cells[at] = '@';
	int nd = sym_conc(sym_range("dirts", 0, 3)), pos[3], last = -1;
	for (int i = 0; i < nd; i++) { int p = sym_range("dirt", 0, n - 1); sym_assume(p > last); sym_assume(p != at); pos[i] = last = sym_conc(p); cells[last] = '*'; }
	Vacuum *d = mk(w, h, cells);
	Vacuum::State s = d->initialstate();
	for (int j = 0; j < nd; j++)	// some of it is already gone
		if (sym_conc(sym_bool("gone"))) { s.dirt->at(j) = false; s.ndirt--; pos[j] = -1; }
	int est = d->h(s), left = s.ndirt;
	sym_assert(d->d(s) == est, "both estimates agree");
	// any walk that passes over all the dirt
	int x = at % w, y = at / w;
	int seen = 0;
	for (int i = 0; i <= 2 * W - 2; i++) {
		for (int j = 0; j < nd; j++) if (pos[j] < 0) seen |= 1 << j; else seen |= ((x == pos[j] % w) & (y == pos[j] / w)) << j;
		sym_assert((seen != (1 << nd) - 1) | (est <= i + left), "the estimate is at most the cost of every walk");
		int m = sym_range("move", 0, 3);
		x += (m == 0) - (m == 1); y += (m == 2) - (m == 3);
	}
	sym_cover(nd ? "dirty" : "clean");
#endif
}
