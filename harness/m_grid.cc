// M06, M07: grid navigation.  MODEL 0 four-way, 1 eight-way, 2 octile; LIFE 1: life costs.
#include <cstdio>
#include <cstring>
#include <cassert>
#include <vector>
#include <string>
#include <cmath>
#include <cstdarg>
#include "utils/utils.hpp"
#define private public
#include "gridnav/gridnav.hpp"
#undef private
#include "sym.h"
enum { Free = GridMap::Passable, Wall = GridMap::OutOfBounds, Tree = GridMap::Tree, Swamp = GridMap::Swamp, Water = GridMap::Water };

// u + s*sqrt(2) <= 0, exactly; u and s are concrete unless s is always 0
static bool notpos(long u, long s) {
	if (!sym_issym(s) && s == 0) return u <= 0;
	if (s <= 0 && u <= 0) return true;
	if (s >= 0 && u >= 0) return u == 0 && s == 0;
	return s > 0 ? 2 * s * s <= u * u : u * u <= 2 * s * s;
}

static GridMap *mk(int w, int h) {
	GridMap *m = new GridMap(w, h);
	if (MODEL == 1) m->seteightway();
	if (MODEL == 2) m->setoctile();
	m->lifecost = LIFE;
	return m;
}

// how terrain lets one move from a cell to another
static int enter(int from, int to) {
	int solid = (to == Wall) | (to == Tree);
	return sym_ite(solid, 0, sym_ite(from == Water, to == Water, (to == Free) | (to == Swamp)));
}

extern "C" void sym_main() {
	int w = sym_conc(sym_int("width", WMIN, WMAX)), h = sym_conc(sym_int("height", HMIN, HMAX));
	GridMap *m = mk(w, h);
#if PROP == 6
	int f[HMAX + 2][WMAX + 2];
	for (int y = 0; y < h + 2; y++) for (int x = 0; x < w + 2; x++) {
		f[y][x] = Wall;
		if (x && y && x <= w && y <= h) {
			f[y][x] = TERRAIN ? 1 << sym_int("cell", 0, 4) : 1 + sym_bool("cell");
			m->flags[y * (w + 2) + x] = f[y][x];
		}
	}
	int x0 = sym_conc(sym_int("x", 0, w - 1)), y0 = sym_conc(sym_int("y", 0, h - 1));
	int from = f[y0 + 1][x0 + 1];
	sym_assume((from != Wall) & (from != Tree));
	GridNav d(m, x0, y0, 0, 0);
	GridNav::State s = d.initialstate();
	sym_assert(s.loc == (unsigned) ((y0 + 1) * (w + 2) + x0 + 1), "the start");
	GridNav::Operators ops(d, s);
	unsigned n = ops.size();
	int seen[3][3] = { };
	for (unsigned i = 0; i < n; i++) {
		GridNav::Edge e(d, s, ops[i]);
		int x = (int) (e.state.loc % (w + 2)) - 1, y = (int) (e.state.loc / (w + 2)) - 1, dx = x - x0, dy = y - y0;
		sym_assert(dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 && (dx || dy), "a move goes to a neighbour");
		sym_assert(x >= 0 && y >= 0 && x < w && y < h, "a move stays on the map");
		seen[dy + 1][dx + 1]++;
		int mul = LIFE ? h - 1 - y0 : 1, bmul = LIFE ? h - 1 - y : 1, diag = dx && dy;
		sym_assert(e.cost == GridNav::Cost(diag ? 0 : mul, diag ? mul : 0), "the cost of a move");
		sym_assert(e.revcost == GridNav::Cost(diag ? 0 : bmul, diag ? bmul : 0), "the cost of the way back");
		GridNav::State t = e.state;
		GridNav::Operators back(d, t);
		bool there = false;
		for (unsigned j = 0; j < back.size(); j++) there |= back[j] == e.revop;
		sym_assert(there, "the way back is offered");
		GridNav::Edge b(d, t, e.revop);
		sym_assert(b.state.loc == s.loc && b.revop == ops[i], "the way back leads back");
		sym_assert(b.cost == e.revcost && b.revcost == e.cost, "the way back costs what was said");
		GridNav::PackedState p, q; GridNav::State u;
		d.pack(p, t); d.pack(q, s);
		sym_assert(d.unpack(u, p).loc == t.loc && !p.eq(&d, q) && p.eq(&d, p), "packing");
		sym_cover(diag ? "diagonal" : "straight");
	}
	for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
		if (!dx && !dy) continue;
		int want = enter(from, f[y0 + 1 + dy][x0 + 1 + dx]);
		if (dx && dy) {
			if (MODEL == 0) want = 0;
			if (MODEL == 2) want = want & enter(from, f[y0 + 1][x0 + 1 + dx]) & enter(from, f[y0 + 1 + dy][x0 + 1]);
		}
		sym_assert(seen[dy + 1][dx + 1] == want, "a move is offered exactly when it is possible");
	}
	sym_cover("cell");
#else
	int x0 = sym_int("x", 0, w - 1), y0 = sym_int("y", 0, h - 1), x1 = sym_int("goal x", 0, w - 1), y1 = sym_int("goal y", 0, h - 1);
	int dx = sym_conc(sym_int("dx", -1, 1)), dy = sym_conc(sym_int("dy", -1, 1));
	if (MODEL == 0 && dx && dy) { sym_assume(0); return; }
#if PIN	// which of the unknowns are told apart before the code runs
	y0 = sym_conc(y0); y1 = sym_conc(y1);
#endif
#if PIN > 1
	x0 = sym_conc(x0); x1 = sym_conc(x1);
#endif
	int x = x0 + dx, y = y0 + dy;
	sym_assume((x >= 0) & (x < w) & (y >= 0) & (y < h));
	GridNav d(m, x0, y0, x1, y1);
	GridNav::State s = d.initialstate();
	GridNav::Cost hs = d.h(s);
	long du = d.d(s).units;
	sym_assert(notpos(-(long) hs.units, -(long) hs.sqrts), "the estimate is never negative");
	sym_assert(d.h(s) == hs, "the estimate of a state stays the same");
	if (!dx && !dy) {
		sym_assume((x0 == x1) & (y0 == y1));
		sym_assert(d.isgoal(s), "the goal");
		sym_assert(hs.units == 0 && hs.sqrts == 0 && du == 0, "the estimate is 0 at the goal");
		sym_cover("goal");
		return;
	}
	sym_assert(d.isgoal(s) == (int) ((x0 == x1) & (y0 == y1)), "the goal");
	GridNav::State t((y + 1) * (w + 2) + x + 1);
	GridNav::Cost ht = d.h(t);
	int mul = LIFE ? h - 1 - y0 : 1, diag = dx && dy;
	sym_assert(notpos((long) hs.units - ht.units - (diag ? 0 : mul), (long) hs.sqrts - ht.sqrts - (diag ? mul : 0)), "the estimate drops by no more than the cost of a move");
	long dt = d.d(t).units;
	sym_assert(d.d(s).sqrts == 0 && du >= 0, "the distance estimate");
	if (!LIFE) sym_assert(du <= dt + 1, "the distance estimate drops by no more than 1");
	sym_cover("move");
#endif
}
