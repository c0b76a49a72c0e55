// M01-M03: sliding tiles.  PROP 1: moves, 2: the estimate, 3: packing.
#define MEMFILE 1024
#include "memfile.hpp"
#include <cstring>
#include <vector>
#include <boost/cstdint.hpp>
#include <boost/integer/static_log2.hpp>
#define private public
#define protected public
#include "tiles/tiles.cc"
#include "tiles/mdist.cc"
#undef private
#undef protected
typedef TilesMdist D;
enum { N = WIDTH * HEIGHT, W = WIDTH };
static int goalat[N], far_[N][N], step_[N][N][N], mt[N], mb;	// the model: tile on each cell, blank's cell
static D *dp;
static int model(const D::State &s) {	// the state is the model's (whatever is under the blank)
	int ok = (int) s.b == mb;
	for (int i = 0; i < N; i++) if (i != mb) ok &= (int) s.ts[i] == mt[i];
	return ok;
}
static int hnow, hsym;	// the estimate the state must have now
static int scratch() { int h = 0; for (int i = 0; i < N; i++) if (i != mb) h += far_[mt[i]][i]; return h; }
static void look(D::State &s) {
	if (PROP == 2) {
		int h = hnow, g = 1;
		for (int i = 0; i < N; i++) if (i != mb) for (int t = 1; t < N; t++) g &= (mt[i] != t) | (goalat[t] == i);
		sym_assert(dp->h(s) == h && dp->d(s) == h, "the estimate is the sum of the tiles' distances");
		sym_assert(h >= 0, "it is not negative");
		int ig = dp->isgoal(s);
		sym_assert(ig == (h == 0), "a goal exactly when the estimate is zero");
		if (ig) sym_cover("goal");
		if (ig) sym_assert(g, "the estimate is zero only at the goal"); else sym_assert(!g, "the estimate is zero at the goal");
	} else sym_assert(model(s), "the state is the expected one");
}
static void play(D::State &s, int depth) {
	look(s);
	if (depth == MOVES) return;
	D::Operators ops(*dp, s);
	std::vector<int> near;
	for (int i = 0; i < N; i++) { int dr = i / W - mb / W, dc = i % W - mb % W; if (dr * dr + dc * dc == 1) near.push_back(i); }
	sym_assert(ops.size() == near.size(), "as many moves as the blank has neighbours");
	unsigned k = sym_conc(sym_range("move", 0, ops.size() - 1)), hits = 0;
	for (unsigned i = 0; i < near.size(); i++) for (unsigned j = 0; j < ops.size(); j++) hits += ops[j] == near[i];
	sym_assert(hits == near.size(), "the moves are to the blank's neighbours");
	int op = ops[k], was = mb, h0 = dp->h(s);
	{
		D::Edge e(*dp, s, op);
		sym_assert(e.cost == 1 && e.revcost == 1, "a move costs 1 either way");
		mt[was] = mt[op]; mb = op;
		int hwas = hnow; hnow = hwas + step_[op][was][mt[was]];
		look(e.state);
		int h1 = dp->h(e.state);
		if (PROP == 2) sym_assert((h1 - h0 <= 1) & (h1 - h0 >= -1), "a move changes the estimate by at most its cost");
		sym_assert(e.revop == was, "the inverse moves the blank back");
		{
			D::Edge back(*dp, e.state, e.revop);
			sym_assert(back.revop == op, "the inverse of the inverse is the move");
			mt[op] = mt[was]; mb = was; int hn = hnow; hnow = hwas; look(back.state); hnow = hn; sym_assert(dp->h(back.state) == h0, "moving back gives back the estimate");
			mt[was] = mt[op]; mb = op;
		}
		look(e.state);
		play(e.state, depth + 1);
		sym_cover("moved");
		hnow = hwas;
	}
	mt[op] = mt[was]; mb = was;
	look(s);
	sym_assert(dp->h(s) == h0, "undoing a move restores the estimate");
}
extern "C" void sym_main() {
	MemFile *m = mem(memfile(0));
	int gk = PROP == 3 ? 0 : sym_conc(sym_range("goals", 0, NGOALS - 1));
	for (int t = 0; t < N; t++) goalat[t] = gk == 0 ? t : gk == 1 ? N - 1 - t : (t * 5 + 3) % N;
	for (int t = 1; t < N; t++) for (int i = 0; i < N; i++) far_[t][i] = abs(i / W - goalat[t] / W) + abs(i % W - goalat[t] % W);
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int t = 1; t < N; t++) step_[i][j][t] = far_[t][j] - far_[t][i];
	m_fprintf(memfile(0), "%d %d\n starting positions for each tile:\n", WIDTH, HEIGHT);
	for (int t = 0; t < N; t++) m_fprintf(memfile(0), "%d\n", t);
	m_fprintf(memfile(0), " goal positions:\n");
	for (int t = 0; t < N; t++) m_fprintf(memfile(0), "%d\n", goalat[t]);
	m->pos = 0;
	dp = new D(memfile(0));
	mb = sym_conc(sym_range("blank", 0, N - 1));
	for (int i = 0; i < N; i++) {
		mt[i] = i == mb ? 0 : sym_int("tile", 1, N - 1);
		// (not even that the tiles differ matters)
		dp->init[i] = mt[i];
	}
	D::State s = dp->initialstate();
#if PROP == 3
	// a state after any first move, so that something is left under the blank
	if (sym_conc(sym_bool("moved"))) {
		D::Operators ops(*dp, s);
		int op = ops[sym_conc(sym_range("move", 0, ops.size() - 1))];
		D::State copy(s);
		D::Edge e(*dp, copy, op);
		int was = mb; mt[was] = mt[op]; mb = op;
		s = e.state;
	}
	D::State s0(s);
	D::PackedState p; memset((void*) &p, 0x5a, sizeof p);
	dp->pack(p, s);
	sym_assert(model(s) && s.h == s0.h, "packing leaves the state alone");
	D::State buf; memset((void*) &buf, 0x77, sizeof buf);
	D::State &u = dp->unpack(buf, p);
	sym_assert(model(u) && u.h == s.h, "unpacking restores the state");
	sym_assert(u == s && s == u, "and it is equal");
	mt[mb] = 0;
	// another state
	int ob = sym_conc(sym_range("blank", 0, N - 1)), diff = 0;
	D::State o = dp->initialstate();
	for (int i = 0; i < N; i++) {
		int t = i == ob ? 0 : sym_int("other", 1, N - 1);
		o.ts[i] = t;
		diff |= t != mt[i];
	}
	o.b = ob;
	D::PackedState q; dp->pack(q, o);
	bool same = p.eq(dp, q);
	sym_assert(same == !diff, "packed states are equal exactly when the states are");
	sym_assert((o == s) == !diff, "states are equal exactly when their tiles are");
	if (same) { sym_assert(p.hash(dp) == q.hash(dp), "equal packed states hash alike"); sym_cover("equal"); } else sym_cover("different");
#else
	sym_assert(model(s), "the initial state is the instance's");
	hnow = scratch();
	play(s, 0);
#endif
}
