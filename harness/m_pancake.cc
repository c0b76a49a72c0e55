// M05 (PROP 5), M03 (PROP 3): pancakes.
#define MEMFILE 1024
#include "memfile.hpp"
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <vector>
#define private public
#include "pancake/pancake.cc"
#undef private
typedef Pancake D;
enum { N = NCAKES };
static int m[N];
static D *dp;
static int gapat(int i) { if (i == N - 1) return m[i] != N - 1; int d = m[i] - m[i + 1]; return (d != 1) & (d != -1); }
static void look(D::State &s, int h) {
	int ok = 1;
	for (int i = 0; i < N; i++) ok &= s.cakes[i] == m[i];
	sym_assert(ok, "the stack is the expected one");
	sym_assert(dp->h(s) == h && dp->d(s) == h, "the estimate is the number of gaps");
	sym_assert((int) dp->isgoal(s) == (h == 0), "a goal exactly when there is no gap");
}
static void mflip(int op) { for (int i = 0, j = op; i < j; i++, j--) { int t = m[i]; m[i] = m[j]; m[j] = t; } }
static void play(D::State &s, int h, int depth) {
	if (depth == MOVES) return;
	D::Operators ops(*dp, s);
	sym_assert(ops.size() == N - 1, "every flip but the trivial one is offered");
	unsigned k = sym_conc(sym_range("move", 0, ops.size() - 1));
	int op = ops[k];
	sym_assert(op == (int) k + 1, "each flip once");
	{
		int g0 = gapat(op);
		D::Edge e(*dp, s, op);
		sym_assert(e.cost == 1 && e.revcost == 1, "a flip costs 1 either way");
		mflip(op);
		int h1 = h + gapat(op) - g0;	// only the gap under the flipped stack can change
		look(e.state, h1);
		sym_assert((h1 - h <= 1) & (h1 - h >= -1), "a flip changes the estimate by at most its cost");
		{ D::Edge back(*dp, e.state, e.revop); mflip(op); look(back.state, h); sym_assert(back.revop == op, "the inverse of the inverse is the flip"); mflip(op); }
		look(e.state, h1);
		play(e.state, h1, depth + 1);
		mflip(op);
		sym_cover("flipped");
	}
	look(s, h);
}
extern "C" void sym_main() {
	m_fprintf(memfile(0), "%d\n", N);
	for (int i = 0; i < N; i++) m_fprintf(memfile(0), "%d ", i);
	mem(memfile(0))->pos = 0;
	dp = new D(memfile(0));
	for (int i = 0; i < N; i++) {
		m[i] = sym_int("cake", 0, N - 1);
		for (int j = 0; j < i; j++) sym_assume(m[i] != m[j]);
		dp->init[i] = m[i];
	}
	D::State s = dp->initialstate();
	int h = 0, sorted = 1;
	for (int i = 0; i < N; i++) { h += gapat(i); sorted &= m[i] == i; }
	look(s, h);
	if (dp->isgoal(s)) { sym_assert(sorted, "no gaps only in the sorted stack"); sym_cover("goal"); } else sym_assert(!sorted, "no gaps in the sorted stack");
#if PROP == 5
	play(s, h, 0);
#else
	D::PackedState p; memset((void*) &p, 0x5a, sizeof p);
	dp->pack(p, s); look(s, h);
	D::State buf; memset((void*) &buf, 0x77, sizeof buf);
	D::State &u = dp->unpack(buf, p);
	look(u, h);
	D::State o = dp->initialstate(); int same = 1;
	for (int i = 0; i < N; i++) { o.cakes[i] = sym_int("other", 0, N - 1); same &= o.cakes[i] == m[i]; }
	D::PackedState q; dp->pack(q, o);
	bool eq = p.eq(dp, q);
	sym_assert(eq == same, "packed states are equal exactly when the stacks are");
	if (eq) { sym_assert(p.hash(dp) == q.hash(dp), "equal packed states hash alike"); sym_cover("equal"); } else sym_cover("different");
#endif
}
