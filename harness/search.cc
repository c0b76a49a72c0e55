// The search algorithms on symbolic graphs.  ALG picks the algorithm, ARGS its command line.
#include "utils/utils.hpp"
#include "sym.h"
#include <vector>
#include <string>
#include <cstring>
#include <cstdlib>
// the clock and the random numbers an algorithm's code sees are part of the input
static double clk;
#ifndef TICK
#define TICK 0.0009765625
#endif
#if defined ALG && (ALG == 12 || ALG == 13)
// the search is to stop at any one of its queries
#ifndef STOPS
#define STOPS 9
#endif
static int asked; static long stopat = -1;
static bool tostop() {
	if (stopat < 0) stopat = sym_conc(sym_range("stop", 1, STOPS));
	return ++asked >= stopat;
}
#endif
#if defined ALG && (ALG == 12 || ALG == 13)
#define RECLOCK (clk = 0, asked = 0)
#else
#define RECLOCK (clk = 0)
#endif
static double hclock() {
#if defined ALG && ALG == 12
	if (tostop()) clk += 1e9;
#endif
	return clk += TICK;
}
// (with MODE 2 the run on the reused object sees the numbers that the run on the fresh one saw)
#ifndef MODE
#define MODE 0	// 1: limits, against a run without; 2: a run on a reset object, against one on a fresh object
#endif
static long drawn[64]; static int ndrawn, draws, replay;
struct Chooser {
	long integer(long lo, long hi) {
		if (lo == hi) return lo;
		if (replay && draws < ndrawn) { long r = drawn[draws++]; if (r < lo || r > hi) { if (MODE == 2) sym_fail("the random numbers asked for differ"); r = lo; } return r; }
		long r = sym_conc(sym_range("random", lo, hi));
		if (ndrawn < 64 && !replay) drawn[ndrawn++] = r;
		return r;
	}
};
static Chooser chooser;
// rows printed by anytime algorithms
struct Row { unsigned long n; double wt, bound, cost; };
static Row rows[64]; static int nrows;
static void hrow(FILE*, const char*, const char*, unsigned long n, unsigned long, unsigned long, double wt, double b, double c, double) {
	if (nrows < 64) { Row r = { n, wt, b, c }; rows[nrows++] = r; }
}
static void hrow(FILE*, const char*, const char*, long, double, unsigned long, unsigned long) { }
#include "search/search.hpp"
#include "search/lsslrtastar.hpp"
#define walltime hclock
#define randgen chooser
#define dfrow hrow
#if ALG == 0
#include "search/astar.hpp"
#define A Astar<GDom>
#elif ALG == 1
#include "search/idastar.hpp"
#define A Idastar<GDom>
#elif ALG == 2
#include "search/wastar.hpp"
#define A Wastar<GDom>
#elif ALG == 3
#include "search/greedy.hpp"
#define A Greedy<GDom>
#elif ALG == 4
#include "search/greedy.hpp"
#define A Greedy<GDom, true>
#elif ALG == 5
#include "search/arastar.hpp"
#define A Arastar<GDom>
#elif ALG == 6
#include "search/beam.hpp"
#define A BeamSearch<GDom>
#elif ALG == 7
#include "search/bugsy.hpp"
#define A Bugsy<GDom>
#elif ALG == 8
#include "search/bugsy-slim.hpp"
#define A Bugsy_slim<GDom>
#elif ALG == 9
#define A Lsslrtastar2<GDom>
#elif ALG == 10
#include "search/fhatlrtastar.hpp"
#define A Fhatlrtastar<GDom>
#elif ALG == 11
#include "search/rtastar.hpp"
#define A Rtastar<GDom>
#elif ALG == 12
#include "search/arastar.hpp"
#define A ArastarNORA<GDom>
#elif ALG == 13
// the monitor's policy is read from a file: here it is any
#include "search/anyprof/profile.hpp"
struct AnyProfile { AnyProfile(const std::string&) { } };
struct AnyMonitor {
	AnyMonitor() { }
	AnyMonitor(const AnyProfile&, double, double) { }
	bool stop(double, double) const { return tostop(); }
};
#define AnytimeProfile AnyProfile
#define AnytimeMonitor AnyMonitor
#include "search/arastar.hpp"
#undef AnytimeProfile
#undef AnytimeMonitor
#define A ArastarMon<GDom>
#endif
#undef walltime
#undef randgen
#undef dfrow
#include "graph.hpp"

#ifndef OPT
#define OPT 0	// 1: the solution must be a cheapest one
#endif
#ifndef COMPLETE
#define COMPLETE 1	// 1: a solution exactly when there is one
#endif
#ifndef PRE
#define PRE 0	// 1: the goal can be reached from the start; 2: from every state
#endif
#ifndef WT8
#define WT8 0	// in eighths: the solution costs at most this many times the optimum
#endif
#ifndef ONESTART
#define ONESTART 0
#endif
#ifndef ONCE
#define ONCE 0	// 1: no state is expanded twice
#endif
#ifndef DSTR
#define DSTR 0	// 0: leave objects undestroyed
#endif
static Graph g;

static void pre() {
#if PRE == 1
	sym_assume(g.reachable(0));
#elif PRE == 2
	for (int i = 0; i < NN; i++) sym_assume(g.reachable(i));
#endif
}
template <class R> static void same(R &a, R &b, const char *what) {
	bool ok = a.path.size() == b.path.size() && a.ops == b.ops;
	for (size_t i = 0; ok && i < a.path.size(); i++) ok = a.path[i].id == b.path[i].id;
	sym_assert(ok, what);
	sym_assert(a.expd == b.expd && a.gend == b.gend, "as many expansions and generations");
	sym_assert(a.dups == b.dups && a.reopnd == b.reopnd, "as many duplicates and reopenings");
}
#if MODE == 1
extern "C" void sym_main() {
	const char *argv[] = { ARGS };
	int argc = sizeof argv / sizeof *argv;
	g.make();
	pre();
	GDom d(&g), d2(&g);
	GDom::State s0 = d.initialstate();
	sym_steps(STEPLIM);
	A &u = *new A(argc, argv);
	u.search(d, s0);
	A &s = *new A(argc, argv);
	unsigned long xl = sym_conc(sym_range("expansions", 0, LIMX)), gl = sym_conc(sym_range("generations", 0, xl ? 0 : LIMG));
	s.lim.expd = xl; s.lim.gend = gl;
	replay = 1; RECLOCK; nrows = 0;
	GDom::State s1 = d.initialstate();
	s.search(d2, s1);
	checkpath(g, s.res);
	bool reached = (xl && s.res.expd >= xl) || (gl && s.res.gend >= gl);
	sym_assert(!xl || s.res.expd <= xl, "no more expansions than allowed");
	sym_assert(!gl || s.res.gend < gl + NN, "at most one expansion's worth of generations too many");
	if (!reached) { same(u.res, s.res, "the result of the search without limits"); sym_cover("unreached"); }
	else if (s.res.path.empty() && !u.res.path.empty()) sym_cover("stopped");
}
#elif MODE == 2
extern "C" void sym_main() {
	const char *argv[] = { ARGS };
	int argc = sizeof argv / sizeof *argv;
	g.make();
	pre();
	GDom d(&g), d2(&g);
	GDom::State s0 = d.initialstate(), s1 = s0, sx = s0;
	sym_steps(STEPLIM);
	A &u = *new A(argc, argv);	// the fresh one
	u.search(d, s0);
	std::vector<Row> was(rows, rows + nrows);
	A &s = *new A(argc, argv);
	int nd = ndrawn;
	nrows = 0; ndrawn = 64; RECLOCK;
	sx.id = sym_conc(sym_int("start", 0, ONESTART ? 0 : NN - 1));
	s.search(d2, sx);
	if (!s.res.path.empty() && sx.id) sym_cover("other");
	s.reset();
	sym_assert(s.res.path.empty() && s.res.ops.empty() && !s.res.expd && !s.res.gend && !s.res.dups && !s.res.reopnd, "a reset empties the result");
	ndrawn = nd; replay = 1; nrows = 0; RECLOCK;
	s.search(d2, s1);
	checkpath(g, s.res);
	same(u.res, s.res, "the result of a fresh search");
	sym_assert(nrows == (int) was.size(), "as many rows");
	for (int i = 0; i < nrows && i < (int) was.size(); i++) sym_assert(rows[i].n == was[i].n && rows[i].wt == was[i].wt && rows[i].bound == was[i].bound && rows[i].cost == was[i].cost, "the same rows");
	sym_cover(u.res.path.empty() ? "none" : "again");
}
#else

extern "C" void sym_main() {
	const char *argv[] = { ARGS };
	int argc = sizeof argv / sizeof *argv;
	g.make();
	pre();
	GDom d(&g);
	A &s = *new A(argc, argv);
	GDom::State s0 = d.initialstate();
	sym_steps(STEPLIM);
	s.search(d, s0);
	int c = checkpath(g, s.res);
	sym_assert(s0.id == 0, "the caller's start state is left alone");
	if (HKIND == 1) g.admissible();
	if (c < 0) {
		if (COMPLETE) sym_assert(!g.reachable(0), "a solution is found when the goal can be reached");
		sym_cover("none");
	} else {
		if (OPT) sym_assert(g.atmost(0, c), "the solution is a cheapest one");
		if (WT8) sym_assert(g.atmost(0, 8 * c, WT8), "the solution costs at most the weight times the optimum");
		if (s.res.reopnd) sym_cover("reopened");
		if (s.res.ops.size() > 2) sym_cover("long");
		sym_cover("found");
	}
	if (ONCE) {
		sym_assert(s.res.expd <= NN, "no state is expanded twice");
	}
#if ALG == 5 || ALG == 12 || ALG == 13
	for (int i = 0; i < nrows; i++) {
		sym_assert(rows[i].n == i + 1, "rows are numbered");
		// cost and weight are in the units of GCOST
		sym_assert(i == 0 || rows[i].cost < rows[i - 1].cost, "every new solution is cheaper than the one before");
		sym_assert(i == 0 || rows[i].wt <= rows[i - 1].wt, "the weight does not grow");
		sym_assert(rows[i].bound <= rows[i].wt, "the reported bound is no worse than the weight");
		long w8 = (long) (rows[i].wt * 8), cu = sym_conc((long) (rows[i].cost * (1 << CFRAC)));
		sym_assert(g.atmost(0, 8 * (int) cu, (int) w8), "each solution is within its weight of the optimum");
	}
	if (nrows) sym_assert(c >= 0 && c <= rows[nrows - 1].cost * (1 << CFRAC), "the path costs no more than the last row says");
	if (nrows > 1) sym_cover("improved");
	sym_assert((nrows > 0) == (c >= 0), "a row for every solution");
#endif
	if (DSTR) delete &s;
}
#endif
