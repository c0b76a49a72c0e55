// T06: simple temporal networks against the shortest-path characterization.
#include <vector>
#include <limits>
#include <utility>
#include <cstdio>
#define private public
#include "structs/stn.hpp"
#undef private
#include "sym.h"
typedef Stn::Time Time;
enum { M = NV + 1, INF = 1 << 20 };
struct Con { int i, j; Time a, b; int ha, hb; };	// a <= x_j - x_i <= b
static Con cons[STEPS]; static int ncons;
// the weight of the arc u -> v (x_v - x_u <= weight) by the constraints in force
static Time arc(int u, int v) {
	Time w = INF;
	for (int k = 0; k < ncons; k++) {
		if (cons[k].hb && cons[k].i == u && cons[k].j == v) w = sym_ite(cons[k].b < w, cons[k].b, w);
		if (cons[k].ha && cons[k].j == u && cons[k].i == v) w = sym_ite(-cons[k].a < w, -cons[k].a, w);
	}
	return w;
}
static Time W[M][M];
static Time best, to;
static void walk(int u, unsigned seen, Time d) {
	if (u == to) { best = sym_ite(d < best, d, best); return; }
	for (int v = 0; v < M; v++) if (!(seen >> v & 1) && (sym_issym(W[u][v]) || W[u][v] < INF)) walk(v, seen | 1u << v, d + W[u][v]);
}
static Time dist(int u, int v) { best = INF; to = v; walk(u, 1u << u, 0); return best; }
static int consistent() {	// no cycle of negative length
	for (int u = 0; u < M; u++) for (int v = 0; v < M; v++) W[u][v] = arc(u, v);
	int ok = 1;
	for (int u = 0; u < M; u++) for (int v = 0; v < M; v++) {
		if (!sym_issym(W[u][v]) && W[u][v] >= INF) continue;
		if (u == v) { ok &= W[u][u] >= 0; continue; }
		Time back = dist(v, u);
		if (!sym_issym(back) && back >= INF) continue;
		ok &= back + W[u][v] >= 0;
	}
	return ok;
}
static int samearcs(const std::vector<Stn::Arc> &a, const Stn &sa, const std::vector<Stn::Arc> &b, const Stn &sb) {
	if (a.size() != b.size()) return 0;
	int ok = 1;
	for (size_t k = 0; k < a.size(); k++) { if (a[k].first - &sa.nodes[0] != b[k].first - &sb.nodes[0]) return 0; ok &= a[k].second == b[k].second; }
	return ok;
}
static int same(const Stn &a, const Stn &b) {
	if (a.nodes.size() != b.nodes.size() || a.undos.size() != b.undos.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < a.nodes.size(); i++) {
		ok &= a.nodes[i].id == i && a.lower(i) == b.lower(i) && a.upper(i) == b.upper(i);
		ok &= samearcs(a.nodes[i].out, a, b.nodes[i].out, b); ok &= samearcs(a.nodes[i].in, a, b.nodes[i].in, b);
	}
	return ok;
}
static void bounds(const Stn &s) {
	int M = s.nodes.size();
	consistent();
	for (int v = 0; v < M; v++) {
		Time up = dist(0, v), lo = dist(v, 0);
		if (!sym_issym(up) && up >= INF) sym_assert(s.upper(v) > (1L << 60), "no upper bound"); else sym_assert(s.upper(v) == up, "the upper bound is the tightest one");
		if (!sym_issym(lo) && lo >= INF) sym_assert(s.lower(v) < -(1L << 60), "no lower bound"); else sym_assert(s.lower(v) == -lo, "the lower bound is the tightest one");
	}
}
extern "C" void sym_main() {
	Stn &s = *new Stn(NV - GROW);
	std::vector<Stn*> was;
	bool failed = false;
	int have = NV - GROW;
	for (int st = 0; st < STEPS; st++) {
		int op = GROW && st == 1 ? 2 : sym_conc(sym_range("op", 0, 1));
		if (op == 1) {
			if (was.empty()) sym_done();
			s.undo(); ncons--;
			sym_assert(same(s, *was.back()), "undoing restores the network");
			was.pop_back(); sym_cover("undo");
			bounds(s);
			continue;
		}
		if (op == 2) { if (have == NV) sym_done(); s.grow(NV - have); have = NV; for (size_t i = 0; i < was.size(); i++) was[i]->grow(GROW); sym_assert((int) s.nnodes() == NV + 1, "the network has grown"); sym_cover("grow"); bounds(s); continue; }
		Con &c = cons[ncons];
		c.i = sym_conc(sym_range("i", 0, have)); c.j = sym_conc(sym_range("j", 0, have));
		int kind = sym_conc(sym_range("kind", 0, 2));
		c.ha = kind != 1; c.hb = kind != 0;
		c.a = c.ha ? sym_range("a", -VMAX, VMAX) : Stn::neginf();
		c.b = c.hb ? sym_range("b", -VMAX, VMAX) : Stn::inf();
		Stn *old = new Stn(s);
		sym_assert(same(*old, s) && old->eq(s), "a copy is equal");
		ncons++;
		bool ok = s.add(Stn::Constraint(c.i, c.j, c.a, c.b));
		sym_assert(ok == consistent(), "an addition succeeds exactly when the constraints are consistent");
		if (ok) { bounds(s); was.push_back(old); sym_cover("added"); }
		else {
			ncons--; sym_assert(same(s, *old), "a failed addition leaves the network as it was"); delete old; failed = true; sym_cover("refused");
		}
	}
	if (failed) sym_cover("on");
	while (!was.empty()) { s.undo(); ncons--; sym_assert(same(s, *was.back()), "undoing restores the network"); was.pop_back(); }
	delete &s;
}
