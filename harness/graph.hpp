// A state space for the search algorithms: a graph on NN states whose edges, costs, goals and estimates are symbolic.
//
//  NN      number of states; state 0 is the start
//  CMAX    edge costs are 1..CMAX (in units of 1/2^CFRAC for real-valued costs)
//  HMAX    estimates are 0..HMAX (same units)
//  GCOST   type of a cost
//  HKIND   0: any estimate that is 0 at goals, 1: admissible, 2: consistent
//  GOALS   0: the goal is the last state only, 1: any set of goals
//  REV     1: edges name their inverse where there is one
//  SHAPE   unset: every edge may or may not be there; set: "ab bc ..." the edges that are there (letters are states)
#pragma once
#include "sym.h"
#include <vector>
#include <cstdio>
#ifndef HKIND
#define HKIND 1
#endif
#ifndef GOALS
#define GOALS 0
#endif
#ifndef REV
#define REV 1
#endif
#ifndef CFRAC
#define CFRAC 0
#endif
#ifndef GCOST
#define GCOST int
#endif
#ifndef CONC
#define CONC 0
#endif
#ifndef SYMM
#define SYMM 0	// 1: every edge goes both ways
#endif
#ifndef STEPLIM
#define STEPLIM 3000000
#endif
#ifndef INPLACE
#define INPLACE 1
#endif
#ifndef CMIN
#define CMIN 1
#endif
#ifndef DMAX
#define DMAX HMAX
#endif
#ifndef HASHMUL
#define HASHMUL 1
#endif



// The description of a graph, in integer units.
struct Graph {
	int adj[NN][NN];	// symbolic booleans, made concrete when the search looks
	int cost[NN][NN];
	int hv[NN], dv[NN], goal[NN];

	void make() {
		for (int i = 0; i < NN; i++)
		for (int j = 0; j < NN; j++) {
			adj[i][j] = 0; cost[i][j] = 1;
#ifndef SHAPE
			if (i == j) continue;
			adj[i][j] = SYMM && j < i ? adj[j][i] : sym_bool("edge");
			cost[i][j] = sym_int("cost", CMIN, CMAX);
#endif
		}
#ifdef SHAPE
		for (const char *s = SHAPE; *s; s += 2) {
			int u = s[0] - 'a', v = s[1] - 'a', sy = 1;
			if (s[2] == '*') { sy = 0; }	// fixed cost
			adj[u][v] = 1;
			cost[u][v] = sy ? sym_int("cost", CMIN, CMAX) : s[3] - '0';
			if (!sy) s += 2;
			if (s[2] == ' ') s++;
		}
#endif
		for (int i = 0; i < NN; i++) goal[i] = GOALS ? sym_bool("goal") : i == NN - 1;
		for (int i = 0; i < NN; i++) {
			hv[i] = i == NN - 1 && !GOALS && HKIND > 0 ? 0 : sym_int("h", 0, HMAX);
#if SPLITD
			dv[i] = sym_int("d", 0, DMAX);
#elif defined DCONST
			dv[i] = DCONST * (1 << CFRAC);
#else
			dv[i] = hv[i];
#endif
#if HKIND == 0
			sym_assume(sym_ite(goal[i], hv[i] == 0, 1));
#elif HKIND == 1
			// admissibility is assumed by admissible(), after the search, when few unknowns are left
			sym_assume(sym_ite(goal[i], hv[i] == 0, 1));
#else
			sym_assume(sym_ite(goal[i], hv[i] == 0, 1));
#endif
		}
#if HKIND == 2
		for (int i = 0; i < NN; i++)
		for (int j = 0; j < NN; j++) {
			if (i == j) continue;
			if (!sym_issym(adj[i][j]) && !adj[i][j]) continue;
			sym_assume(sym_ite(adj[i][j], hv[i] <= cost[i][j] + hv[j], 1));
		}
#endif
	}
	// Visits every simple path from i to a goal: f(condition under which it is there, its cost).
	template <class F> void walk(int i, unsigned seen, int cond, int cst, F &f) {
		int gl = goal[i];
		if (sym_issym(gl) || gl) f(cond & gl, cst);
		if (!sym_issym(gl) && gl) return;
		for (int j = 0; j < NN; j++) {
			if ((seen >> j & 1) || (!sym_issym(adj[i][j]) && !adj[i][j])) continue;
			walk(j, seen | 1u << j, cond & adj[i][j], cst + cost[i][j], f);
		}
	}
	struct Le { int b, ok, m; void operator()(int cond, int cst) { ok &= (cond ^ 1) | (b <= m * cst); } };
	struct Any { int ok; void operator()(int cond, int) { ok |= cond; } };
	// b is at most m times the cheapest cost from i to a goal
	int atmost(int i, int b, int m = 1) { Le f = { b, 1, m }; walk(i, 1u << i, 1, 0, f); return f.ok; }
	int reachable(int i) { Any f = { 0 }; walk(i, 1u << i, 1, 0, f); return f.ok; }
	void admissible() { for (int i = 0; i < NN; i++) if (sym_issym(hv[i]) || hv[i]) sym_assume(atmost(i, hv[i])); }
	// with bucketed queues a cost becomes concrete when the search first uses it
	int c(int i, int j) { if (CONC) cost[i][j] = (int) sym_conc(cost[i][j]); return cost[i][j]; }
	int h(int i) { if (CONC) hv[i] = (int) sym_conc(hv[i]); return hv[i]; }
	int d(int i) { if (CONC) dv[i] = (int) sym_conc(dv[i]); return dv[i]; }
	bool edge(int i, int j) { adj[i][j] = (int) sym_conc(adj[i][j]); if (SYMM) adj[j][i] = adj[i][j]; return adj[i][j]; }
};

struct GDom {
	typedef GCOST Cost;
	typedef int Oper;	// the state to go to
	enum { Nop = -1 };
	Graph *g;
	int salt;
	GDom(Graph *g_) : g(g_), salt(0) { }
	static Cost C(int units) { return (Cost) units / (Cost) (1 << CFRAC); }
	struct State { int id; bool eq(const GDom*, const State &o) const { return id == o.id; } unsigned long hash(const GDom*) const { return id * HASHMUL; } };
	struct PackedState {
		int id;
		unsigned long hash(const GDom *d) const { return id * HASHMUL + d->salt; }
		bool eq(const GDom *d, const PackedState &o) const { return (id + d->salt) == (o.id + d->salt); }
	};
	State initialstate() { State s; s.id = 0; return s; }
	Cost h(const State &s) const { return C(g->h(s.id)); }
	Cost d(const State &s) const { return C(g->d(s.id)); }
	bool isgoal(const State &s) const { return g->goal[s.id] = (int) sym_conc(g->goal[s.id]); }
	struct Operators {
		std::vector<Oper> v;
		Operators(const GDom &d, const State &s) { for (int j = 0; j < NN; j++) if (d.g->edge(s.id, j)) v.push_back(j); }
		unsigned int size() const { return v.size(); }
		Oper operator[](unsigned int i) const { return v[i]; }
	};
	struct Edge {
		Cost cost;
		Oper revop;
		Cost revcost;
#if INPLACE
		State &state;
		int old;
		Edge(const GDom &d, State &s, Oper op) : cost(C(d.g->c(s.id, op))), revop(Nop), revcost(-1), state(s), old(s.id) {
			rev(d, s.id, op); s.id = op;
		}
		~Edge() { state.id = old; }
#else
		State state;
		Edge(const GDom &d, State &s, Oper op) : cost(C(d.g->c(s.id, op))), revop(Nop), revcost(-1) {
			rev(d, s.id, op); state.id = op;
		}
#endif
		void rev(const GDom &d, int from, int to) {
			if (REV && d.g->edge(to, from)) { revop = from; revcost = C(d.g->c(to, from)); }
		}
	private:
		Edge(const Edge&);
	};
	void pack(PackedState &p, const State &s) const { p.id = s.id; }
	State &unpack(State &buf, const PackedState &p) const { buf.id = p.id; return buf; }
	Cost pathcost(const std::vector<State>&, const std::vector<Oper>&) const { return 0; }
	void dumpstate(FILE*, const State&) const { }
};

// What every result must satisfy; gives the cost of the solution in units, or -1 when there is none.
template <class R> static int checkpath(Graph &g, R &res, int start = 0) {
	size_t n = res.path.size();
	if (n == 0) { sym_assert(res.ops.empty(), "no path, no operators"); return -1; }
	sym_assert(res.ops.size() == n - 1, "one operator fewer than states");
	sym_assert(res.path[n - 1].id == start, "the path starts at the start state");
	int gid = res.path[0].id;
	sym_assert(gid >= 0 && gid < NN && (g.goal[gid] = sym_conc(g.goal[gid])), "the path ends in a goal");
	int cost = 0, at = start;

	for (size_t i = n - 1; i-- > 0; ) {
		int op = res.ops[i];
		sym_assert(op >= 0 && op < NN && g.edge(at, op), "every operator applies in its state");
		sym_assert(res.path[i].id == op, "every operator leads to the next state of the path");
		cost += g.cost[at][op];
		at = op;
	}
	return cost;
}
