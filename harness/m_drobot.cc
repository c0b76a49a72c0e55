// M11: the dock robot.  KIND 0: every action from every state; 1: instances read from text; 2: the estimate.
#ifndef CRHI
#define CRHI 2
#endif
#define MEMFILE 1024
#include "memfile.hpp"
#include <cmath>
#include <limits>
#define strtof(s, e) ((float) strtod(s, e))
#define private public
#include "utils/fs.cc"
#include "drobot/drobot.cc"
#undef private
typedef DockRobot D; typedef D::Oper Op;
enum { Robot, Crane, Pile };
struct Box { int kind, loc, under; };	// under: the box below in a pile, or -1
struct Model { Box b[NB]; int rloc;
	bool operator==(const Model &o) const { for (int i = 0; i < NB; i++) if (b[i].kind != o.b[i].kind || b[i].loc != o.b[i].loc || b[i].under != o.b[i].under) return false; return rloc == o.rloc; } };
static D *dr;
static Model look(const D::State &s) {	// what a state says, with checks on its form
	Model m; bool seen[NB] = { };
	m.rloc = s.rloc;
	sym_assert(s.rloc < dr->nlocs && s.locs.size() == dr->nlocs, "the robot is somewhere");
	for (unsigned l = 0; l < s.locs.size(); l++) {
		const D::Loc &loc = s.locs[l];
		sym_assert(loc.cranes.size() <= dr->maxcranes[l] && loc.piles.size() <= dr->maxpiles[l], "no more cranes and piles than there are");
		for (unsigned c = 0; c < loc.cranes.size(); c++) { unsigned b = loc.cranes[c]; sym_assert(b < NB && !seen[b], "a box is in one place"); seen[b] = true; m.b[b] = Box{ Crane, (int) l, -1 }; }
		for (unsigned p = 0; p < loc.piles.size(); p++) {
			sym_assert(loc.piles[p].stack.size() > 0, "no pile is empty");
			for (unsigned i = 0; i < loc.piles[p].stack.size(); i++) { unsigned b = loc.piles[p].stack[i]; sym_assert(b < NB && !seen[b], "a box is in one place"); seen[b] = true; m.b[b] = Box{ Pile, (int) l, i ? (int) loc.piles[p].stack[i - 1] : -1 }; }
		}
	}
	if (s.rbox >= 0) { sym_assert(s.rbox < NB && !seen[s.rbox], "a box is in one place"); seen[s.rbox] = true; m.b[s.rbox] = Box{ Robot, (int) s.rloc, -1 }; }
	int left = 0;
	for (int b = 0; b < NB; b++) {
		sym_assert(seen[b], "no box is lost");
		left += (dr->goal[b] >= 0) & (dr->goal[b] != m.b[b].loc);
		sym_assert((dr->goal[b] < 0) | (s.boxlocs[b] == (unsigned) m.b[b].loc), "the location of a box with a goal");
	}
	sym_assert(s.nleft == (unsigned) left, "the number of boxes out of place");
	sym_assert(dr->isgoal(s) == (left == 0), "the goal");
	return m;
}
static int height(const Model &m, int b) { int h = 1; while (m.b[b].under >= 0) { b = m.b[b].under; h++; } return h; }
static bool covered(const Model &m, int b) { for (int i = 0; i < NB; i++) if (m.b[i].kind == Pile && m.b[i].under == b) return true; return false; }
static bool close(float a, double b) { double d = (double) a - b; return d < 1e-5 && d > -1e-5; }
static float roadcost(int a, int b) { return 1 + a + 0.5f * b; }
static void load(D::State &s, Model &m, int locs) {	// any state
	std::vector<D::Loc> ls(locs);
	int rbox = -1, rloc = sym_conc(sym_range("robot", 0, locs - 1)), order = NB == 3 ? sym_conc(sym_range("order", 0, 5)) : sym_conc(sym_range("order", 0, NB - 1));
	static const int perm[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	for (int i = 0; i < NB; i++) {
		int b = perm[order][i], where = sym_conc(sym_range("place", 0, 2 * locs + NB - 1));
		if (where == 0) { sym_assume(rbox < 0); rbox = b; }
		else if (where <= locs) { D::Loc &l = ls[where - 1]; sym_assume(l.cranes.size() < dr->maxcranes[where - 1]); l.cranes.push_back(b); std::sort(l.cranes.begin(), l.cranes.end()); }
		else if (where <= 2 * locs) { D::Loc &l = ls[where - locs - 1]; sym_assume(l.piles.size() < dr->maxpiles[where - locs - 1]); l.piles.push_back(D::Pile(b)); std::sort(l.piles.begin(), l.piles.end()); }
		else {	// on the box placed earlier
			int k = where - 2 * locs - 1; sym_assume(k < i); int on = perm[order][k]; bool put = false;
			for (int l = 0; l < locs; l++) for (auto &p : ls[l].piles) if (p.stack.back() == (unsigned) on) { p.stack.push_back(b); put = true; }
			sym_assume(put);
		}
	}
	s = D::State(*dr, std::move(ls), rbox, rloc);
	m = look(s);
}
static void samestate(const D::State &a, const D::State &b) {
	sym_assert(a == b && a.boxlocs == b.boxlocs && a.h == b.h && a.d == b.d, "undoing an action restores the state");
}
static void step(D::State &s, const Model &m, int depth) {	// every action offered in s
	D::State saved(s);
	D::Operators ops(*dr, s);
	bool anyrobot = false; int ncr = 0, npl = 0, want = dr->nlocs - 1, r = m.rloc;
	for (int b = 0; b < NB; b++) { anyrobot |= m.b[b].kind == Robot; ncr += m.b[b].kind == Crane && m.b[b].loc == r; npl += m.b[b].kind == Pile && m.b[b].loc == r && m.b[b].under < 0; }
	want += ncr * (npl + (npl < (int) dr->maxpiles[r]));
	if (ncr < (int) dr->maxcranes[r]) want += npl + anyrobot;
	if (!anyrobot) want += ncr;
	sym_assert((int) ops.size() == want, "every possible action is offered");
	Model next[32];
	for (unsigned i = 0; i < ops.size(); i++) {
		Op o = ops[i];
		Model e = m; double cost = 0, back = 0;
		switch (o.type) {
		case Op::Push: { sym_assert(o.x < s.locs[r].cranes.size(), "an action is possible"); int b = s.locs[r].cranes[o.x]; int top = o.y < s.locs[r].piles.size() ? (int) s.locs[r].piles[o.y].stack.back() : -1; e.b[b] = Box{ Pile, r, top }; cost = 0.05 * height(e, b); back = 0.05 * (height(e, b) + 1); sym_cover("push"); break; }
		case Op::Pop: { sym_assert(o.x < s.locs[r].piles.size(), "an action is possible"); int b = s.locs[r].piles[o.x].stack.back(); cost = 0.05 * (height(m, b) + 1); back = 0.05 * height(m, b); e.b[b] = Box{ Crane, r, -1 }; sym_cover("pop"); break; }
		case Op::Load: { sym_assert(o.x < s.locs[r].cranes.size() && s.rbox < 0, "an action is possible"); e.b[s.locs[r].cranes[o.x]] = Box{ Robot, r, -1 }; cost = back = 0.01; sym_cover("load"); break; }
		case Op::Unload: sym_assert(s.rbox >= 0, "an action is possible"); e.b[s.rbox] = Box{ Crane, r, -1 }; cost = back = 0.01; sym_cover("unload"); break;
		case Op::Move: sym_assert(o.x < dr->nlocs && (int) o.x != r, "an action is possible"); e.rloc = o.x; if (s.rbox >= 0) e.b[s.rbox].loc = o.x; cost = dr->adj[r][o.x]; back = dr->adj[o.x][r]; sym_cover("move"); break;
		default: sym_fail("an action is possible");
		}
		for (unsigned j = 0; j < i; j++) sym_assert(!(ops[j] == o) && !(next[j] == e), "every action is offered once");
		next[i] = e;
		{
			D::Edge g(*dr, s, o);
			sym_assert(look(g.state) == e, "an action does what it says");
			sym_assert(close(g.cost, cost) && close(g.revcost, back), "the costs of an action and of undoing it");
			Op rev = g.revop; float rc = g.revcost, fc = g.cost;
			bool offered = false; D::Operators bops(*dr, g.state);
			for (unsigned j = 0; j < bops.size(); j++) offered |= bops[j] == rev;
			sym_assert(offered, "the way back is offered");
			D::State mid(g.state);
			{
				D::Edge h(*dr, mid, rev);
				sym_assert(h.state == saved && look(h.state) == m && h.cost == rc && h.revcost == fc, "the way back leads back");
			}
			sym_assert(mid == g.state, "undoing an action restores the state");
			D::PackedState pk, pk2; D::State buf;
			dr->pack(pk, g.state); dr->pack(pk2, saved);
			D::State &u = dr->unpack(buf, pk);
			sym_assert(u == g.state && look(u) == e, "a packed state is unpacked as it was");
			sym_assert(pk.eq(dr, pk) && !pk.eq(dr, pk2), "packed states are equal when the states are");
			if (depth > 1) step(g.state, e, depth - 1);
		}
		samestate(s, saved);
	}
}
static D *mk(int locs, int cr0, int cr1, int pl) {
	D *d = new D(locs);
	d->nboxes = NB;
	for (int l = 0; l < locs; l++) { d->maxcranes[l] = l ? cr1 : cr0; d->maxpiles[l] = pl; for (int k = 0; k < locs; k++) if (k != l) d->adj[l][k] = roadcost(l, k); }
	d->goal.resize(NB, -1);
	return d;
}
extern "C" void sym_main() {
#if KIND == 0
	dr = mk(2, sym_conc(sym_range("cranes", CR, CRHI)), 1, sym_conc(sym_range("piles", 1, 2)));
	for (int b = 0; b < NB; b++) dr->goal[b] = sym_int("goal", -1, 1);
	dr->initheuristic();
	D::State s; Model m;
	load(s, m, 2);
	step(s, m, DEPTH);
#elif KIND == 1
	FILE *f = memfile(0);
	int order = sym_conc(sym_range("order", 0, 5)), split = sym_conc(sym_range("split", 0, 3)), blank = sym_conc(sym_bool("blank")), g = sym_conc(sym_range("goal", 0, 1));
	static const int perm[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	m_fprintf(f, "nlocations: 2\nncranes: 2\nncontainers: 3\nnpiles: 4\nnrobots: 1\n\nlocation 0\nadjacent: 0 2\ncranes: 0\npiles: 0 1\n\nlocation 1\nadjacent: 3 0\ncranes: 1\npiles: 2 3\n%s", blank ? "\n" : "");
	Model want; want.rloc = 0;
	int k = 0, last = -1;
	for (int p = 0; p < 4; p++) {
		m_fprintf(f, "pile %d\n", p);
		last = -1;
		int n = split == 0 ? (p < 2 ? p + 1 : 0) : split == 1 ? (p < 3) : split == 2 ? (p > 0) : (p == 2 ? 3 : 0);
		for (int i = 0; i < n; i++) { int b = perm[order][k++]; m_fprintf(f, i ? " %d" : "%d", b); want.b[b] = Box{ Pile, p / 2, last }; last = b; }
		m_fprintf(f, "\n");
	}
	m_fprintf(f, "container 1 at %d\n", g);
	dr = new D(f);
	sym_assert(dr->nlocs == 2 && dr->nboxes == 3 && dr->maxcranes[0] == 1 && dr->maxcranes[1] == 1 && dr->maxpiles[0] == 2 && dr->maxpiles[1] == 2, "the sizes are as described");
	sym_assert(dr->goal[0] == -1 && dr->goal[1] == g && dr->goal[2] == -1 && dr->adj[0][1] == 2 && dr->adj[1][0] == 3, "goals and roads are as described");
	D::State s = dr->initialstate();
	Model m = look(s);
	sym_assert(m == want, "the boxes are as described");
	step(s, m, DEPTH);
#else
	dr = mk(LOCS, 2, 1, 2);
	int roads = sym_conc(sym_range("roads", 0, 2));
	for (int l = 0; l < LOCS; l++) for (int k = 0; k < LOCS; k++) if (k != l) dr->adj[l][k] = roads == 0 ? 1 : roads == 1 ? roadcost(l, k) : l + 1 == k || (k == 0 && l == LOCS - 1) ? 0.25f : 4;
	for (int b = 0; b < NB; b++) dr->goal[b] = sym_conc(sym_int("goal", -1, LOCS - 1));
	dr->initheuristic();
	D::State s; Model m;
	load(s, m, LOCS);
	float h[STEPS + 1], g[STEPS + 1]; g[0] = 0;
	Op last = D::Nop;
	for (int k = 0; ; k++) {
		h[k] = dr->h(s);
		sym_assert(h[k] >= 0 && dr->d(s) >= 0, "an estimate is not negative");
		if (dr->isgoal(s)) {
			sym_assert(h[k] == 0, "the estimate of a goal is nothing");
			for (int i = 0; i < k; i++) sym_assert(h[i] <= g[k] - g[i] + 1e-4f, "the estimate is at most the cost to any goal");
			sym_cover("goal");
			break;
		}
		if (k == STEPS) break;
		D::Operators ops(*dr, s);
		if (!ops.size()) break;
		Op o = ops[sym_conc(sym_range("op", 0, ops.size() - 1))];
		if (k && o == last) break;	// not straight back
		D::Edge *e = new D::Edge(*dr, s, o);
		g[k + 1] = g[k] + e->cost; last = e->revop;
	}
#endif
}
