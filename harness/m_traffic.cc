// M10: traffic.  KIND 0: one obstacle along its track; 1: any obstacle stays inside; 2: steps among obstacles.
#define MEMFILE 256
#include "memfile.hpp"
#include <cmath>
#include "traffic/traffic.hpp"
#include "traffic/gridmap.cc"
#include "traffic/traffic.cc"
extern "C" void sym_main() {
	int w = sym_conc(sym_int("width", 1, WMAX)), h = sym_conc(sym_int("height", 1, WMAX));
#if KIND == 0
	int x = sym_int("x", 0, w - 1), y = sym_int("y", 0, h - 1), dx = sym_int("dx", -1, 1), dy = sym_int("dy", -1, 1);
	GridMap::Obstacle o(x, y, dx, dy);
	for (int t = 0; t <= TMAX; t++) {
		std::pair<int,int> p = o.positionAt(w, h, t);
		sym_assert((p.first == x) & (p.second == y), "an obstacle moves one cell per step and bounces at the sides");
		int offx = (x + dx < 0) | (x + dx >= w), offy = (y + dy < 0) | (y + dy >= h);
		dx = sym_ite(offx, -dx, dx); dy = sym_ite(offy, -dy, dy);
		x = sym_ite(w == 1, 0, x + dx); y = sym_ite(h == 1, 0, y + dy);
	}
	sym_cover("track");
#elif KIND == 1
	GridMap::Obstacle o(sym_int("x", 0, w - 1), sym_int("y", 0, h - 1), sym_int("dx", -9, 9), sym_int("dy", -9, 9));
	int t = sym_int("t", 0, 1000);
	std::pair<int,int> p = o.positionAt(w, h, t);
	sym_assert((p.first >= 0) & (p.first < w) & (p.second >= 0) & (p.second < h), "an obstacle stays on the map");
	sym_cover("inside");
#else
	int sx = sym_conc(sym_int("sx", 0, w - 1)), sy = sym_conc(sym_int("sy", 0, h - 1)), gx = w - 1, gy = sym_conc(sym_int("gy", 0, h - 1));
	GridMap *m = new GridMap(w, h);
	int no = sym_conc(sym_range("obstacles", 0, OBS));
	for (int i = 0; i < no; i++) m->obstacles.emplace_back(sym_int("x", 0, w - 1), sym_int("y", 0, h - 1), sym_int("dx", -1, 1), sym_int("dy", -1, 1));
	Traffic d(m, sx, sy, gx, gy);
	Traffic::State init = d.initialstate(), s;
	Traffic::PackedState pk, pi;
	d.pack(pi, init);
	sym_assert(pi.loc == (unsigned) (sy * w + sx) && pi.t == 0, "the start");
	int cx = sym_conc(sym_int("cx", 0, w - 1)), cy = sym_conc(sym_int("cy", 0, h - 1)), t = sym_conc(sym_int("t", 0, TMAX));
	pk.loc = cy * w + cx; pk.t = t;
	d.unpack(s, pk);
	sym_assert(d.isgoal(s) == (cx == gx && cy == gy), "the goal");
	Traffic::Cost est = d.h(s);
	int at[OBS + 1], to[OBS + 1];
	for (int i = 0; i < no; i++) {
		std::pair<int,int> p = m->obstacles[i].positionAt(w, h, t), q = m->obstacles[i].positionAt(w, h, t + 1);
		at[i] = p.second * w + p.first; to[i] = q.second * w + q.first;
	}
	Traffic::Operators ops(d, s);
	bool seen[5] = { };
	for (unsigned i = 0; i < ops.size(); i++) {
		int op = ops[i];
		sym_assert(op >= 0 && op < 5 && op < (int) m->nmvs && !seen[op], "an operator is a move");
		seen[op] = true;
		int nx = cx + m->mvs[op].dx, ny = cy + m->mvs[op].dy;
		sym_assert(nx >= 0 && ny >= 0 && nx < w && ny < h, "a step stays on the map");
		Traffic::Edge e(d, s, op);
		Traffic::PackedState q;
		d.pack(q, e.state);
		int hit = 0;
		for (int j = 0; j < no; j++) hit |= to[j] == ny * w + nx;
		sym_assert(e.cost == Traffic::Cost(1), "a step costs one");
		if (sym_conc(hit)) { sym_assert(q.loc == pi.loc && q.t == 0, "a step into an obstacle goes back to the start"); sym_cover("hit"); }
		else { sym_assert(q.loc == (unsigned) (ny * w + nx) && q.t == (unsigned) t + 1, "a free step goes where it says");
			sym_assert((double) d.h(e.state) + 1 >= (double) est, "the estimate drops by at most the cost of a step"); sym_cover("free"); }
		sym_assert(q.eq(&d, q) && (q.eq(&d, pk) == (q.loc == pk.loc && q.t == pk.t)), "equality of packed states");
	}
	int ndirs = 0;
	for (unsigned op = 0; op < m->nmvs; op++) {
		int nx = cx + m->mvs[op].dx, ny = cy + m->mvs[op].dy, can = nx >= 0 && ny >= 0 && nx < w && ny < h;
		for (int j = 0; j < no; j++) can &= !((at[j] == ny * w + nx) & (to[j] == cy * w + cx));
		sym_assert(can == seen[op], "a step is offered exactly when it stays on the map and swaps with no obstacle");
		ndirs |= 1 << (m->mvs[op].dx + 1 + 3 * (m->mvs[op].dy + 1));
	}
	sym_assert(ndirs == (1 << 1 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 7), "the moves are the four directions and waiting");
#endif
}
