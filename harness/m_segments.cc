// M12: segments.  KIND 0: applying and undoing operators; 1: which operators are offered (READ 1: board read from a file).
#define MEMFILE 256
#include "memfile.hpp"
#include <cmath>
#include <utility>
#define private public
#include <limits>
#include "utils/geom2d.hpp"
#define class struct
#include "segments/segments.cc"
#undef class
#undef private
typedef Segments S; typedef S::Oper Op;
static S::Seg seg(double r, S::Pose a, S::Pose b) { S::Seg s; s.radius = r; s.start = a; s.goal = b; return s; }
static bool close(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static S::Pose pose(const char *n, int lo, int hi, int w, int h, int ang) {
	return S::Pose(sym_int(n, lo, w), sym_int(n, lo, h), sym_int(n, 0, ang - 1));
}
static S::Pose conc(S::Pose p) { return S::Pose(sym_conc(p.x), sym_conc(p.y), sym_conc(p.rot)); }
extern "C" void sym_main() {
#if KIND == 0
	int ang = sym_conc(sym_range("angles", 1, ANG)) * 2;
	std::vector<S::Seg> segs;
	for (int i = 0; i < 2; i++) segs.push_back(seg(1.5 + i, S::Pose(9, 9, 0), pose("goal", 1, 0, 3, 3, ang)));
	S d(9, 8, ang, segs);
	int who = sym_conc(sym_range("segment", 0, 1));
	std::vector<S::Pose> at(2);
	at[who] = conc(pose("pose", 1, 0, 2, 2, ang));
	at[1 - who] = S::Pose(1, 2, sym_conc(sym_int("other", 0, 1)));
	int gx = sym_conc(sym_int("gripx", 0, 2)), gy = 1;
	S::State s(d, at, gx, gy);
	int left = 0;
	for (int i = 0; i < 2; i++) left += !((at[i].x == segs[i].goal.x) & (at[i].y == segs[i].goal.y) & (at[i].rot == segs[i].goal.rot));
	sym_assert(s.nleft == (unsigned) left && d.isgoal(s) == !left, "the number of segments out of place");
	int k = sym_conc(sym_range("op", 0, 9)), dx = 0, dy = 0, dr = 0;
	if (k == 0) dr = 1; else if (k == 1) dr = -1; else { int j = k - 2; j += j >= 4; dx = j % 3 - 1; dy = j / 3 - 1; }
	Op o = dr ? Op(Op::Rotate, who, dr, 0) : Op(Op::Move, who, dx, dy);
	S::Edge e(d, s, o);
	S::Pose q = at[who];
	q.x += dx; q.y += dy; q.rot = (q.rot + dr + ang) % ang;
	sym_assert(e.state.poses[who] == q && e.state.poses[1 - who] == at[1 - who], "an operator moves its segment as it says");
	sym_assert(e.state.x == q.x && e.state.y == q.y, "the gripper goes along");
	int px = at[who].x, py = at[who].y;
	double reach = sqrt((double) ((gx - px) * (gx - px) + (gy - py) * (gy - py)));
	sym_assert(close(e.cost, reach + (dx && dy ? sqrt(2.0) : 1)), "the cost of an operator");
	int left2 = 0;
	for (int i = 0; i < 2; i++) left2 += !((e.state.poses[i].x == segs[i].goal.x) & (e.state.poses[i].y == segs[i].goal.y) & (e.state.poses[i].rot == segs[i].goal.rot));
	sym_assert(e.state.nleft == (unsigned) left2 && d.isgoal(e.state) == !left2, "the number of segments out of place");
	S::State fresh(d, e.state.poses, e.state.x, e.state.y);
	sym_assert(fresh == e.state, "a moved state is the state with those poses");
	for (int i = 0; i < 2; i++) sym_assert(close(fresh.lines[i].p0.x, e.state.lines[i].p0.x) && close(fresh.lines[i].p0.y, e.state.lines[i].p0.y) && close(fresh.lines[i].p1.x, e.state.lines[i].p1.x) && close(fresh.lines[i].p1.y, e.state.lines[i].p1.y), "lines follow the poses");
	S::Edge b(d, e.state, e.revop);
	sym_assert(b.state.poses[0] == at[0] && b.state.poses[1] == at[1] && b.state.nleft == s.nleft, "the way back leads back");
	sym_assert(close(b.cost, e.revcost) && b.revop == o, "the way back costs what was said");
	S::PackedState pk, pk2; S::State buf;
	d.pack(pk, e.state); d.pack(pk2, s);
	sym_assert(d.unpack(buf, pk) == e.state && buf.nleft == e.state.nleft, "a packed state is unpacked as it was");
	S::PackedState pk3; d.pack(pk3, b.state);
	sym_assert(pk.eq(&d, pk) && !pk.eq(&d, pk2), "packed states are equal when the states are");
	if (gx == px && gy == py) sym_assert(pk2.eq(&d, pk3) && pk2.hash(&d) == pk3.hash(&d) && b.state == s, "packed states are equal when the states are");
	sym_cover(left2 < left ? "placed" : left2 > left ? "displaced" : "moved");
#else
	int w = sym_conc(sym_int("width", 3, 5)), h = sym_conc(sym_int("height", 3, 5)), ang = 4, n = SEGS;
	S::Pose at[2]; double r[2] = { 1.25, 0.75 };
	for (int i = 0; i < n; i++) {
		at[i] = conc(pose("pose", 1, 0, w - 1, h - 1, ang));
		int rx = at[i].rot % 2 == 0, ry = !rx;	// lying or standing
		sym_assume((int) at[i].x - r[i] * rx > 0.1 && at[i].x + r[i] * rx < w - 0.1 && (int) at[i].y - r[i] * ry > 0.1 && at[i].y + r[i] * ry < h - 0.1);
	}
#if READ
	FILE *f = memfile(0);
	m_fprintf(f, "# comment\n%d %d %d\n%d\n", w, h, ang, n);
	for (int i = 0; i < n; i++) m_fprintf(f, "%s %d %d %d %d %d %d\n", i ? "0.75" : "1.25", at[i].x, at[i].y, at[i].rot, 1, 2, 3);
	S &d = *new S(f);
	sym_assert(d.width == (unsigned) w && d.height == (unsigned) h && d.nangles == 4 && d.segs.size() == (unsigned) n, "the board is as described");
	for (int i = 0; i < n; i++) sym_assert(d.segs[i].radius == r[i] && d.segs[i].start == at[i] && d.segs[i].goal == S::Pose(1, 2, 3), "the segments are as described");
#else
	std::vector<S::Seg> segs;
	for (int i = 0; i < n; i++) segs.push_back(seg(r[i], at[i], S::Pose(1, 1, 1)));
	S &d = *new S(w, h, ang, segs);
#endif
	S::State s = d.initialstate();
	int cross = 0;
	for (int i = 0; i < n; i++) sym_assert(s.poses[i] == at[i], "the start");
	if (n == 2) {	// not on top of each other to begin with
		double ddx = (double) at[0].x - at[1].x, ddy = (double) at[0].y - at[1].y;
		sym_assume(ddx * ddx + ddy * ddy > 0.5);
	}
	S::Operators ops(d, s);
	for (unsigned i = 0; i < ops.size(); i++) for (unsigned j = 0; j < i; j++) sym_assert(!(ops[i] == ops[j]), "an operator is offered once");
	for (int i = 0; i < n; i++) for (int k = 0; k < 10; k++) {
		int dx = 0, dy = 0, dr = 0;
		if (k == 0) dr = 1; else if (k == 1) dr = -1; else { int j = k - 2; j += j >= 4; dx = j % 3 - 1; dy = j / 3 - 1; }
		Op o = dr ? Op(Op::Rotate, i, dr, 0) : Op(Op::Move, i, dx, dy);
		bool offered = false;
		for (unsigned j = 0; j < ops.size(); j++) offered |= ops[j] == o;
		int x = at[i].x + dx, y = at[i].y + dy, rot = (at[i].rot + dr + 4) % 4, rx = rot % 2 == 0, ry = !rx;
		bool out = x - r[i] * rx < -0.1 || x + r[i] * rx > w + 0.1 || y - r[i] * ry < -0.1 || y + r[i] * ry > h + 0.1;
		double ex = dr ? r[i] : r[i] * rx, ey = dr ? r[i] : r[i] * ry;
		bool in = x - ex > 0.1 && x + ex < w - 0.1 && y - ey > 0.1 && y + ey < h - 0.1;
		if (out) { sym_assert(!offered, "a segment never leaves the board"); sym_cover("edge"); }
		if (n == 2) {
			const S::Pose &p = at[1 - i]; double q = r[1 - i]; int px = p.x, py = p.y, lies = p.rot % 2 == 0;
			bool hit = rx != lies && (rx ? px > x - r[i] + 0.1 && px < x + r[i] - 0.1 && y > py - q + 0.1 && y < py + q - 0.1 : x > px - q + 0.1 && x < px + q - 0.1 && py > y - r[i] + 0.1 && py < y + r[i] - 0.1);
			if (hit) { sym_assert(!offered, "a segment never ends across another"); sym_cover("blocked"); }
			double far = 1.5 + r[0] + r[1], cx = px - x, cy = py - y;
			if (cx * cx + cy * cy < far * far) continue;
		}
		if (in) { sym_assert(offered, "an operator with room is offered"); sym_cover("room"); }
	}
	(void) cross;
#endif
}
