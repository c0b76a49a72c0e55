// T07: the k-d tree against a list of its points.
#include <algorithm>
#include "structs/kdtree.hpp"
#include "sym.h"
typedef Kdtree<KD, int> T;
static int pt[NP][KD];
extern "C" void sym_main() {
	T &t = *new T;
	int n = sym_conc(sym_range("points", 0, NP));
	for (int i = 0; i < n; i++) {
		double p[KD];
		for (int k = 0; k < KD; k++) { pt[i][k] = sym_int("coord", 0, GRID); p[k] = pt[i][k]; }
		t.insert(p, i);
		for (int k = 0; k < KD; k++) p[k] = -77;	// the tree keeps its own copy
	}
	sym_assert((int) t.size() == n, "the number of points");
	sym_assert((int) t.depth() <= n && (t.depth() > 0) == (n > 0), "the depth");
	bool seen[NP + 1] = {}; int m = 0;
	for (T::iterator it = t.begin(); it != t.end(); ++it) {
		sym_assert(m++ < n, "an iteration ends");
		int d = (*it)->data;
		sym_assert(d >= 0 && d < n && !seen[d], "an iteration gives each point once"); seen[d] = true;
		for (int k = 0; k < KD; k++) sym_assert((*it)->point[k] == (double) pt[d][k], "with its coordinates");
	}
	sym_assert(m == n, "an iteration gives every point");
	for (int q = 0; q < QUERIES; q++) {
		double p[KD]; int c[KD];
		for (int k = 0; k < KD; k++) { c[k] = sym_int("query", -1, GRID + 1); p[k] = c[k]; }
		const T::N *r = t.nearest(p);
		sym_assert((r != 0) == (n > 0), "a nearest point exactly when there are points");
		if (!r) { sym_cover("empty"); continue; }
		int d = r->data;
		sym_assert(d >= 0 && d < n, "a point of the tree");
		int best = 0;
		for (int k = 0; k < KD; k++) { int x = c[k] - pt[d][k]; best += x * x; sym_assert(r->point[k] == (double) pt[d][k], "with its coordinates"); }
		int ok = 1;
		for (int i = 0; i < n; i++) { int s = 0; for (int k = 0; k < KD; k++) { int x = c[k] - pt[i][k]; s += x * x; } ok &= best <= s; }
		sym_assert(ok, "no point is nearer");
		sym_cover("nearest");
	}
	delete &t;
}
