// U02: ranks against the lexicographic number of the arrangement.
#include "utils/utils.hpp"
#include "sym.h"
extern "C" void sym_main() {
	unsigned p[2][NT]; unsigned long r[2], want[2];
	unsigned long count = 1;
	for (int i = 0; i < NT; i++) count *= SZ - i;
	Ranker rk(SZ, NT);
	for (int k = 0; k < PAIR + 1; k++) {
		for (int i = 0; i < NT; i++) {
			p[k][i] = sym_range("tile", 0, SZ - 1);
			for (int j = 0; j < i; j++) sym_assume(p[k][i] != p[k][j]);
		}
		unsigned q[NT]; for (int i = 0; i < NT; i++) q[i] = p[k][i];
		r[k] = rk.rank(q);
		for (int i = 0; i < NT; i++) sym_assert(q[i] == p[k][i], "the arrangement is left alone");
		// the number of arrangements that come before
		want[k] = 0;
		for (int i = 0; i < NT; i++) {
			unsigned long c = p[k][i];
			for (int j = 0; j < i; j++) c -= p[k][j] < p[k][i];
			want[k] = want[k] * (SZ - i) + c;
		}
		sym_assert(r[k] < count, "ranks are below the number of arrangements");
		sym_assert(r[k] == want[k], "the rank is the number of lexicographically smaller arrangements");
	}
#if PAIR
	int lt = 0, eq = 1;
	for (int i = 0; i < NT; i++) { lt |= eq & (p[0][i] < p[1][i]); eq &= p[0][i] == p[1][i]; }
	sym_assert((r[0] < r[1]) == lt && (r[0] == r[1]) == eq, "ranks are ordered as the arrangements are");
#endif
	if (NT == SZ) { Ranker full(SZ); sym_assert(full.rank(p[0]) == r[0], "the short constructor ranks all tiles"); }
	sym_cover("ranked");
}
