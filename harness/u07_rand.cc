// U07: random numbers and hashing.  KIND 0: integers, 1: reproducible, 2: hash.
#include "utils/utils.hpp"
#include "sym.h"
#include <cstring>
#include <new>
// the inverse of one step of the generator
static uint64_t inv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 7; i++) x *= 2 - a * x; return x; }
static uint64_t unshr(uint64_t y, int k) { uint64_t x = y; for (int i = 0; i < 64; i++) x = y ^ (x >> k); return x; }
static uint64_t unshl(uint64_t y, int k) { uint64_t x = y; for (int i = 0; i < 64; i++) x = y ^ (x << k); return x; }
static uint64_t back(uint64_t o) { o *= inv(2685821657736338717ULL); o = unshr(o, 4); o = unshl(o, 35); return unshr(o, 21); }
extern "C" void sym_main() {
#if KIND == 3
	// seeds from which the first draw is one of the smallest or largest outputs of the generator (as it is at the time of writing: others are left out)
	int k = sym_conc(sym_range("output", 0, 19));
	uint64_t o = k < 10 ? ~(uint64_t) (k * k * k * 2) : (uint64_t) 1 << (6 * (k - 10));
	Rand r(back(back(o)) ^ 4101842887655102017ULL), same(r);
	if (same.bits() != o) { sym_cover("integer"); return; }
	static const long ws[] = { 1, 5, 999, 65535, 4294967295L, 1L << 40, (1L << 62) };
	long w = ws[sym_conc(sym_range("width", 0, sizeof ws / sizeof *ws - 1))];
	long lo = sym_range("min", (-9223372036854775807L-1) / 2, 9223372036854775807L / 2);
	long v = r.integer(lo, lo + w);
	sym_assert((unsigned long) v - (unsigned long) lo <= (unsigned long) w, "within the range");
	sym_cover("integer");
#elif KIND == 0
	Rand r(sym_range("seed", (-9223372036854775807L-1), 9223372036854775807L));
	long lo = sym_range("min", (-9223372036854775807L-1) / 2, 9223372036854775807L / 2);
#ifdef WIDTHS
	static const long ws[] = { WIDTHS };
	long w = ws[sym_conc(sym_range("width", 0, sizeof ws / sizeof *ws - 1))];
#else
	long w = sym_conc(sym_range("width", 0, MAXW));
#endif
	for (int i = 0; i < 2; i++) {
		long v = r.integer(lo, lo + w);
		sym_assert((unsigned long) v - (unsigned long) lo <= (unsigned long) w, "within the range");
	}
	sym_cover("integer");
#elif KIND == 1
	uint64_t seed = sym_range("seed", (-9223372036854775807L-1), 9223372036854775807L);
	Rand a(seed), b(seed);
	sym_assert(a.seed() == seed, "the seed is kept");
	for (int i = 0; i < 3; i++) {
		uint64_t x = a.bits(), y = b.bits();
		sym_assert(x == y, "equal seeds give equal sequences");
	}
	sym_assert(a.integer(-5, 1000) == b.integer(-5, 1000), "equal seeds give equal integers");
	sym_cover("same");
#else
	// the same bytes at every alignment, with other bytes before and after
	int n = sym_conc(sym_range("length", 0, LEN));
	unsigned char by[LEN + 1]; for (int i = 0; i < n; i++) by[i] = sym_range("byte", 0, 255);
	unsigned long h0 = 0;
	for (int al = 0; al < 4; al++) {
		unsigned char *b = (unsigned char*) ::operator new(LEN + 16);
		memset(b, 17 * al + 3, LEN + 16);
		memcpy(b + 4 + al, by, n);
		unsigned long h = hashbytes(b + 4 + al, n);
		if (al == 0) h0 = h; else sym_assert(h == h0, "the hash depends on the bytes, not on their address or surroundings");
		for (int i = 0; i < n; i++) sym_assert(b[4 + al + i] == by[i], "the bytes are left alone");
	}
	sym_cover("hash");
#endif
}
