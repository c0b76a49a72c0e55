// U06: integer helpers.
#include "utils/utils.hpp"
#include "sym.h"
unsigned int ilog2(uint32_t); unsigned long ipow(unsigned, unsigned); unsigned long fallfact(unsigned, unsigned);
extern "C" void sym_main() {
	switch (sym_conc(sym_range("which", 0, 2))) {
	case 0: {
		uint32_t v = sym_range("v", 0, 4294967295L);
		unsigned r = ilog2(v);
		sym_assert(r <= 32, "at most the number of bits");
		int ok = 1;
		for (unsigned k = 0; k <= 32; k++) ok &= (r == k) == ((k == 0 ? v == 0 : (v >> (k - 1)) == 1));
		sym_assert(ok, "the number of bits needed"); sym_cover("ilog2"); break; }
	case 1: {
		unsigned e = sym_conc(sym_range("e", 0, 64));
		// the greatest base whose power can be represented
		unsigned long top = 0;
		for (unsigned long bit = 1UL << 31; bit; bit >>= 1) {
			unsigned long w = 1; bool ov = false;
			for (unsigned i = 0; i < e; i++) ov |= __builtin_mul_overflow(w, top | bit, &w);
			if (!ov) top |= bit;
		}
		unsigned long b = sym_range("b", 0, top);
		if (e > 2) {
			if (sym_conc(sym_bool("high"))) b = top - (unsigned long) sym_conc(sym_range("below", 0, top < BASES ? top : BASES));
			else b = sym_conc(sym_range("base", 0, top < BASES ? top : BASES));
		}
		unsigned long w = 1;
		for (unsigned i = 0; i < e; i++) w *= b;
		sym_assert(ipow(b, e) == w, "the power, when it can be represented"); sym_cover("ipow"); break; }
	case 2: {
		unsigned n = sym_conc(sym_range("n", 0, 20));
		// the greatest number whose falling factorial can be represented
		unsigned long top = 0;
		for (unsigned long bit = 1UL << 31; bit; bit >>= 1) {
			unsigned long w = 1; bool ov = false;
			for (unsigned i = 0; i < n; i++) ov |= __builtin_mul_overflow(w, i <= (top | bit) ? (top | bit) - i : 0UL, &w);
			if (!ov) top |= bit;
		}
		unsigned x;
		switch (sym_conc(sym_range("part", 0, n <= 1 ? 2 : 1))) {
		case 0: x = sym_conc(sym_range("x", 0, 24)); break;
		case 1: x = top - (unsigned long) sym_conc(sym_range("below", 0, top < BASES ? top : BASES)); break;
		default: {
			x = sym_range("x", 2, top);
			unsigned long w = 1;
			for (unsigned i = 0; i < n; i++) w *= x - i;
			sym_assert(fallfact(x, n) == w, "x (x-1) ... (x-n+1)"); return; }
		}
		unsigned long w = 1; bool ov = false;
		for (unsigned i = 0; i < n; i++) ov |= __builtin_mul_overflow(w, x - i, &w);
		sym_assume(!ov);
		sym_assert(fallfact(x, n) == w, "x (x-1) ... (x-n+1)"); sym_cover("fallfact"); break; }
	}
}
