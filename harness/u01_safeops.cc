// U01: checked arithmetic against the mathematical result.
#include <cstddef>
#include "utils/safeops.hpp"
#include "sym.h"
#include <limits>
typedef TYPE N;
typedef std::numeric_limits<N> L;
extern "C" void sym_main() {
	// an unsigned long is taken as the bits of a long
	N a = (N) sym_range("a", sizeof(N) == 8 ? std::numeric_limits<long>::min() : (long) L::min(), sizeof(N) == 8 ? std::numeric_limits<long>::max() : (long) L::max());
	N b = (N) sym_range("b", BLO, BHI);
#if SMALL	// multiplication of wide operands is hard for the solver: one of them is small and enumerated
	b = (N) sym_conc((long) b);
#if NEAR
	{	// the other operand: close to the ends of the range or to the greatest and least factor
		long base = 0, q = b == 0 ? 1 : (long) b;
		switch (sym_conc(sym_range("base", 0, 4))) {
		case 1: base = L::min(); break;
		case 2: base = L::max(); break;
		case 3: base = q == -1 ? -L::max() : L::min() / q; break;
		case 4: base = L::max() / q; break;
		}
		a = (N) ((unsigned long) base + (unsigned long) sym_conc(sym_range("delta", -6, 6)));
	}
#endif
	if (sym_conc(sym_bool("swap"))) { N t = a; a = b; b = t; }
#endif
	bool under, over; N want;
	long op = sym_conc(sym_range("op", 0, OPS - 1));
	N got = 0; int threw = 0, kind = 0;
	try {
		switch (op) {
		case 0: got = safe::add(a, b); break;
		case 1: got = safe::sub(a, b); break;
		case 2: got = safe::mul(a, b); break;
		case 3: got = safe::div(a, b); break;
		}
	} catch (const safe::BadFlow<N> &e) {
		threw = 1; kind = e.over;
		sym_assert(e.a == a && e.b == b && e.op[0] == "+-*/"[op], "the error names the operation and its operands");
	}
	switch (op) {
	case 0: over = __builtin_add_overflow(a, b, &want); under = over && b < 0; break;
	case 1: over = __builtin_sub_overflow(a, b, &want); under = over && b > 0; break;
	case 2: over = __builtin_mul_overflow(a, b, &want); under = over && ((a < 0) != (b < 0)); break;
	case 3: over = b == 0 || (L::is_signed && a == L::min() && b == (N) -1); under = false; want = over ? 0 : a / b; break;
	}
	sym_assert((over != 0) == threw, "an error exactly when the result cannot be represented");
	if (!threw) sym_assert(got == want, "the result is exact");
	else sym_assert(kind == !under, "the error says overflow or underflow");
	if (op == 2) sym_assert(safe::can_mul(a, b) == !threw, "can_mul says whether a product can be represented");
	sym_cover(op == 0 ? threw ? "add-error" : "add" : op == 1 ? threw ? "sub-error" : "sub" : op == 2 ? threw ? "mul-error" : "mul" : threw ? "div-error" : "div");
}
