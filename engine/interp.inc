// Interpreter loop, floating point, calls, builtins.  Included by engine.cc.

// ---------------------------------------------------------------- floating point
static inline double d64(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 u64d(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline double dbl(u64 v, unsigned w) { if (w == 64) return d64(v); u32 x = v; float f; memcpy(&f, &x, 4); return f; }
static inline u64 undbl(double d, unsigned w) { if (w == 64) return u64d(d); float f = d; u32 x; memcpy(&x, &f, 4); return x; }

struct Fx { Expr *n; int k; };
static const i64 LIM64 = 1ll << 53, LIM32 = 1 << 24;
static bool tofix(const Val &v, unsigned w, Fx &f) {
	if (v.e) {
		if (v.e->op != E_FIX) return false;
		f.n = v.e->k[0]; f.k = v.e->aux; return true;
	}
	double d = dbl(v.v, w);
	if (!std::isfinite(d)) return false;
	if (d == 0) { f.n = X.con(0, 64); f.k = 0; return true; }
	int e; double m = frexp(d, &e);	// d = m * 2^e, .5<=|m|<1
	i64 n = (i64) ldexp(m, 53); e -= 53;
	while (!(n & 1)) { n /= 2; e++; }
	if (e > 0) { if (e > 40) return false; i128 x = (i128) n << e; if (x > LIM64 || x < -LIM64) return false; f.n = X.con((u64) (i64) x, 64); f.k = 0; return true; }
	if (-e > 40) return false;
	f.n = X.con((u64) n, 64); f.k = -e;
	return true;
}
static bool scaleup(Fx &f, int k) {
	if (f.k == k) return true;
	int d = k - f.k;
	if (d > 50) return false;
	i128 lo = (i128) f.n->slo << d, hi = (i128) f.n->shi << d;
	if (lo < -LIM64 || hi > LIM64) return false;
	f.n = X.mul(f.n, X.con(1ull << d, 64)); f.k = k;
	return true;
}
static bool alignfix(Fx &a, Fx &b) { int k = std::max(a.k, b.k); return scaleup(a, k) && scaleup(b, k); }
static bool inlim(Expr *n, unsigned w) { i64 L = w == 64 ? LIM64 : LIM32; return n->slo >= -L && n->shi <= L; }
static Val mkfix(Expr *n, int k, unsigned w) {
	if (n->op == E_CONST) return C(undbl(ldexp((double) (i64) n->c, -k), w));
	while (k > 0 && n->op == E_MUL && X.isc(n->k[1]) && !(n->k[1]->c & 1)) { n = X.mul(n->k[0], X.con((u64) ((i64) n->k[1]->c / 2), 64)); k--; }
	if (n->op == E_CONST) return C(undbl(ldexp((double) (i64) n->c, -k), w));
	return Val{0, X.fix(n, k, w)};
}
static u64 fopc(unsigned op, u64 a, u64 b, unsigned w) {
	if (w == 32) {
		float x = dbl(a, 32), y = dbl(b, 32), r;
		switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); }
		return undbl(r, 32);
	}
	double x = d64(a), y = d64(b), r;
	switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
	return u64d(r);
}
static Val fbin(unsigned op, Val a, Val b, unsigned w) {
	if (!a.e && !b.e) return C(fopc(op, a.v, b.v, w));
	// a non-FIX symbolic bit pattern (e.g. loaded from integer bytes): concretise
	if (a.e && a.e->op != E_FIX) { a = C(concretise(a.e)); }
	if (b.e && b.e->op != E_FIX) { b = C(concretise(b.e)); }
	if (!a.e && !b.e) return C(fopc(op, a.v, b.v, w));
	if (!b.e && std::isinf(dbl(b.v, w))) { if (op == Instruction::FAdd) return b; if (op == Instruction::FSub) return C(undbl(-dbl(b.v, w), w)); if (op == Instruction::FDiv) { return C(undbl(0.0, w)); } }
	if (!a.e && std::isinf(dbl(a.v, w))) { if (op == Instruction::FAdd || op == Instruction::FSub) return a; }
	Fx x, y;
	if (op == Instruction::FDiv && !b.e) {	// division by +-2^j
		double d = dbl(b.v, w); int e; double m = frexp(fabs(d), &e);
		if (m == 0.5 && tofix(a, w, x)) { int j = e - 1; Expr *n = d < 0 ? X.sub(X.con(0, 64), x.n) : x.n; if (x.k + j >= 0 && x.k + j < 60) return mkfix(n, x.k + j, w); }
	}
	if (op != Instruction::FDiv && op != Instruction::FRem && tofix(a, w, x) && tofix(b, w, y)) {
		if (op == Instruction::FMul) {
			i128 p[4] = { (i128) x.n->slo * y.n->slo, (i128) x.n->slo * y.n->shi, (i128) x.n->shi * y.n->slo, (i128) x.n->shi * y.n->shi };
			i64 L = w == 64 ? LIM64 : LIM32;
			if (*std::min_element(p, p + 4) >= -L && *std::max_element(p, p + 4) <= L && x.k + y.k < 60)
				return mkfix(X.mul(x.n, y.n), x.k + y.k, w);
		} else if (alignfix(x, y)) {
			Expr *n = op == Instruction::FAdd ? X.add(x.n, y.n) : X.sub(x.n, y.n);
			i128 lo = op == Instruction::FAdd ? (i128) x.n->slo + y.n->slo : (i128) x.n->slo - y.n->shi, hi = op == Instruction::FAdd ? (i128) x.n->shi + y.n->shi : (i128) x.n->shi - y.n->slo;
			i64 L = w == 64 ? LIM64 : LIM32;
			if (lo >= -L && hi <= L) return mkfix(n, x.k, w);
		}
	}
	return C(fopc(op, cv(a), cv(b), w));
}
static bool fcmpc(unsigned p, double x, double y) {
	bool un = std::isnan(x) || std::isnan(y);
	switch (p) {
	case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
	case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
	case CmpInst::FCMP_OEQ: return !un && x == y; case CmpInst::FCMP_UEQ: return un || x == y;
	case CmpInst::FCMP_OGT: return !un && x > y; case CmpInst::FCMP_UGT: return un || x > y;
	case CmpInst::FCMP_OGE: return !un && x >= y; case CmpInst::FCMP_UGE: return un || x >= y;
	case CmpInst::FCMP_OLT: return !un && x < y; case CmpInst::FCMP_ULT: return un || x < y;
	case CmpInst::FCMP_OLE: return !un && x <= y; case CmpInst::FCMP_ULE: return un || x <= y;
	case CmpInst::FCMP_ONE: return !un && x != y; case CmpInst::FCMP_UNE: return un || x != y;
	}
	return false;
}
static Val fcmp(unsigned p, Val a, Val b, unsigned w) {
	if (!a.e && !b.e) return C(fcmpc(p, dbl(a.v, w), dbl(b.v, w)));
	if (a.e && a.e->op != E_FIX) a = C(concretise(a.e));
	if (b.e && b.e->op != E_FIX) b = C(concretise(b.e));
	if (!a.e && !b.e) return C(fcmpc(p, dbl(a.v, w), dbl(b.v, w)));
	if (p == CmpInst::FCMP_FALSE) return C(0);
	if (p == CmpInst::FCMP_TRUE) return C(1);
	if (!a.e && b.e) { std::swap(a, b); p = CmpInst::getSwappedPredicate((CmpInst::Predicate) p); }
	if (!b.e) {
		double c = dbl(b.v, w);
		if (std::isnan(c) || std::isinf(c)) return C(fcmpc(p, 0.0, c));
		if (p == CmpInst::FCMP_ORD) return C(1);
		if (p == CmpInst::FCMP_UNO) return C(0);
		double r = ldexp(c, a.e->aux); Expr *n = a.e->k[0];
		if (fabs(r) > 9e15) return C(fcmpc(p, 0.0, r));
		auto K = [](double d) { return X.con((u64) (i64) d, 64); };
		switch (p) {
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mk(X.slt(n, K(ceil(r))));
		case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mk(X.sle(n, K(floor(r))));
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mk(X.slt(K(floor(r)), n));
		case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mk(X.sle(K(ceil(r)), n));
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return r == floor(r) ? mk(X.eq(n, K(r))) : C(0);
		case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return r == floor(r) ? mk(X.not_(X.eq(n, K(r)))) : C(1);
		}
	}
	if (p == CmpInst::FCMP_ORD) return C(1);
	if (p == CmpInst::FCMP_UNO) return C(0);
	Fx x, y; tofix(a, w, x); tofix(b, w, y);
	if (!alignfix(x, y)) return C(fcmpc(p, dbl(cv(a), w), dbl(cv(b), w)));
	switch (p) {
	case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mk(X.slt(x.n, y.n));
	case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mk(X.sle(x.n, y.n));
	case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mk(X.slt(y.n, x.n));
	case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mk(X.sle(y.n, x.n));
	case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mk(X.eq(x.n, y.n));
	default: return mk(X.not_(X.eq(x.n, y.n)));
	}
}
static Val int2fp(Val a, unsigned wi, unsigned w, bool sg) {
	if (!a.e) {
		if (sg) return C(w == 64 ? u64d((double) sextw(a.v, wi)) : undbl((float) sextw(a.v, wi), 32));
		return C(w == 64 ? u64d((double) (a.v & maskw(wi))) : undbl((float) (a.v & maskw(wi)), 32));
	}
	Expr *e = ex(a, wi);
	if (e->op != E_CONST) {
		Expr *n = sg ? X.sext(e, 64) : X.zext(e, 64);
		if (inlim(n, w)) return mkfix(n, 0, w);
	}
	return int2fp(C(concretise(e)), wi, w, sg);
}
static Val fp2int(Val a, unsigned w, unsigned wi, bool sg) {
	if (a.e && a.e->op == E_FIX) {
		Expr *n = a.e->k[0]; int k = a.e->aux;
		Expr *q = k ? X.sdiv(n, X.con(1ull << k, 64)) : n;
		bool fits = sg ? (q->slo >= sminw(wi) && q->shi <= smaxw(wi)) : (q->slo >= 0 && (u64) q->shi <= maskw(wi));
		if (fits) return mk(X.extract(q, 0, wi));
	}
	double d = dbl(cv(a), w);
	// out-of-range conversions behave as on x86-64
	if (sg) { if (wi == 64) { i64 r; if (d >= 9.3e18 || d <= -9.3e18 || std::isnan(d)) r = INT64_MIN; else r = (i64) d; return C((u64) r); }
		i64 r; if (std::isnan(d) || d > 2147483647.0 || d < -2147483648.0) r = wi <= 32 ? (wi == 32 ? INT32_MIN : 0) : INT64_MIN; else r = (i64) d; return C((u64) r & maskw(wi)); }
	u64 r; if (std::isnan(d) || d >= 1.8446744073709552e19) r = 0; else if (d < 0) r = (u64) (i64) d; else r = (u64) d;
	return C(r & maskw(wi));
}
static Val fmath1(int f, Val a, Val b, unsigned w) {
	if (a.e && a.e->op == E_FIX) {
		Expr *n = a.e->k[0]; int k = a.e->aux;
		if (f == 1 && k == 0) return a;
		if (f == 2 && k == 0) return a;
		if ((f == 3 || f == 4 || f == 5) && k == 0) return a;
		if (f == 1) return mkfix(X.ashr(n, X.con(k, 64)), 0, w);
		if (f == 2) return mkfix(X.sub(X.con(0, 64), X.ashr(X.sub(X.con(0, 64), n), X.con(k, 64))), 0, w);
		if (f == 3) return mkfix(X.sdiv(n, X.con(1ull << k, 64)), 0, w);
	}
	double x = dbl(cv(a), w), y = 0, r = 0;
	if (f == 10 || f == 14 || f == 18 || f == 21) y = dbl(cv(b), w);
	switch (f) {
	case 0: r = sqrt(x); if (w == 32) r = sqrtf((float) x); break; case 1: r = floor(x); break; case 2: r = ceil(x); break; case 3: r = trunc(x); break; case 4: r = round(x); break; case 5: r = rint(x); break;
	case 6: r = sin(x); break; case 7: r = cos(x); break; case 8: r = exp(x); break; case 9: r = log(x); break; case 10: r = pow(x, y); break; case 11: r = log10(x); break; case 12: r = log2(x); break; case 13: r = exp2(x); break;
	case 14: r = atan2(x, y); break; case 15: r = atan(x); break; case 16: r = acos(x); break; case 17: r = asin(x); break; case 18: r = fmod(x, y); break; case 19: r = tan(x); break; case 20: r = cbrt(x); break; case 21: r = hypot(x, y); break;
	case 22: r = ldexp(x, (int) cv(b)); break;
	}
	return C(undbl(r, w));
}
static Val fselect(Expr *c, Val a, Val b, unsigned w) {
	Fx x, y;
	if (!optFSelFork && tofix(a, w, x) && tofix(b, w, y) && alignfix(x, y)) return mkfix(X.ite(c, x.n, y.n), x.k, w);
	return branch(c) ? a : b;
}
static Val fneg(Val a, unsigned w) {
	if (!a.e) return C(a.v ^ (1ull << (w - 1)));
	if (a.e->op == E_FIX) return mkfix(X.sub(X.con(0, 64), a.e->k[0]), a.e->aux, w);
	return C(concretise(a.e) ^ (1ull << (w - 1)));
}
static Val ffabs(Val a, unsigned w) {
	if (!a.e) return C(a.v & maskw(w - 1));
	if (a.e->op == E_FIX) { Expr *n = a.e->k[0]; if (n->slo >= 0) return a; return mkfix(X.ite(X.slt(n, X.con(0, 64)), X.sub(X.con(0, 64), n), n), a.e->aux, w); }
	return C(concretise(a.e) & maskw(w - 1));
}

// ---------------------------------------------------------------- integer ops
static Val ibin(unsigned op, Val a, Val b, unsigned w) {
	if (!a.e && !b.e) {
		u64 x = a.v, y = b.v, m = maskw(w);
		switch (op) {
		case Instruction::Add: return C((x + y) & m); case Instruction::Sub: return C((x - y) & m); case Instruction::Mul: return C((x * y) & m);
		case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
		case Instruction::Shl: return C(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return C(y >= w ? 0 : x >> y);
		case Instruction::AShr: return C((u64) (sextw(x, w) >> std::min<u64>(y, 63)) & m);
		case Instruction::UDiv: if (!y) violation("arith", "division by zero"); return C(x / y);
		case Instruction::URem: if (!y) violation("arith", "division by zero"); return C(x % y);
		case Instruction::SDiv: case Instruction::SRem: {
			if (!y) violation("arith", "division by zero");
			i64 p = sextw(x, w), q = sextw(y, w);
			if (q == -1 && p == sminw(w) && w >= 32) violation("arith", "signed division overflow");
			if (q == -1) return C(op == Instruction::SDiv ? (-(u64) p) & m : 0);
			return C((u64) (op == Instruction::SDiv ? p / q : p % q) & m); }
		}
	}
	Expr *x = ex(a, w), *y = ex(b, w);
	switch (op) {
	case Instruction::Add: return mk(X.add(x, y)); case Instruction::Sub: return mk(X.sub(x, y)); case Instruction::Mul: return mk(X.mul(x, y));
	case Instruction::And: return mk(X.and_(x, y)); case Instruction::Or: return mk(X.or_(x, y)); case Instruction::Xor: return mk(X.xor_(x, y));
	case Instruction::Shl: return mk(X.shl(x, y)); case Instruction::LShr: return mk(X.lshr(x, y)); case Instruction::AShr: return mk(X.ashr(x, y));
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
		if (branch(X.eq(y, X.con(0, w)))) violation("arith", "division by zero");
		if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32 && y->slo <= -1 && y->shi >= -1 && x->slo == sminw(w)) {
			if (branch(X.and_(X.eq(y, X.con(~0ull, w)), X.eq(x, X.con((u64) sminw(w), w))))) violation("arith", "signed division overflow");
		}
		switch (op) { case Instruction::UDiv: return mk(X.udiv(x, y)); case Instruction::URem: return mk(X.urem(x, y)); case Instruction::SDiv: return mk(X.sdiv(x, y)); default: return mk(X.srem(x, y)); } }
	}
	engerr("ibin");
}
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
	if (!a.e && !b.e) {
		u64 x = a.v, y = b.v;
		switch (p) {
		case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y);
		case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y);
		case CmpInst::ICMP_SLT: return C(sextw(x, w) < sextw(y, w)); case CmpInst::ICMP_SLE: return C(sextw(x, w) <= sextw(y, w));
		case CmpInst::ICMP_SGT: return C(sextw(x, w) > sextw(y, w)); case CmpInst::ICMP_SGE: return C(sextw(x, w) >= sextw(y, w));
		}
	}
	Expr *x = ex(a, w), *y = ex(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return mk(X.eq(x, y)); case CmpInst::ICMP_NE: return mk(X.not_(X.eq(x, y)));
	case CmpInst::ICMP_ULT: return mk(X.ult(x, y)); case CmpInst::ICMP_ULE: return mk(X.ule(x, y)); case CmpInst::ICMP_UGT: return mk(X.ult(y, x)); case CmpInst::ICMP_UGE: return mk(X.ule(y, x));
	case CmpInst::ICMP_SLT: return mk(X.slt(x, y)); case CmpInst::ICMP_SLE: return mk(X.sle(x, y)); case CmpInst::ICMP_SGT: return mk(X.slt(y, x)); default: return mk(X.sle(y, x));
	}
}

// ---------------------------------------------------------------- symbolic addresses
struct Cands { u64 lo, hi, step; };
// Narrows the address expression to one object, forking for others; returns the candidate range.
static bool symaddr(Expr *ad, unsigned n, bool wr, Cands &c) {
	for (;;) {
		bool forced = nextdec < decs.size();
		u64 a0 = forced ? decs[nextdec].v : X.eval(ad);
		if (!addrok(a0, n)) {
			// the current model takes this path to an invalid address
			badaccess(a0, n, wr);
		}
		if (!inarena(a0)) return false;
		u64 lo = a0 & ~7ull, hi = a0 + n;
		for (int i = 0; i < 8192 && (*shp(lo - 8) & 0xf) == 8; i++) lo -= 8;
		hi = (a0 | 7) + 1;
		if ((*shp(a0) & 0xf) == 8) { for (int i = 0; i < 8192 && (*shp(hi) & 0xf) == 8; i++) hi += 8; hi += *shp(hi) & 0xf; }
		else hi = (a0 & ~7ull) + (*shp(a0) & 0xf);
		Expr *in = X.and_(X.ule(X.con(lo, 64), ad), X.ule(ad, X.con(hi - n, 64)));
		if (!X.isc(in)) {
			if (forced) { if (!decs[nextdec++].t) continue; }
			else if (!decide(in, a0)) continue;
		}
		c.lo = std::max(lo, ad->ulo); c.hi = std::min(hi - n, ad->uhi);
		c.step = 1;
		Expr *v = ad;
		if (v->op == E_ADD && X.isc(v->k[1])) v = v->k[0];
		if (v->tz > 0 && v->tz < 40) c.step = 1ull << v->tz;
		// align the ends with a0
		c.lo = a0 - (a0 - c.lo) / c.step * c.step;
		c.hi = a0 + (c.hi - a0) / c.step * c.step;
		return true;
	}
}
static Val symload(Expr *ad, unsigned n) {
	INC(symaddr, 1);
	Cands c;
	if (ad->op != E_CONST && symaddr(ad, n, false, c) && (c.hi - c.lo) / c.step < (u64) optIteMax) {
		// group equal values
		Expr *r = nullptr; bool bad = false;
		std::vector<std::pair<Expr*, Expr*>> groups;	// value, condition
		for (u64 a = c.lo; a <= c.hi; a += c.step) {
			if (!addrok(a, n)) continue;
			Val v = loadbytes(a, n);
			if (v.e && v.e->op == E_FIX) { bad = true; break; }
			Expr *ve = v.e ? v.e : X.con(v.v, n * 8);
			Expr *is = X.eq(ad, X.con(a, 64));
			if (X.isc(is, 0)) continue;
			bool f = false;
			for (auto &g : groups) if (g.first == ve) { g.second = X.or_(g.second, is); f = true; break; }
			if (!f) groups.push_back({ve, is});
		}
		if (!bad && !groups.empty()) {
			r = groups.back().first;
			for (int i = (int) groups.size() - 2; i >= 0; i--) r = X.ite(groups[i].second, groups[i].first, r);
			return mk(r);
		}
	}
	u64 a = concretise(ad);
	if (!addrok(a, n)) badaccess(a, n, false);
	return loadbytes(a, n);
}
static void symstore(Expr *ad, unsigned n, Val v) {
	INC(symaddr, 1);
	Cands c;
	if (ad->op != E_CONST && symaddr(ad, n, true, c) && (c.hi - c.lo) / c.step < (u64) optIteMax && !(v.e && v.e->op == E_FIX)) {
		bool bad = false;
		std::vector<std::pair<u64, Expr*>> upd;
		for (u64 a = c.lo; a <= c.hi; a += c.step) {
			if (!addrok(a, n)) continue;
			Expr *is = X.eq(ad, X.con(a, 64));
			if (X.isc(is, 0)) continue;
			Val o = loadbytes(a, n);
			if (o.e && o.e->op == E_FIX) { bad = true; break; }
			upd.push_back({a, X.ite(is, v.e ? v.e : X.con(v.v, n * 8), o.e ? o.e : X.con(o.v, n * 8))});
		}
		if (!bad) { for (auto &u : upd) storebytes(u.first, n, mk(u.second)); return; }
	}
	u64 a = concretise(ad);
	if (!addrok(a, n)) badaccess(a, n, true);
	storebytes(a, n, v);
}
static Val doload(Val p, unsigned n, unsigned bits) {
	Val v;
	if (p.e) v = symload(p.e, n);
	else { if (!addrok(p.v, n)) badaccess(p.v, n, false); v = loadbytes(p.v, n); }
	if (v.e && v.v == 1 && v.e->op == E_FIX) {	// partial read of a symbolic double
		concretise(v.e); engerr("partial read of a symbolic double");
	}
	if (bits < n * 8) { if (v.e) v = mk(X.extract(ex(v, n * 8), 0, bits)); else v.v &= maskw(bits); }
	return v;
}
static void dostore(Val p, unsigned n, unsigned bits, Val v) {
	if (v.e && bits < n * 8) v = mk(X.zext(v.e, n * 8));
	if (p.e) { symstore(p.e, n, v); return; }
	if (!addrok(p.v, n)) badaccess(p.v, n, true);
	if (v.e && !inarena(p.v)) v = C(concretise(v.e));
	storebytes(p.v, n, v);
}
static unsigned nbytes(unsigned bits) { return (bits + 7) / 8; }
// concretises all symbolic bytes in a range
static void concmem(u64 a, u64 n) {
	if (!anysym(a, n)) return;
	for (u64 i = a & ~7ull; i < a + n; i += 8) {
		if (!inarena(i) || !(*shp(i) & 0x80)) continue;
		for (int j = 0; j < 8; j++) {
			if (!(*shp(i) & 0x80)) break;
			SymGran &s = symmem[(i - ABASE) >> 3];
			Expr *e = s.e[j]; if (!e) continue;
			unsigned bi = s.i[j];
			u64 v = concretise(e);
			logmem((void*) (i + j), 1);
			*(u8*) (i + j) = v >> (8 * bi);
			loggran((i - ABASE) >> 3);
			symmem[(i - ABASE) >> 3].e[j] = nullptr;
		}
		loggran((i - ABASE) >> 3);
		symmem.erase((i - ABASE) >> 3); *shp(i) &= 0x7f;
	}
}

// ---------------------------------------------------------------- frames, exceptions
static std::vector<std::pair<u64, u64>> caught;	// exception object, type info
static std::unordered_map<u64, u64> exctype; static u64 curexc, curtype;
static std::map<u64, int> typeids;
static int typeidfor(u64 t) { auto it = typeids.find(t); if (it != typeids.end()) return it->second; int n = typeids.size() + 1; typeids[t] = n; return n; }
static u64 ticks = 1000000000ull;
static int exitmode = 0;

static inline Val &G(Frame &f, i32 o) { return o >= 0 ? f.r[o] : f.fn->K[~o]; }
static void takeedge(Frame &f, Edge &e) {
	if (!e.moves.empty()) {
		if (!e.overlap) for (auto &m : e.moves) f.r[m.first] = G(f, m.second);
		else {
			Val tmp[64]; std::vector<Val> big; Val *t = tmp;
			if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
			size_t i = 0;
			for (auto &m : e.moves) t[i++] = G(f, m.second);
			i = 0;
			for (auto &m : e.moves) f.r[m.first] = t[i++];
		}
	}
	f.pc = e.pc;
}
static void popframe() {
	Frame &f = stack_.back();
	if (stacktop != f.stackmark) {
		dropsym(f.stackmark, stacktop - f.stackmark);
		u64 a = f.stackmark & ~7ull;
		logmem(shp(a), (stacktop - a) / 8 + 1);
		memset(shp(a), 0, (stacktop - a) / 8 + 1);
		stacktop = f.stackmark;
	}
	regtop = f.r;
	stack_.pop_back();
}
static u64 salloc(u64 n, u64 align) {
	if (align < 16) align = 16;
	u64 a = (stacktop + align - 1) & ~(align - 1);
	stacktop = a + ((n + 7) & ~7ull) + 32;
	if (stacktop > HEAP0) violation("hang", "stack overflow");
	setaddr(a, n, true);
	if (n <= 65536) { if (a < protectedstack) logmem((void*) a, n); memset((void*) a, 0xAB, n); }
	return a;
}
static void pushframe(FnCode *fc, Inst *ci) {
	compile(fc);
	sh->fn[fc->id] = 1;
	if (stack_.size() > 20000) violation("hang", "call stack deeper than 20000 frames");
	Frame f; f.fn = fc; f.pc = 0; f.r = regtop; f.stackmark = stacktop; f.callinst = ci; f.va = 0;
	regtop += fc->nregs;
	stack_.push_back(f);
}
// Propagates the exception (curexc, curtype) from the call being executed by the top frame.
static void unwind() {
	while (!stack_.empty()) {
		Frame &f = stack_.back();
		Inst &in = f.fn->code[f.pc - 1];
		if (in.op == I_CALL) {
			CallInfo *ci = (CallInfo*) in.p;
			if (ci->isinvoke) {
				Inst &pad = f.fn->code[ci->unwind.pc];
				if (pad.op != I_LANDINGPAD) engerr("no landing pad");
				PadInfo *pi = (PadInfo*) pad.p;
				int sel = -1;
				for (i32 c : pi->catches) {
					if (c == INT32_MIN) continue;
					u64 t = G(f, c).v;
					if (t == 0) { sel = typeidfor(0); break; }
					const std::type_info *ct = (const std::type_info*) t, *tt = (const std::type_info*) curtype;
					void *obj = (void*) curexc;
					if (t == curtype || ct->__do_catch(tt, &obj, 1)) { sel = typeidfor(t); break; }
				}
				if (sel < 0 && pi->cleanup) sel = 0;
				if (sel >= 0) {
					takeedge(f, ci->unwind);
					f.r[pad.dst] = C(curexc); f.r[pad.dst + 1] = C(sel);
					f.pc++;
					return;
				}
			}
		}
		popframe();
	}
	std::string tn = curtype ? demangle(std::string("_Z") + "TI") : "";
	const char *nm = curtype ? ((const std::type_info*) curtype)->name() : "?";
	stack_.clear();
	violation("exception", std::string("uncaught exception of type ") + nm);
}

static const std::set<std::string> &whitelist() {
	static const std::set<std::string> w = {
		"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__errno_location", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc",
		"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt14overflow_errorC1EPKc", "_ZNSt15underflow_errorC1EPKc", "_ZNSt14overflow_errorD1Ev", "_ZNSt15underflow_errorD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNKSt13runtime_error4whatEv", "_ZNSt11range_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc",
		"_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv", "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", "_ZNSt8__detail15_List_node_base4swapERS0_S1_", "_ZNSt8__detail15_List_node_base10_M_reverseEv",
		"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", "_ZNSt8__detail20_Prime_rehash_policyC1Ef", "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", "_ZSt11_Hash_bytesPKvmm",
		"fopen", "fclose", "fflush", "fprintf", "vfprintf", "printf", "puts", "putchar", "putc", "fputc", "fputs", "fwrite", "snprintf", "vsnprintf", "sprintf", "vsprintf", "vprintf", "perror", "strerror", "fmemopen", "open_memstream", "rewind", "fseek", "ftell", "fread", "fgets", "fgetc", "getc", "ungetc", "feof", "ferror", "fscanf", "sscanf", "vfscanf", "vsscanf", "__isoc99_fscanf", "__isoc99_sscanf", "__isoc23_fscanf", "__isoc23_sscanf", "getline", "_IO_getc", "_IO_putc",
		"strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strrchr", "strstr", "memchr", "memcmp", "bcmp", "strdup", "strtol", "strtoul", "strtod", "strtoll", "strtoull", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoull", "__isoc23_strtoll", "atoi", "strtok", "isspace", "isdigit", "isalpha", "toupper", "tolower", "isprint", "isalnum",
		"frexp", "modf", "getpid", "getenv", "gethostname", "getcwd", "isatty", "fileno", "signal", "setrlimit", "getrlimit", "alarm", "localtime", "strftime", "ctime", "asctime", "localtime_r", "sysconf", "uname", "lround", "llround", "lrint", "isinf", "isnan", "__isinf", "__isnan", "__finite", "rand", "srand", "sigaction", "sigemptyset", "pthread_self", "__cxa_get_exception_ptr", "mkdir", "stat", "unlink", "rmdir", "access", "opendir", "readdir", "closedir", "open", "close", "read", "write", "lseek", "fstat", "umask", "getuid", "realpath", "readlink", "rename", "remove", "mkdtemp", "lstat",
	};
	return w;
}

typedef u64 (*NF)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64);
typedef double (*NFD)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64);
struct U2 { u64 a, b; };
typedef u64 (*NFV)(u64, ...);

static void impure();
static void nativecall(Frame &f, Inst &in, CallInfo *ci) {
	void *p = ci->native;
	if (!p) {
		if (!whitelist().count(ci->name)) engerr("external function %s (%s) is not modelled", ci->name.c_str(), demangle(ci->name).c_str());
		p = ci->native = dlsym(RTLD_DEFAULT, ci->name.c_str());
		if (!p) engerr("unresolved external function %s", ci->name.c_str());
	}
	const std::string &nm = ci->name;
	// output to the terminal is dropped
	auto isout = [&](unsigned i) { u64 v = G(f, ci->args[i]).v; return v == (u64) stdout || v == (u64) stderr; };
	bool drop = false;
	if (nm == "printf" || nm == "puts" || nm == "putchar" || nm == "vprintf" || nm == "perror") drop = true;
	else if ((nm == "fprintf" || nm == "vfprintf" || nm == "fflush") && isout(0)) drop = true;
	else if ((nm == "fputc" || nm == "putc" || nm == "fputs" || nm == "_IO_putc") && isout(1)) drop = true;
	else if (nm == "fwrite" && isout(3)) drop = true;
	if (drop) { if (in.dst >= 0) f.r[in.dst] = C(nm == "fwrite" ? cv(G(f, ci->args[2])) : 1); return; }
	if (nm == "vfprintf" || nm == "vsnprintf" || nm == "vsprintf") {
		u64 va = G(f, ci->args[nm == "vsnprintf" ? 3 : 2]).v;
		if (inarena(va) && addrok(va, 24)) { u64 area = rawload(va + 8, 8); u64 n = 0; while (n < 256 && addrok(area + n, 8)) n += 8; concmem(area, n); }
	}
	u64 ia[6] = {0}; double fa[8] = {0}; u64 st[8] = {0}; int ni = 0, nf = 0, ns = 0;
	for (size_t i = 0; i < ci->args.size(); i++) {
		Val v = G(f, ci->args[i]); u64 x = cv(v);
		if (ci->argfp[i] == 2) engerr("long double argument to %s", nm.c_str());
		if (ci->argfp[i] == 1) { double d; if (ci->argbits[i] == 32) { memset(&d, 0, 8); memcpy(&d, &x, 4); } else d = d64(x);
			if (nf < 8) fa[nf++] = d; else { if (ns >= 8) engerr("too many arguments"); st[ns++] = x; } }
		else if (ni < 6) ia[ni++] = x;
		else { if (ns >= 8) engerr("too many arguments"); st[ns++] = x; }
	}
	static const std::set<std::string> purefns = {
		"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__errno_location", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc", "_ZNKSt13runtime_error4whatEv",
		"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
		"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", "_ZSt11_Hash_bytesPKvmm", "_ZNSt8__detail20_Prime_rehash_policyC1Ef",
		"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt14overflow_errorC1EPKc", "_ZNSt15underflow_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc",
		"snprintf", "vsnprintf", "strerror", "strtod", "getpid", "getenv", "frexp", "lround", "llround", "lrint", "isinf", "isnan", "__isinf", "__isnan", "__finite", "sysconf", "pthread_self", "getuid", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt14overflow_errorD1Ev", "_ZNSt15underflow_errorD1Ev", "_ZNSt9exceptionD2Ev" };
	if (ci->ispure < 0) ci->ispure = purefns.count(nm);
	if (!ci->ispure) impure();
	else if (nm.compare(0, 5, "_ZNSt") == 0 && nm.find("errorD") != std::string::npos) { if (in.dst >= 0) f.r[in.dst] = C(0); return; }	// leave the text of exceptions to leak
	else if (inarena(ia[0]) && (nm.compare(0, 4, "_ZNS") == 0 || nm.compare(0, 4, "_ZNK") == 0)) { u64 k = 16; while (k && !addrok(ia[0], k)) k -= 8; if (k) logmem((void*) ia[0], k); }
	if ((nm == "snprintf" || nm == "vsnprintf") && inarena(ia[0]) && ia[1]) { u64 k = std::min<u64>(ia[1], 1 << 16); logmem((void*) ia[0], k); }
	// clear shadow of memory that is about to be overwritten
	if ((nm == "snprintf" || nm == "vsnprintf" || nm == "fgets") && inarena(ia[0])) { dropsym(ia[0], std::min<u64>(ia[1], 1 << 16)); }
	if (nm == "fread" && inarena(ia[0])) dropsym(ia[0], ia[1] * ia[2]);
	if ((nm == "strlen" || nm == "strcpy" || nm == "fputs" || nm == "fopen" || nm == "opendir" || nm == "strdup") && inarena(ia[0])) { for (u64 a = ia[0]; ; a += 1) { if (!addrok(a, 1)) break; concmem(a, 1); if (!*(char*) a) break; } }
	if ((nm == "fwrite" || nm == "write")) { u64 a = nm == "write" ? ia[1] : ia[0], n = nm == "write" ? ia[2] : ia[1] * ia[2]; if (inarena(a)) concmem(a, n); }
	errno = 0;
	if (ci->fret) {
		double r = ((NFD) p)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], fa[0], fa[1], fa[2], fa[3], fa[4], fa[5], fa[6], fa[7], st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7]);
		if (in.dst >= 0) { if (ci->retbits == 32) { u32 x; memcpy(&x, &r, 4); f.r[in.dst] = C(x); } else f.r[in.dst] = C(u64d(r)); }
		return;
	}
	// set al for variadic callees by calling through a variadic prototype
	typedef U2 (*NVP)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64, ...);
	U2 r = ((NVP) p)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], fa[0], fa[1], fa[2], fa[3], fa[4], fa[5], fa[6], fa[7], st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7]);
	if (in.dst >= 0) { f.r[in.dst] = C(r.a & maskw(ci->retbits)); if (ci->ret.size() > 1) f.r[in.dst + 1] = C(r.b); }
}

static void memcopy(u64 d, u64 s, u64 n) {
	if (!n) return;
	if (!addrok(s, n)) badaccess(s, n, false);
	if (!addrok(d, n)) badaccess(d, n, true);
	if (inarena(d)) logmem((void*) d, n);
	if (!anysym(s, n)) { if (anysym(d, n)) dropsym(d, n); memmove((void*) d, (void*) s, n); return; }
	if (!inarena(d)) { concmem(s, n); memmove((void*) d, (void*) s, n); return; }
	struct B { Expr *e; u8 i; u8 c; };
	std::vector<B> t(n);
	for (u64 i = 0; i < n; i++) {
		t[i].e = nullptr; t[i].c = *(u8*) (s + i);
		if (*shp(s + i) & 0x80) { SymGran &g = symmem[(s + i - ABASE) >> 3]; t[i].e = g.e[(s + i) & 7]; t[i].i = g.i[(s + i) & 7]; }
	}
	if (anysym(d, n)) dropsym(d, n);
	for (u64 i = 0; i < n; i++) {
		if (!t[i].e) { *(u8*) (d + i) = t[i].c; continue; }
		u64 g = (d + i - ABASE) >> 3;
		if (i == 0 || ((d + i) & 7) == 0 || !t[i - 1].e) loggran(g);
		if (!(shadow[g] & 0x80)) { SymGran z; memset(&z, 0, sizeof z); symmem[g] = z; shadow[g] |= 0x80; }
		SymGran &sg = symmem[g]; sg.e[(d + i) & 7] = t[i].e; sg.i[(d + i) & 7] = t[i].i;
	}
}
static void memsetv(u64 d, Val c, u64 n) {
	if (!n) return;
	if (!addrok(d, n)) badaccess(d, n, true);
	if (c.e) { for (u64 i = 0; i < n; i++) storebytes(d + i, 1, c); return; }
	if (anysym(d, n)) dropsym(d, n);
	if (inarena(d) && (n < (1 << 20) || haschoices())) logmem((void*) d, n);
	if ((u8) c.v == 0 && n >= (1 << 20) && inarena(d) && !haschoices()) {
		u64 p = (d + 4095) & ~4095ull, q = (d + n) & ~4095ull;
		memset((void*) d, 0, p - d); madvise((void*) p, q - p, MADV_DONTNEED); memset((void*) q, 0, d + n - q);
		return;
	}
	memset((void*) d, (u8) c.v, n);
}
static std::string cstr(u64 a) {
	std::string s; if (!a) return "(null)";
	for (int i = 0; i < 400; i++) { if (!addrok(a + i, 1)) break; char c = *(char*) (a + i); if (!c) break; s += c; }
	return s;
}
static Expr *boolexpr(Val v, unsigned w) { Expr *e = ex(v, w); return w == 1 ? e : X.not_(X.eq(e, X.con(0, w))); }

// returns true if control was transferred (exception)
static bool builtin(Frame &f, Inst &in, CallInfo *ci) {
	auto A = [&](unsigned i) -> Val { return G(f, ci->args[i]); };
	auto R = [&](Val v) { if (in.dst >= 0) f.r[in.dst] = v; };
	unsigned w = in.w;
	switch (ci->builtin) {
	case B_IGNORE: if (in.dst >= 0) R(C(0)); return false;
	case B_MEMCPY: { Val d = A(0), s = A(1), n = A(2); u64 dd = cv(d), ss = cv(s), nn = cv(n); memcopy(dd, ss, nn); if (in.sub >= 2) R(C(dd)); return false; }
	case B_MEMSET: { Val d = A(0), c = A(1), n = A(2); if (c.e) c = mk(X.extract(c.e, 0, 8)); u64 dd = cv(d), nn = cv(n); memsetv(dd, c, nn); if (in.sub >= 2) R(C(dd)); return false; }
	case B_MALLOC: { Val n = A(0); u64 nn = cv(n);
		if (nn > (8ull << 30)) { if (in.sub == 0) { R(C(0)); return false; } curexc = halloc(16); curtype = (u64) dlsym(RTLD_DEFAULT, "_ZTISt9bad_alloc"); unwind(); return true; }
		R(C(halloc(nn))); return false; }
	case B_NEWALIGN: { Val n = A(in.sub == 1 ? 1 : 0), al = A(in.sub == 1 ? 0 : 1); R(C(halloc(cv(n), std::max<u64>(16, cv(al))))); return false; }
	case B_CALLOC: { Val a = A(0), b = A(1); u64 n = cv(a) * cv(b); u64 p = halloc(n); memsetv(p, C(0), n); R(C(p)); return false; }
	case B_REALLOC: { Val p = A(0), n = A(1); u64 pp = cv(p), nn = cv(n); u64 q = halloc(nn); if (pp) { auto it = heapobj.find(pp); if (it == heapobj.end()) violation("memory", "realloc of a pointer that is not a live heap object"); memcopy(q, pp, std::min(nn, it->second)); hfree(pp); } R(C(q)); return false; }
	case B_FREE: { Val p = A(0); hfree(cv(p)); return false; }
	case B_OVF: {
		Val a = A(0), b = A(1); bool sg = in.sub & 1; int k = in.sub / 2;
		unsigned opc = k == 0 ? Instruction::Add : k == 1 ? Instruction::Sub : Instruction::Mul;
		Val r = ibin(opc, a, b, w), o;
		if (!a.e && !b.e) {
			i128 x = sg ? (i128) sextw(a.v, w) : (i128) a.v, y = sg ? (i128) sextw(b.v, w) : (i128) b.v;
			if (!sg && k == 2) o = C((u128) a.v * b.v > maskw(w));
			else { i128 z = k == 0 ? x + y : k == 1 ? x - y : x * y; o = C(sg ? (z > smaxw(w) || z < sminw(w)) : (z < 0 || z > (i128) maskw(w))); }
		} else {
			Expr *x = ex(a, w), *y = ex(b, w), *z = ex(r, w), *zero = X.con(0, w), *oe;
			if (k == 0) oe = sg ? X.and_(X.eq(X.slt(x, zero), X.slt(y, zero)), X.xor_(X.slt(x, zero), X.slt(z, zero))) : X.ult(z, x);
			else if (k == 1) oe = sg ? X.and_(X.xor_(X.slt(x, zero), X.slt(y, zero)), X.xor_(X.slt(x, zero), X.slt(z, zero))) : X.ult(x, y);
			else if (w <= 32) { Expr *p = sg ? X.mul(X.sext(x, 2 * w), X.sext(y, 2 * w)) : X.mul(X.zext(x, 2 * w), X.zext(y, 2 * w)); oe = X.not_(X.eq(p, sg ? X.sext(z, 2 * w) : X.zext(z, 2 * w))); }
			else if (!sg) { oe = ((u128) x->uhi * y->uhi <= maskw(w)) ? X.con(0, 1) : X.and_(X.not_(X.eq(x, zero)), X.not_(X.eq(X.udiv(z, X.ite(X.eq(x, zero), X.con(1, w), x)), y))); }
			else { i128 p[4] = { (i128) x->slo * y->slo, (i128) x->slo * y->shi, (i128) x->shi * y->slo, (i128) x->shi * y->shi };
				if (*std::min_element(p, p + 4) >= sminw(w) && *std::max_element(p, p + 4) <= smaxw(w)) oe = X.con(0, 1);
				else { Expr *xn = X.ite(X.eq(x, zero), X.con(1, w), x);
					oe = X.or_(X.and_(X.eq(x, X.con(~0ull, w)), X.eq(y, X.con((u64) sminw(w), w))), X.and_(X.not_(X.or_(X.eq(x, zero), X.eq(x, X.con(~0ull, w)))), X.not_(X.eq(X.sdiv(z, xn), y)))); } }
			o = mk(oe);
		}
		f.r[in.dst] = r; f.r[in.dst + 1] = o; return false; }
	case B_MINMAX: { Val a = A(0), b = A(1);
		if (!a.e && !b.e) { i64 x = sextw(a.v, w), y = sextw(b.v, w); R(in.sub == 0 ? C(std::max(a.v, b.v)) : in.sub == 1 ? C(std::min(a.v, b.v)) : in.sub == 2 ? (x > y ? a : b) : (x < y ? a : b)); return false; }
		Expr *x = ex(a, w), *y = ex(b, w);
		Expr *c = in.sub == 0 ? X.ule(y, x) : in.sub == 1 ? X.ule(x, y) : in.sub == 2 ? X.sle(y, x) : X.sle(x, y);
		R(mk(X.ite(c, x, y))); return false; }
	case B_ABS: { Val a = A(0); if (!a.e) { i64 x = sextw(a.v, w); R(C((x < 0 ? -(u64) x : (u64) x) & maskw(w))); return false; }
		Expr *x = ex(a, w); R(mk(X.ite(X.slt(x, X.con(0, w)), X.sub(X.con(0, w), x), x))); return false; }
	case B_CTLZ: { Val a = A(0); if (!a.e) { u64 x = a.v; R(C(x ? __builtin_clzll(x) - (64 - w) : w)); return false; }
		Expr *x = ex(a, w), *r = X.con(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.eq(X.extract(x, i, 1), X.con(1, 1)), X.con(w - 1 - i, w), r); R(mk(r)); return false; }
	case B_CTTZ: { Val a = A(0); if (!a.e) { u64 x = a.v; R(C(x ? __builtin_ctzll(x) : w)); return false; }
		Expr *x = ex(a, w), *r = X.con(w, w); for (int i = w - 1; i >= 0; i--) r = X.ite(X.eq(X.extract(x, i, 1), X.con(1, 1)), X.con(i, w), r); R(mk(r)); return false; }
	case B_CTPOP: { Val a = A(0); if (!a.e) { R(C(__builtin_popcountll(a.v))); return false; }
		Expr *x = ex(a, w), *r = X.con(0, w); for (unsigned i = 0; i < w; i++) r = X.add(r, X.zext(X.extract(x, i, 1), w)); R(mk(r)); return false; }
	case B_BSWAP: { Val a = A(0); if (!a.e) { R(C(__builtin_bswap64(a.v) >> (64 - w))); return false; }
		Expr *x = ex(a, w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = X.extract(x, i, 8); r = r ? X.concat(r, b) : b; } R(mk(r)); return false; }
	case B_FSH: { Val a = A(0), b = A(1), c = A(2); unsigned s = cv(c) % w;
		Expr *x = ex(a, w), *y = ex(b, w);
		if (in.sub == 0) { if (!s) R(a); else R(mk(X.or_(X.shl(x, X.con(s, w)), X.lshr(y, X.con(w - s, w))))); }
		else { if (!s) R(b); else R(mk(X.or_(X.shl(x, X.con(w - s, w)), X.lshr(y, X.con(s, w))))); }
		return false; }
	case B_SAT: { Val a = A(0), b = A(1); Expr *x = ex(a, w), *y = ex(b, w);
		if (in.sub == 0) R(mk(X.ite(X.ult(x, y), X.con(0, w), X.sub(x, y)))); else { Expr *s = X.add(x, y); R(mk(X.ite(X.ult(s, x), X.con(~0ull, w), s))); } return false; }
	case B_FABS: R(ffabs(A(0), w)); return false;
	case B_FMATH1: R(fmath1(in.sub, A(0), ci->args.size() > 1 ? A(1) : C(0), w)); return false;
	case B_FMINMAX: { Val a = A(0), b = A(1); if (!a.e && !b.e) { double x = dbl(a.v, w), y = dbl(b.v, w); R(C(undbl(in.sub ? fmax(x, y) : fmin(x, y), w))); return false; }
		Val c = fcmp(in.sub ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b, w); if (!c.e) R(c.v ? a : b); else R(fselect(c.e, a, b, w)); return false; }
	case B_FMULADD: { Val a = A(0), b = A(1), c = A(2); if (!a.e && !b.e && !c.e && in.sub == 1) { R(C(w == 64 ? u64d(fma(d64(a.v), d64(b.v), d64(c.v))) : undbl(fmaf(dbl(a.v, 32), dbl(b.v, 32), dbl(c.v, 32)), 32))); return false; }
		R(fbin(Instruction::FAdd, fbin(Instruction::FMul, a, b, w), c, w)); return false; }
	case B_COPYSIGN: { Val a = A(0), b = A(1); R(C(undbl(copysign(dbl(cv(a), w), dbl(cv(b), w)), w))); return false; }
	case B_ISFPCLASS: { Val a = A(0); Val m = A(1); u64 mask = m.v; if (a.e && a.e->op == E_FIX) {
			// finite, sign as n; zero is +0
			if (!(mask & ~0x207ull) ) { if (!(mask & 0x1f8)) { R(C(0)); return false; } }
			double d = dbl(cv(a), w); (void) d; }
		double d = dbl(cv(a), w); bool neg = std::signbit(d); int c = std::fpclassify(d); u64 bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (neg ? 4 : 0x200) : c == FP_NORMAL ? (neg ? 8 : 0x100) : c == FP_SUBNORMAL ? (neg ? 0x10 : 0x80) : (neg ? 0x20 : 0x40);
		R(C((mask & bit) != 0)); return false; }
	case B_EXPECT: R(A(0)); return false;
	case B_OBJSIZE: R(C(~0ull)); return false;
	case B_ISCONST: R(C(0)); return false;
	case B_STACKSAVE: R(C(0)); return false;
	case B_STACKRESTORE: return false;
	case B_VASTART: { u64 a = A(0).v; u32 g = 48, fo = 304; logmem((void*) a, 24); memcpy((void*) a, &g, 4); memcpy((void*) (a + 4), &fo, 4); memcpy((void*) (a + 8), &f.va, 8); u64 z = 0; memcpy((void*) (a + 16), &z, 8); return false; }
	case B_VAEND: return false;
	case B_VACOPY: { memcopy(A(0).v, A(1).v, 24); return false; }
	case B_TRAP: violation("trap", "trap instruction reached");
	case B_TYPEID: R(C(typeidfor(A(0).v))); return false;
	// ---- harness interface
	case B_SYMRANGE: case B_SYMFIX: {
		std::string nm = cstr(A(0).v); i64 lo = A(1).v, hi = A(2).v;
		int k = in.sub == 0 && ci->builtin == B_SYMFIX ? (int) A(3).v : 0;
		bool fp = ci->builtin == B_SYMFIX;
		if (hi < lo) engerr("sym_range: empty range");
		u64 span = (u64) hi - (u64) lo; Expr *v, *n;
		SymRec rec; rec.name = nm; rec.base = lo; rec.fp = false; rec.k = k; rec.e = nullptr; rec.v = 0;
		if (span == 0) n = X.con(lo, 64);
		else {
			unsigned nb = 64 - __builtin_clzll(span);
			v = X.varat(nm, nb, span, symlog.size());
			if (span != maskw(nb)) { Expr *c = X.intern(E_ULE, 1, v, X.con(span, nb)); Z3_solver_assert(X.ctx, solver, X.z(c)); pathcond.push_back(c); }
			n = X.add(X.zext(v, 64), X.con(lo, 64));
			rec.e = v;
		}
		symlog.push_back(rec);
		if (fp) R(mkfix(n, k, 64)); else R(mk(n));
		return false; }
	case B_SYMASSUME: {
		Expr *c = boolexpr(A(0), w);
		if (X.isc(c)) { if (!c->c) endpath(K_INFEASIBLE); return false; }
		if (!X.eval(c)) { std::vector<u64> m; if (!feasible(c, &m)) endpath(K_INFEASIBLE); assume(c); setmodel(m); }
		else assume(c);
		return false; }
	case B_SYMASSERT: {
		INC(asserts, 1);
		Val v = A(0); std::string msg = cstr(A(1).v);
		Expr *c = boolexpr(v, w);
		if (X.isc(c)) { if (!c->c) violation("assert", msg); return false; }
		INC(symasserts, 1);
		if (!X.eval(c)) violation("assert", msg);
		std::vector<u64> m;
		if (feasible(X.not_(c), &m)) {
			std::vector<u64> keep = X.model;
			setmodel(m); writecex("assert", msg); setmodel(keep); checkstop();
			assume(c);
		}
		return false; }
	case B_SYMFAIL: violation("assert", cstr(A(0).v));
	case B_SYMCOVER: {
		std::string nm = cstr(A(0).v);
		for (int i = 0; i < sh->ncover; i++) if (nm == sh->covername[i]) { sh->cover[i] = 1; return false; }
		lock();
		int n = sh->ncover; bool have = false; for (int i = 0; i < n; i++) if (nm == sh->covername[i]) have = true;
		if (!have && n < MaxCover) { strncpy(sh->covername[n], nm.c_str(), 63); sh->cover[n] = 1; sh->ncover = n + 1; }
		unlock(); return false; }
	case B_SYMFIND: {
		std::string nm = cstr(A(0).v); Expr *c = boolexpr(A(1), ci->argbits[1]);
		bool hit = X.isc(c) ? c->c : (X.eval(c) || feasible(c, nullptr));
		if (hit) { lock(); int n = sh->nfind; bool have = false; for (int i = 0; i < n; i++) if (nm == sh->findname[i]) have = true; if (!have && n < MaxFind) { strncpy(sh->findname[n], nm.c_str(), 63); sh->nfind = n + 1; } unlock(); }
		return false; }
	case B_SYMEXITMODE: exitmode = A(0).v; return false;
	case B_SYMNATIVE: R(C(0)); return false;
	case B_SYMDONE: endpath(K_OK);
	case B_SYMDEBUG: { Val v = A(1); fprintf(stderr, "[%d] %s = %s\n", getpid(), cstr(A(0).v).c_str(), v.e ? X.str(v.e, 8).c_str() : std::to_string((long long) v.v).c_str()); return false; }
	case B_SYMCONC: { Val v = A(0); R(C(cv(v))); return false; }
	case B_SYMISSYM: { Val v = A(0); R(C(v.e != nullptr)); return false; }
	case B_SYMSTEPS: optMaxSteps = steps + A(0).v; return false;
	case B_SYMMERGE: { Expr *c = boolexpr(A(0), ci->argbits[0]); R(mk(X.ite(c, ex(A(1), 64), ex(A(2), 64)))); return false; }
	// ---- process control
	case B_EXIT: { Val v = A(0); if (exitmode == 1) endpath(K_EXIT); violation("exit", "the program exited with status " + std::to_string((int) cv(v))); }
	case B_ABORT: if (exitmode == 1) endpath(K_EXIT); violation("abort", "the program aborted");
	case B_PUREVIRT: violation("abort", "pure virtual call");
	case B_ASSERTFAIL: { std::string m = ci->args.size() >= 1 ? cstr(A(0).v) : ""; violation("assertion", "assertion in the code failed: " + m); }
	case B_TERMINATE: violation("exception", "std::terminate called");
	case B_CXAALLOC: { Val n = A(0); R(C(halloc(cv(n) + 0))); return false; }
	case B_CXAFREE: return false;
	case B_CXATHROW: curexc = A(0).v; curtype = A(1).v; exctype[curexc] = curtype; unwind(); return true;
	case B_CXABEGIN: { u64 e = A(0).v; caught.push_back({e, curtype}); R(C(e)); return false; }
	case B_CXAEND: if (!caught.empty()) caught.pop_back(); return false;
	case B_CXARETHROW: if (caught.empty()) violation("exception", "rethrow without exception"); curexc = caught.back().first; curtype = caught.back().second; unwind(); return true;
	case B_CXAATEXIT: R(C(0)); return false;
	case B_STDTHROW: { static const char *ti[] = { "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt16invalid_argument" };
		curexc = halloc(16); curtype = (u64) dlsym(RTLD_DEFAULT, ti[in.sub]); unwind(); return true; }
	case B_TIME: {
		if (in.sub == 5) { u64 q = A(1).v; if (!addrok(q, 4)) badaccess(q, 4, true); if (inarena(q)) logmem((void*) q, 4); *(u32*) q = 2; R(C(0)); return false; }
		ticks += 1000;	// one millisecond per call, in microseconds
		u64 p = ci->args.size() ? A(in.sub == 0 || in.sub == 1 ? 0 : in.sub == 2 ? 0 : 1).v : 0;
		if (p) { u64 sz = in.sub == 1 ? 8 : in.sub == 3 ? 144 : 16; if (!addrok(p, sz)) badaccess(p, sz, true); if (inarena(p)) logmem((void*) p, sz); }
		if (in.sub == 0) { u64 t[2] = { ticks / 1000000, ticks % 1000000 }; memcpy((void*) p, t, 16); R(C(0)); }
		else if (in.sub == 1) { if (p) { u64 t = ticks / 1000000; memcpy((void*) p, &t, 8); } R(C(ticks / 1000000)); }
		else if (in.sub == 2) R(C(ticks));
		else if (in.sub == 3) { memset((void*) p, 0, 144); u64 t[2] = { ticks / 1000000, ticks % 1000000 }; memcpy((void*) p, t, 16); R(C(0)); }
		else { u64 t[2] = { ticks / 1000000, ticks % 1000000 * 1000 }; memcpy((void*) p, t, 16); R(C(0)); }
		return false; }
	case B_GUARDACQ: { u64 p = A(0).v; R(C(*(u8*) p == 0)); return false; }
	case B_GUARDREL: { u64 p = A(0).v; logmem((void*) p, 1); *(u8*) p = 1; return false; }
	}
	engerr("builtin %d", ci->builtin);
}

static void docall(Frame &f, Inst &in) {
	CallInfo *ci = (CallInfo*) in.p;
	if (ci->builtin >= 0) {
		u32 pc = f.pc;
		size_t depth = stack_.size();
		if (!builtin(f, in, ci)) { Frame &g = stack_.back(); (void) depth; (void) pc; if (ci->isinvoke) takeedge(g, ci->normal); }
		return;
	}
	Function *F = ci->callee;
	FnCode *fc = ci->code;
	if (!F) {
		Val p = G(f, ci->calleeop); u64 a = cv(p);
		auto it = fnByAddr.find(a);
		if (it == fnByAddr.end()) { if (a < 65536) violation("memory", "call through a null function pointer"); engerr("call through pointer %#llx to native code", (unsigned long long) a); }
		F = it->second;
		if (F->isDeclaration()) {
			// an external function called through a pointer
			CallInfo *c2 = new CallInfo(*ci); c2->name = F->getName().str(); c2->callee = F; Inst tmp = in; int b = findBuiltin(c2->name, tmp);
			if (b != B_NONE) { c2->builtin = b; tmp.p = c2; if (!builtin(f, tmp, c2) && ci->isinvoke) takeedge(stack_.back(), ci->normal); return; }
			nativecall(f, in, c2); if (ci->isinvoke) takeedge(f, ci->normal); return;
		}
		fc = codeFor(F);
	} else if (!fc) {
		if (F->isDeclaration()) { nativecall(f, in, ci); if (ci->isinvoke) takeedge(f, ci->normal); return; }
		fc = ci->code = codeFor(F);
	}
	compile(fc);
	// gather arguments before pushing (stack_ may move)
	size_t na = ci->args.size();
	Val tmp[48]; std::vector<Val> big; Val *t = tmp;
	if (na > 48) { big.resize(na); t = big.data(); }
	for (size_t i = 0; i < na; i++) {
		t[i] = G(f, ci->args[i]);
		if (ci->byval[i]) { u64 src = cv(t[i]); u64 a = salloc(ci->byval[i], 16); memcopy(a, src, ci->byval[i]); t[i] = C(a); }
	}
	u64 va = 0;
	size_t np = 0; for (auto &A : F->args()) { Flat fl; (void) A; np++; }
	pushframe(fc, &in);
	Frame &g = stack_.back();
	// parameters may occupy several slots each
	size_t ai = 0, pi = 0;
	for (auto &A : F->args()) {
		i32 d = fc->params[pi++];
		unsigned ns = 1;
		if (A.getType()->isStructTy() || A.getType()->isArrayTy() || A.getType()->isVectorTy() || A.getType()->isIntegerTy(128)) { Flat fl; flatten(A.getType(), fl); ns = fl.size(); }
		for (unsigned i = 0; i < ns && ai < na; i++) g.r[d + i] = t[ai++];
	}
	if (F->isVarArg()) {
		u64 n = na - ai;
		va = salloc(n * 8 + 8, 16);
		for (u64 i = 0; i < n; i++) { Val v = t[ai + i]; unsigned b = ci->argbits[ai + i]; if (v.e && b < 64 && !ci->argfp[ai + i]) v = mk(X.zext(v.e, 64)); storebytes(va + 8 * i, 8, v); }
		g.va = va;
	}
}

// ---------------------------------------------------------------- main loop
// ---------------------------------------------------------------- backtracking
struct Choice {
	size_t ntrail, nsym, nq, npc; std::vector<Val> regs; std::vector<Frame> frames; std::vector<std::pair<u64, u64>> caught;
	u64 stacktop, heaptop, ticks, steps, maxsteps, curexc, curtype, protectedstack; int exitmode;
	std::vector<Dec> decs; Expr *other; std::vector<u64> m; u64 v;
};
static std::vector<Choice> choices;
static size_t given = 0;	// the oldest choices, handed to other processes
static size_t insttrail = 0;	// the undo log when the instruction started
static bool startchild = false;
static bool haschoices() { return choices.size() > given; }
static void pushchoice(Expr *other, std::vector<u64> &m, u64 v) {
	choices.emplace_back();
	Choice &c = choices.back();
	c.ntrail = insttrail; c.nsym = symlog.size(); c.nq = qlog.size(); c.npc = pathcond.size();
	c.regs.assign(regbase, regtop); c.frames = stack_; c.caught = caught;
	c.stacktop = stacktop; c.heaptop = heaptop; c.ticks = ticks; c.steps = steps; c.maxsteps = optMaxSteps; c.curexc = curexc; c.curtype = curtype; c.exitmode = exitmode;
	c.protectedstack = protectedstack;
	c.decs = decs; c.other = other; c.m.swap(m); c.v = v;
	protectedstack = std::max(protectedstack, stacktop);
}
static void undoto(size_t n) {
	while (trail.size() > n) {
		TrailRec r = trail.back(); trail.pop_back();
		switch (r.kind) {
		case 0: { size_t o = trailbytes.size() - r.b; memcpy((void*) r.a, trailbytes.data() + o, r.b); trailbytes.resize(o); break; }
		case 1: symmem.erase(r.a); shadow[r.a] = r.b; break;
		case 2: symmem[r.a] = trailgran.back(); trailgran.pop_back(); shadow[r.a] = r.b; break;
		case 3: heapobj.erase(r.a); break;
		case 4: heapobj[r.a] = r.b; break;
		}
	}
}
// Goes back to choice number at and takes its other side.
static void resume(size_t at) {
	flushsteps();
	Z3_solver_pop(X.ctx, solver, choices.size() - at);
	Choice c = std::move(choices[at]);
	choices.resize(at);
	undoto(c.ntrail);
	symlog.resize(c.nsym, SymRec()); pathcond.resize(c.npc);
	while (qlog.size() > c.nq) { qcache.erase(qlog.back()); qlog.pop_back(); }
	std::copy(c.regs.begin(), c.regs.end(), regbase); regtop = regbase + c.regs.size();
	stack_.swap(c.frames); caught.swap(c.caught);
	stacktop = c.stacktop; heaptop = c.heaptop; ticks = c.ticks; steps = laststeps = c.steps; optMaxSteps = c.maxsteps; curexc = c.curexc; curtype = c.curtype; exitmode = c.exitmode; protectedstack = c.protectedstack;
	decs.swap(c.decs); decs.push_back(Dec{false, c.v}); nextdec = 0;
	setmodel(c.m);
	assume(c.other);
	stack_.back().pc--;
	steps--;
}
static bool cangive() { return choices.size() > given; }
// Hands the oldest outstanding choice to a new process.
static void give() {
	if (dofork(true)) { size_t at = given; given = 0; 
		// the new process owns nothing but that choice
		resume(at); choices.clear(); startchild = true; throw Backtrack(); }
	given++;
}
// Called before native code with effects that cannot be undone.
static void impure() {
	if (pure && haschoices()) {
		if (dofork(false)) { owntoken = false; choices.clear(); given = 0; pure = false; logging = false; return; }
		throw Backtrack();
	}
	pure = false; logging = false; choices.clear(); given = 0;
}
static void runloop(size_t base);
static void run(size_t base, bool ismain) {
	for (;;) {
		try { runloop(base); if (ismain) endpath(K_OK); return; }
		catch (Backtrack &) {
			if (sh->stop) finish();
			if (startchild) { startchild = false; continue; }
			if (!haschoices()) finish();
			resume(choices.size() - 1);
			if (now() > deadline) sh->stop = 1;
		}
	}
}
static void runloop(size_t base) {
	while (stack_.size() > base) {
		Frame *f = &stack_.back();
		Inst *in = &f->fn->code[f->pc++];
		steps++;
		if (nextdec == decs.size()) { decs.clear(); nextdec = 0; } else if (nextdec) { engerr("decision replay out of step"); }
		if (choices.empty()) { trail.clear(); trailbytes.clear(); trailgran.clear(); }
		insttrail = trail.size();
		switch (in->op) {
		case I_BIN: {
			Val &a = G(*f, in->a), &b = G(*f, in->b);
			f->r[in->dst] = ibin(in->sub, a, b, in->w); break; }
		case I_CMP: f->r[in->dst] = icmp(in->sub, G(*f, in->a), G(*f, in->b), in->w); break;
		case I_FBIN: f->r[in->dst] = fbin(in->sub, G(*f, in->a), G(*f, in->b), in->w); break;
		case I_FCMP: f->r[in->dst] = fcmp(in->sub, G(*f, in->a), G(*f, in->b), in->w); break;
		case I_FNEG: f->r[in->dst] = fneg(G(*f, in->a), in->w); break;
		case I_CAST: {
			Val a = G(*f, in->a), r;
			switch (in->sub) {
			case Instruction::Trunc: r = a.e ? mk(X.extract(ex(a, in->w), 0, in->w2)) : C(a.v & maskw(in->w2)); break;
			case Instruction::ZExt: r = a.e ? mk(X.zext(ex(a, in->w), in->w2)) : a; break;
			case Instruction::SExt: r = a.e ? mk(X.sext(ex(a, in->w), in->w2)) : C((u64) sextw(a.v, in->w) & maskw(in->w2)); break;
			case Instruction::PtrToInt: r = in->w2 < 64 ? (a.e ? mk(X.extract(a.e, 0, in->w2)) : C(a.v & maskw(in->w2))) : a; break;
			case Instruction::IntToPtr: r = a.e ? mk(X.zext(ex(a, in->w), 64)) : a; break;
			case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; break;
			case Instruction::SIToFP: r = int2fp(a, in->w, in->w2, true); break;
			case Instruction::UIToFP: r = int2fp(a, in->w, in->w2, false); break;
			case Instruction::FPToSI: r = fp2int(a, in->w, in->w2, true); break;
			case Instruction::FPToUI: r = fp2int(a, in->w, in->w2, false); break;
			case Instruction::FPExt: if (a.e && a.e->op == E_FIX) r = mkfix(a.e->k[0], a.e->aux, 64); else r = C(u64d(dbl(cv(a), 32))); break;
			case Instruction::FPTrunc: if (a.e && a.e->op == E_FIX && inlim(a.e->k[0], 32)) r = mkfix(a.e->k[0], a.e->aux, 32); else r = C(undbl((float) d64(cv(a)), 32)); break;
			default: engerr("cast %d", in->sub);
			}
			f->r[in->dst] = r; break; }
		case I_MOVE: f->r[in->dst] = G(*f, in->a); break;
		case I_LOAD: {
			MemInfo *mi = (MemInfo*) in->p; Val p = G(*f, in->a);
			if (mi->flat.size() == 1) {
				unsigned b = mi->flat[0].bits; if (b > 64) engerr("load of %d bits", b);
				Val v = doload(p, nbytes(b), b);
				// values of pointer type are made concrete when used as addresses
				stack_.back().r[in->dst] = v;
			} else {
				u64 a = cv(p); f = &stack_.back();
				for (size_t i = 0; i < mi->flat.size(); i++) f->r[in->dst + i] = doload(C(a + mi->flat[i].off), nbytes(mi->flat[i].bits), mi->flat[i].bits);
			}
			break; }
		case I_STORE: {
			MemInfo *mi = (MemInfo*) in->p; Val p = G(*f, in->a);
			if (mi->flat.size() == 1) { if (mi->flat[0].bits > 64) engerr("store of wide value"); dostore(p, nbytes(mi->flat[0].bits), mi->flat[0].bits, G(*f, in->b)); }
			else { u64 a = cv(p); i32 b = in->b; for (size_t i = 0; i < mi->flat.size(); i++) dostore(C(a + mi->flat[i].off), nbytes(mi->flat[i].bits), mi->flat[i].bits, b >= 0 ? f->r[b + i] : f->fn->K[(~b) + i]); }
			break; }
		case I_GEP: {
			GepInfo *gi = (GepInfo*) in->p; Val &b = G(*f, in->a);
			u64 conc = gi->base; Expr *se = b.e; if (!b.e) conc += b.v;
			for (size_t i = 0; i < gi->idx.size(); i++) {
				Val &x = G(*f, gi->idx[i].first);
				if (!x.e) conc += (u64) sextw(x.v, gi->w[i]) * (u64) gi->idx[i].second;
				else { Expr *t = X.mul(X.sext(ex(x, gi->w[i]), 64), X.con((u64) gi->idx[i].second, 64)); se = se ? X.add(se, t) : t; }
			}
			f->r[in->dst] = se ? mk(X.add(se, X.con(conc, 64))) : C(conc);
			break; }
		case I_SELECT: {
			Val c = G(*f, in->a);
			if (!c.e) { f->r[in->dst] = c.v ? G(*f, in->b) : G(*f, in->c); break; }
			Val a = G(*f, in->b), b = G(*f, in->c);
			if (!a.e && !b.e && a.v == b.v) { f->r[in->dst] = a; break; }
			if (in->sub || (a.e && a.e->op == E_FIX) || (b.e && b.e->op == E_FIX)) {
				if ((a.e && a.e->op != E_FIX) || (b.e && b.e->op != E_FIX)) { f->r[in->dst] = branch(c.e) ? a : b; break; }
				f->r[in->dst] = fselect(c.e, a, b, in->w); break;
			}
			if (in->inb || in->w >= (unsigned) optSelFork) { f->r[in->dst] = branch(c.e) ? a : b; break; }
			f->r[in->dst] = mk(X.ite(c.e, ex(a, in->w), ex(b, in->w))); break; }
		case I_BR: takeedge(*f, ((BrInfo*) in->p)->t); goto chk;
		case I_CONDBR: {
			BrInfo *b = (BrInfo*) in->p; Val &c = G(*f, in->a);
			bool t = c.e ? branch(c.e) : c.v != 0;
			takeedge(*f, t ? b->t : b->f);
			goto chk; }
		case I_SWITCH: {
			SwitchInfo *s = (SwitchInfo*) in->p; Val v = G(*f, in->a);
			if (!v.e) { auto it = s->map.find(v.v); takeedge(*f, it == s->map.end() ? s->def : s->cases[it->second].second); goto chk; }
			Expr *e = ex(v, in->w); bool done = false;
			// group cases by target to avoid needless forks when there are no phi moves
			for (size_t i = 0; i < s->cases.size() && !done; i++) {
				if (s->cases[i].second.moves.empty()) {
					bool first = true;
					for (size_t j = 0; j < i; j++) if (s->cases[j].second.pc == s->cases[i].second.pc && s->cases[j].second.moves.empty()) first = false;
					if (!first) continue;
					Expr *c = X.con(0, 1);
					for (size_t j = i; j < s->cases.size(); j++) if (s->cases[j].second.pc == s->cases[i].second.pc && s->cases[j].second.moves.empty()) c = X.or_(c, X.eq(e, X.con(s->cases[j].first, in->w)));
					if (branch(c)) { takeedge(*f, s->cases[i].second); done = true; }
				} else if (branch(X.eq(e, X.con(s->cases[i].first, in->w)))) { takeedge(*f, s->cases[i].second); done = true; }
			}
			if (!done) takeedge(*f, s->def);
			goto chk; }
		case I_RET: {
			Inst *ci = f->callinst;
			Val tmp[16]; unsigned ns = in->nslots;
			if (ns > 16) engerr("large return value");
			for (unsigned i = 0; i < ns; i++) tmp[i] = in->a >= 0 ? f->r[in->a + i] : f->fn->K[(~in->a) + i];
			popframe();
			if (stack_.size() <= base && !ci) return;
			if (ci) {
				Frame &g = stack_.back();
				if (ci->dst >= 0) for (unsigned i = 0; i < ns; i++) g.r[ci->dst + i] = tmp[i];
				CallInfo *c = (CallInfo*) ci->p;
				if (c->isinvoke) takeedge(g, c->normal);
			}
			break; }
		case I_CALL: docall(*f, *in); goto chk;
		case I_ALLOCA: { Val n = G(*f, in->a); u64 c = cv(n); f->r[in->dst] = C(salloc(in->imm * c, in->c)); break; }
		case I_LANDINGPAD: engerr("landing pad reached by fall-through");
		case I_RESUME: { curexc = G(*f, in->a).v; auto it = exctype.find(curexc); if (it != exctype.end()) curtype = it->second; popframe(); if (stack_.empty()) { violation("exception", "uncaught exception"); } unwind(); break; }
		case I_UNREACHABLE: violation("unreachable", "unreachable code reached");
		case I_ATOMICRMW: {
			Val p = G(*f, in->a); u64 a = cv(p); Val o = doload(C(a), nbytes(in->w), in->w), v = G(*f, in->b), n;
			switch (in->sub) { case AtomicRMWInst::Add: n = ibin(Instruction::Add, o, v, in->w); break; case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, o, v, in->w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = ibin(Instruction::Or, o, v, in->w); break; case AtomicRMWInst::And: n = ibin(Instruction::And, o, v, in->w); break; default: engerr("atomicrmw"); }
			dostore(C(a), nbytes(in->w), in->w, n); f->r[in->dst] = o; break; }
		case I_CMPXCHG: {
			Val p = G(*f, in->a); u64 a = cv(p); Val o = doload(C(a), nbytes(in->w), in->w), e = G(*f, in->b); u64 ov = cv(o), ev = cv(e);
			if (ov == ev) dostore(C(a), nbytes(in->w), in->w, G(*f, in->c)); f->r[in->dst] = C(ov); f->r[in->dst + 1] = C(ov == ev); break; }
		case 1000: {	// 128-bit arithmetic, concrete
			auto W = [&](i32 o) -> u128 { Val a = o >= 0 ? f->r[o] : f->fn->K[~o], b = o >= 0 ? f->r[o + 1] : f->fn->K[(~o) + 1]; u64 lo = cv(a), hi = cv(b); return (u128) hi << 64 | lo; };
			u128 x = W(in->a), y = W(in->b), r = 0;
			switch (in->sub) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
			case Instruction::Shl: r = x << (unsigned) y; break; case Instruction::LShr: r = x >> (unsigned) y; break; case Instruction::AShr: r = (i128) x >> (unsigned) y; break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break; default: engerr("i128 op"); }
			f->r[in->dst] = C((u64) r); f->r[in->dst + 1] = C((u64) (r >> 64)); break; }
		case 1001: {
			auto W = [&](i32 o) -> u128 { Val a = o >= 0 ? f->r[o] : f->fn->K[~o], b = o >= 0 ? f->r[o + 1] : f->fn->K[(~o) + 1]; u64 lo = cv(a), hi = cv(b); return (u128) hi << 64 | lo; };
			u128 x = W(in->a), y = W(in->b); i128 sx = x, sy = y; bool r;
			switch (in->sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
			f->r[in->dst] = C(r); break; }
		case 1002: {
			if (in->w == 128) { Val a = in->a >= 0 ? f->r[in->a] : f->fn->K[~in->a]; f->r[in->dst] = a.e ? mk(X.extract(a.e, 0, in->w2)) : C(a.v & maskw(in->w2)); }
			else { Val a = G(*f, in->a); Val lo = a, hi = C(0);
				if (in->sub == Instruction::SExt) { u64 v = cv(a); lo = C((u64) sextw(v, in->w)); hi = C((u64) (sextw(v, in->w) >> 63)); } else if (a.e) lo = mk(X.zext(ex(a, in->w), 64));
				f->r[in->dst] = lo; f->r[in->dst + 1] = hi; }
			break; }
		case 2000: engerr("%s", ((std::string*) in->p)->c_str());
		default: { std::string s; raw_string_ostream os(s); in->I->print(os); engerr("unsupported instruction: %s", s.c_str()); }
		}
		continue;
	chk:
		if (steps > optMaxSteps) { writecex("hang", "no result after " + std::to_string((unsigned long long) optMaxSteps) + " steps"); endpath(K_STEPS); }
		if ((steps & 0xfffff) < 16) checkstop();
	}
}
static void callfn(Function *F, bool ismain = false) {
	FnCode *fc = codeFor(F);
	pushframe(fc, nullptr);
	int ai = 0; for (auto &A : F->args()) { (void) A; stack_.back().r[fc->params[ai++]] = C(0); }
	run(stack_.size() - 1, ismain);
}

static void crash(int sig) {
	// a native fault while executing the program under test: the access check let it through
	static volatile int once = 0;
	if (once) _exit(9);
	once = 1;
	lock(); int n = sh->nengerr; if (n < 8) { snprintf(sh->engerr[n], 511, "engine received signal %d at %s", sig, stack_.empty() ? "?" : stacktrace().c_str()); sh->nengerr = n + 1; } unlock();
	INC(paths, 1); INC(ended[K_ENGERR], 1);
	flushsteps();
	if (owntoken) INC(tokens, 1);
	for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
	_exit(0);
}

static void jstr(FILE *f, const std::string &s) {
	fputc('"', f);
	for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
	fputc('"', f);
}

int main(int argc, char **argv) {
	std::string bc, entry = "sym_main"; std::string srcfilter;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(3); } return std::string(argv[++i]); };
		if (a == "--out") optOut = nx(); else if (a == "--cexdir") optCexDir = nx(); else if (a == "--time") optTime = atof(nx().c_str());
		else if (a == "--procs") optProcs = atoi(nx().c_str()); else if (a == "--max-steps") optMaxSteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--max-cex") optMaxCex = atoi(nx().c_str()); else if (a == "--ite-max") optIteMax = atoi(nx().c_str()); else if (a == "--rlimit1") optRlimit1 = strtoul(nx().c_str(), 0, 10); else if (a == "--rlimit") optRlimit = strtoul(nx().c_str(), 0, 10);
		else if (a == "--fselfork") optFSelFork = atoi(nx().c_str()); else if (a == "--selfork") optSelFork = atoi(nx().c_str()); else if (a == "--entry") entry = nx(); else bc = a;
	}
	if (optCexDir.empty()) optCexDir = ".";
	if (optMaxCex > MaxCex) optMaxCex = MaxCex;
	double t0 = now(); deadline = t0 + optTime;
	sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(sh, 0, sizeof *sh);
	sh->tokens = optProcs - 1;
	if (mmap((void*) ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*) ABASE) { perror("arena"); return 3; }
	shadow = (u8*) mmap(0, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shadow == MAP_FAILED) { perror("shadow"); return 3; }
	regbase = regtop = (Val*) mmap(0, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	LLVMContext ctx; LC = &ctx; SMDiagnostic err;
	auto mod = parseIRFile(bc, err, ctx);
	if (!mod) { err.print("irsym", errs()); return 3; }
	M = mod.get(); DataLayout dl(M); DL = &dl;
	dlopen("libstdc++.so.6", RTLD_NOW | RTLD_GLOBAL); dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL);
	signal(SIGSEGV, crash); signal(SIGFPE, crash); signal(SIGBUS, crash); signal(SIGILL, crash); signal(SIGABRT, crash);
	stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
	for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0); }

	pid_t root = fork();	// the root process of the exploration
	if (root == 0) {
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		Z3_global_param_set("memory_high_watermark", "0");
		Z3_config cfg = Z3_mk_config();
		X.ctx = Z3_mk_context(cfg);
		solver = Z3_mk_solver(X.ctx);
		Z3_solver_inc_ref(X.ctx, solver);
		Z3_params pr = Z3_mk_params(X.ctx); Z3_params_inc_ref(X.ctx, pr);
		Z3_params_set_uint(X.ctx, pr, Z3_mk_string_symbol(X.ctx, "rlimit"), optRlimit1);
		Z3_solver_set_params(X.ctx, solver, pr);
		for (auto &F : *M) if (!F.isDeclaration()) codeFor(&F);
		if (allfns.size() > MaxFn) { fprintf(stderr, "too many functions\n"); _exit(3); }
		for (auto &g : M->globals()) if (!g.isDeclaration()) addrOf(&g);
		for (auto &g : M->globals()) if (!g.isDeclaration() && g.hasInitializer()) storeConst(g.getInitializer(), addrOf(&g));
		for (size_t i = 0; i < allfns.size(); i++) compile(allfns[i]);
		int devnull = open("/dev/null", O_WRONLY); dup2(devnull, 1);
		// static constructors
		if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) {
			std::vector<std::pair<u64, Function*>> cs;
			if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (auto &o : arr->operands()) { auto *s = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F}); }
			std::stable_sort(cs.begin(), cs.end(), [](const std::pair<u64, Function*> &a, const std::pair<u64, Function*> &b) { return a.first < b.first; });
			for (auto &c : cs) callfn(c.second);
		}
		Function *mainF = M->getFunction(entry);
		if (!mainF) { fprintf(stderr, "no %s\n", entry.c_str()); _exit(3); }
		callfn(mainF, true);
		_exit(3);
	}
	int st = 0;
	// hard stop if the deadline passes by far
	for (;;) {
		pid_t r = waitpid(root, &st, WNOHANG);
		if (r == root) break;
		if (now() > deadline + 60) { sh->stop = 1; kill(-root, SIGKILL); kill(root, SIGKILL); sh->abnormal++; waitpid(root, &st, 0); break; }
		usleep(2000);
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->abnormal++;
	FILE *f = fopen(optOut.c_str(), "w");
	if (!f) { perror(optOut.c_str()); return 3; }
	fprintf(f, "{\"wall\": %.3f, \"paths\": %llu, \"forks\": %llu, \"steps\": %llu, \"maxpathsteps\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"asserts\": %llu, \"symbolic_asserts\": %llu, \"symbolic_addresses\": %llu, \"concretised\": %llu, \"abnormal\": %llu, \"stopped\": %d",
		now() - t0, (unsigned long long) sh->paths, (unsigned long long) sh->forks, (unsigned long long) sh->steps, (unsigned long long) sh->maxpathsteps, (unsigned long long) sh->queries, (unsigned long long) sh->qsat, (unsigned long long) sh->qunsat, (unsigned long long) sh->qunknown, sh->solverns * 1e-9, (unsigned long long) sh->asserts, (unsigned long long) sh->symasserts, (unsigned long long) sh->symaddr, (unsigned long long) sh->concretised, (unsigned long long) sh->abnormal, sh->stop);
	fprintf(f, ", \"ended\": {"); for (int i = 0; i < 8; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", endname[i], (unsigned long long) sh->ended[i]);
	fprintf(f, "}, \"violations\": ["); for (int i = 0; i < sh->ncex; i++) { if (i) fprintf(f, ", "); jstr(f, sh->cexmsg[i]); }
	fprintf(f, "], \"engine_errors\": ["); for (int i = 0; i < sh->nengerr; i++) { if (i) fprintf(f, ", "); jstr(f, sh->engerr[i]); }
	fprintf(f, "], \"covered\": ["); for (int i = 0; i < sh->ncover; i++) { if (i) fprintf(f, ", "); jstr(f, sh->covername[i]); }
	fprintf(f, "], \"findings\": ["); for (int i = 0; i < sh->nfind; i++) { if (i) fprintf(f, ", "); jstr(f, sh->findname[i]); }
	fprintf(f, "], \"functions\": [");
	{ bool first = true; int i = 0; for (auto &F : *M) { if (F.isDeclaration()) continue; if (i < MaxFn && sh->fn[i]) { if (!first) fprintf(f, ", "); first = false; jstr(f, fname(&F)); } i++; } }
	fprintf(f, "]}\n");
	fclose(f);
	return 0;
}
