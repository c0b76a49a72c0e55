// Hash-consed bit-vector expressions with range analysis and a Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
	E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
	E_FIX };	// FIX: a double (w=64) or float (w=32) whose value is k[0] * 2^-aux exactly, k[0] a signed 64-bit integer

struct Expr {
	EOp op; u8 w; u8 tz; u8 depthc; u16 aux; u32 id;
	Expr *k[3];
	u64 c;			// constant value or variable number
	u64 ulo, uhi; i64 slo, shi;
	u64 ep, ev;		// evaluation cache
	Z3_ast z;
	Z3_ast zn; unsigned zm;	// translation of the low zm bits
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64) v : ((i64) (v << (64 - w))) >> (64 - w); }
static inline i64 smaxw(unsigned w) { return (i64) (maskw(w) >> 1); }
static inline i64 sminw(unsigned w) { return -smaxw(w) - 1; }

struct VarInfo { std::string name; unsigned w; u64 hi; Z3_ast z; };

struct Exprs {
	std::vector<VarInfo> vars;
	std::vector<u64> model;		// current model, by variable
	u64 epoch = 1;
	u32 nextid = 1;
	Z3_context ctx = nullptr;

	struct H { size_t operator()(const Expr *e) const {
		u64 h = e->op * 0x9E3779B97F4A7C15ull ^ (u64) e->w << 40 ^ (u64) e->aux << 20 ^ e->c * 0xC2B2AE3D27D4EB4Full;
		for (int i = 0; i < 3; i++) { h ^= (u64) (e->k[i] ? e->k[i]->id : 0) * (0x165667B19E3779F9ull + 2 * i); h = (h << 13 | h >> 51) * 0x9E3779B97F4A7C15ull; }
		return h ^ h >> 29; } };
	struct Q { bool operator()(const Expr *a, const Expr *b) const {
		return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
	struct Tab {	// open-addressing set
		std::vector<Expr*> t; size_t n = 0;
		Tab() : t(1 << 14, nullptr) {}
		Expr *find(const Expr &e, size_t h) { size_t m = t.size() - 1; for (size_t i = h & m; t[i]; i = (i + 1) & m) if (Q()(t[i], &e)) return t[i]; return nullptr; }
		void ins(Expr *e, size_t h) {
			if (n * 2 > t.size()) { std::vector<Expr*> o(t.size() * 2, nullptr); o.swap(t); for (auto x : o) if (x) put(x, H()(x)); }
			put(e, h); n++; }
		void put(Expr *e, size_t h) { size_t m = t.size() - 1; size_t i = h & m; while (t[i]) i = (i + 1) & m; t[i] = e; }
	} tab;
	std::vector<char*> blocks; size_t left = 0;
	Expr *alloc() {
		if (left == 0) { left = 1024; blocks.push_back((char*) malloc(left * sizeof(Expr))); }
		return (Expr*) (blocks.back() + --left * sizeof(Expr));
	}

	Expr *intern(EOp op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 cv = 0, u16 aux = 0) {
		Expr t; memset(&t, 0, sizeof t);
		t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cv; t.aux = aux;
		size_t h = H()(&t);
		if (Expr *f = tab.find(t, h)) return f;
		Expr *e = alloc(); *e = t; e->id = nextid++;
		range(e);
		if (e->op != E_CONST && e->op != E_VAR && e->op != E_FIX && e->ulo == e->uhi)
			return con(e->ulo, w);
		tab.ins(e, h);
		return e;
	}

	Expr *con(u64 v, unsigned w) { return intern(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
	bool isc(Expr *e) { return e->op == E_CONST; }
	bool isc(Expr *e, u64 v) { return e->op == E_CONST && e->c == (v & maskw(e->w)); }

	// u/s range coupling
	void setu(Expr *e, u64 lo, u64 hi) { e->ulo = lo; e->uhi = hi; u2s(e); }
	void sets(Expr *e, i64 lo, i64 hi) {
		e->slo = lo; e->shi = hi;
		if (lo >= 0) { e->ulo = lo; e->uhi = hi; }
		else if (hi < 0) { e->ulo = (u64) lo & maskw(e->w); e->uhi = (u64) hi & maskw(e->w); }
		else { e->ulo = 0; e->uhi = maskw(e->w); }
	}
	void u2s(Expr *e) {
		u64 sm = (u64) smaxw(e->w);
		if (e->uhi <= sm) { e->slo = e->ulo; e->shi = e->uhi; }
		else if (e->ulo > sm) { e->slo = sextw(e->ulo, e->w); e->shi = sextw(e->uhi, e->w); }
		else { e->slo = sminw(e->w); e->shi = smaxw(e->w); }
	}
	void full(Expr *e) { setu(e, 0, maskw(e->w)); }

	void range(Expr *e) {
		Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
		unsigned w = e->w;
		e->tz = 0;
		full(e);
		switch (e->op) {
		case E_CONST: setu(e, e->c, e->c); e->tz = e->c ? __builtin_ctzll(e->c) : w; break;
		case E_VAR: setu(e, 0, vars[e->c].hi); break;
		case E_ADD: {
			e->tz = std::min(a->tz, b->tz);
			u128 lo = (u128) a->ulo + b->ulo, hi = (u128) a->uhi + b->uhi;
			i128 sl = (i128) a->slo + b->slo, sh = (i128) a->shi + b->shi;
			if (hi <= maskw(w)) setu(e, lo, hi);
			else if (lo > maskw(w) && hi - (u128) maskw(w) - 1 <= maskw(w)) setu(e, lo - maskw(w) - 1, hi - maskw(w) - 1);
			if (sl >= sminw(w) && sh <= smaxw(w) && (u128) (sh - sl) < (u128) (e->shi) - e->slo) sets2(e, sl, sh);
			break; }
		case E_SUB: {
			e->tz = std::min(a->tz, b->tz);
			i128 sl = (i128) a->slo - b->shi, sh = (i128) a->shi - b->slo;
			if (a->ulo >= b->uhi) setu(e, a->ulo - b->uhi, a->uhi - b->ulo);
			else if (sl >= sminw(w) && sh <= smaxw(w)) sets2(e, sl, sh);
			break; }
		case E_MUL: {
			e->tz = std::min<unsigned>(w, a->tz + b->tz);
			u128 hi = (u128) a->uhi * b->uhi;
			if (hi <= maskw(w)) setu(e, a->ulo * b->ulo, hi);
			else {
				i128 p[4] = { (i128) a->slo * b->slo, (i128) a->slo * b->shi, (i128) a->shi * b->slo, (i128) a->shi * b->shi };
				i128 lo = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
				if (lo >= sminw(w) && h <= smaxw(w)) sets2(e, lo, h);
			}
			break; }
		case E_UDIV: if (b->ulo > 0) setu(e, a->ulo / b->uhi, a->uhi / b->ulo); break;
		case E_UREM: if (b->ulo > 0) { if (a->uhi < b->ulo) setu(e, a->ulo, a->uhi); else setu(e, 0, std::min(a->uhi, b->uhi - 1)); } break;
		case E_SDIV:
			if (b->slo > 0) {
				i64 q[4] = { a->slo / b->slo, a->slo / b->shi, a->shi / b->slo, a->shi / b->shi };
				sets2(e, *std::min_element(q, q + 4), *std::max_element(q, q + 4));
			}
			break;
		case E_SREM:
			if (b->slo > 0) {
				i64 m = b->shi - 1;
				i64 lo = a->slo >= 0 ? 0 : std::max(-m, a->slo), hi = a->shi <= 0 ? 0 : std::min(m, a->shi);
				sets2(e, lo, hi);
			}
			break;
		case E_AND:
			e->tz = std::max(a->tz, b->tz);
			setu(e, 0, std::min(a->uhi, b->uhi)); break;
		case E_OR: case E_XOR: {
			e->tz = std::min(a->tz, b->tz);
			u64 m = a->uhi | b->uhi; unsigned n = m ? 64 - __builtin_clzll(m) : 0;
			setu(e, e->op == E_OR ? std::max(a->ulo, b->ulo) : 0, maskw(n) & maskw(w)); if (n == 0) setu(e, 0, 0); break; }
		case E_SHL:
			if (isc(b) && b->c < w) {
				e->tz = std::min<unsigned>(w, a->tz + b->c);
				u128 hi = (u128) a->uhi << b->c;
				if (hi <= maskw(w)) setu(e, a->ulo << b->c, hi);
				else { i128 l = (i128) a->slo * ((i128) 1 << b->c), h = (i128) a->shi * ((i128) 1 << b->c);
					if (l >= sminw(w) && h <= smaxw(w)) sets2(e, l, h); }
			} else if (b->uhi < w) { u128 hi = (u128) a->uhi << b->uhi; if (hi <= maskw(w)) setu(e, a->ulo << b->ulo, hi); e->tz = a->tz; }
			break;
		case E_LSHR: if (isc(b) && b->c < w) setu(e, a->ulo >> b->c, a->uhi >> b->c); else setu(e, 0, a->uhi); break;
		case E_ASHR: if (isc(b) && b->c < w) sets2(e, a->slo >> b->c, a->shi >> b->c); break;
		case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: break;
		case E_ITE:
			e->tz = std::min(b->tz, c->tz);
			e->ulo = std::min(b->ulo, c->ulo); e->uhi = std::max(b->uhi, c->uhi);
			e->slo = std::min(b->slo, c->slo); e->shi = std::max(b->shi, c->shi); break;
		case E_ZEXT: setu(e, a->ulo, a->uhi); e->tz = a->tz; break;
		case E_SEXT: sets2(e, a->slo, a->shi); e->tz = a->tz; break;
		case E_EXTRACT:
			if (e->aux == 0) {
				e->tz = std::min<unsigned>(w, a->tz);
				if (a->uhi <= maskw(w)) setu(e, a->ulo, a->uhi);
				else if (a->slo >= sminw(w) && a->shi <= smaxw(w)) sets2(e, a->slo, a->shi);
			} else if ((a->uhi >> e->aux) <= maskw(w)) {
				setu(e, a->ulo >> e->aux, a->uhi >> e->aux);
			}
			break;
		case E_CONCAT: setu(e, (a->ulo << b->w) | b->ulo, (a->uhi << b->w) | b->uhi); e->tz = b->tz < b->w ? b->tz : std::min<unsigned>(w, b->w + a->tz); break;
		case E_FIX: break;
		}
	}
	void sets2(Expr *e, i64 lo, i64 hi) {	// sets the signed range, intersecting the unsigned one already there
		u64 ul = e->ulo, uh = e->uhi;
		sets(e, lo, hi);
		if (lo < 0 && hi >= 0) { e->ulo = ul; e->uhi = uh; }
	}

	Expr *var(const std::string &name, unsigned w, u64 hi) {
		vars.push_back(VarInfo{name, w, hi, nullptr});
		model.push_back(0);
		epoch++;
		return intern(E_VAR, w, nullptr, nullptr, nullptr, vars.size() - 1);
	}

	std::unordered_map<std::string, Expr*> varcache;
	// the variable called name at position pos of a path; paths that agree on these share it
	Expr *varat(const std::string &name, unsigned w, u64 hi, size_t pos) {
		std::string key = name + "/" + std::to_string(pos) + "/" + std::to_string(w) + "/" + std::to_string(hi);
		auto it = varcache.find(key);
		if (it != varcache.end()) { model[it->second->c] = 0; epoch++; return it->second; }
		return varcache[key] = var(name, w, hi);
	}
	// ------------------------------------------------------------ constructors
	Expr *add(Expr *a, Expr *b) {
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c + b->c, a->w);
		if (isc(b, 0)) return a;
		if (isc(b) && a->op == E_ADD && isc(a->k[1])) return add(a->k[0], con(a->k[1]->c + b->c, a->w));
		if (!isc(b) && a->op == E_ADD && isc(a->k[1])) return add(add(a->k[0], b), a->k[1]);
		if (!isc(b) && b->op == E_ADD && isc(b->k[1])) return add(add(a, b->k[0]), b->k[1]);
		if (a->op == E_SUB && a->k[1] == b) return a->k[0];
		if (b->op == E_SUB && b->k[1] == a) return b->k[0];
		if (isc(b) && a->op == E_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], add(a->k[1], b), add(a->k[2], b));
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		return intern(E_ADD, a->w, a, b);
	}
	Expr *sub(Expr *a, Expr *b) {
		if (isc(b)) return add(a, con(-b->c, a->w));
		if (a == b) return con(0, a->w);
		if (b->op == E_ADD && isc(b->k[1])) return add(sub(a, b->k[0]), con(-b->k[1]->c, a->w));
		if (a->op == E_ADD && isc(a->k[1]) && a->k[0] != b) return add(sub(a->k[0], b), a->k[1]);
		if (a->op == E_ADD && a->k[1] == b) return a->k[0];
		if (a->op == E_ADD && a->k[0] == b) return a->k[1];
		if (cancel(a, b)) return sub(a, b);
		return intern(E_SUB, a->w, a, b);
	}
	// Cancels what the sums a and b have in common; a - b stays the same.
	void terms(Expr *e, int sg, std::vector<std::pair<Expr*, int> > &v) {
		if (v.size() > 80) { v.push_back(std::make_pair(e, sg)); return; }
		if (e->op == E_ADD) { terms(e->k[0], sg, v); terms(e->k[1], sg, v); }
		else if (e->op == E_SUB) { terms(e->k[0], sg, v); terms(e->k[1], -sg, v); }
		else v.push_back(std::make_pair(e, sg));
	}
	bool cancel(Expr *&a, Expr *&b) {
		if (a->w == 1 || (a->op != E_ADD && a->op != E_SUB && b->op != E_ADD && b->op != E_SUB)) return false;
		std::vector<std::pair<Expr*, int> > v;
		terms(a, 1, v); terms(b, -1, v);
		if (v.size() > 80) return false;
		bool any = false;
		for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; v[i].second && j < v.size(); j++)
			if (v[i].first == v[j].first && v[i].second == -v[j].second) { v[i].second = v[j].second = 0; any = true; }
		if (!any) return false;
		Expr *x = con(0, a->w), *y = x;
		for (auto &t : v) { if (t.second > 0) x = add(x, t.first); else if (t.second < 0) y = add(y, t.first); }
		a = x; b = y;
		return true;
	}
	Expr *mul(Expr *a, Expr *b) {
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c * b->c, a->w);
		if (isc(b, 0)) return b;
		if (isc(b, 1)) return a;
		if (isc(b) && a->op == E_MUL && isc(a->k[1])) return mul(a->k[0], con(a->k[1]->c * b->c, a->w));
		if (isc(b) && a->op == E_ADD && isc(a->k[1])) return add(mul(a->k[0], b), con(a->k[1]->c * b->c, a->w));
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		if (a == b && a->op == E_SUB && a->k[0]->id > a->k[1]->id) a = b = sub(a->k[1], a->k[0]);	// (x-y)^2 is (y-x)^2
		if (!isc(b)) {	// multiply in as few bits as the product and the operands need
			i128 p[6] = { (i128) a->slo * b->slo, (i128) a->slo * b->shi, (i128) a->shi * b->slo, (i128) a->shi * b->shi, 0, 0 };
			i128 lo = *std::min_element(p, p + 6), hi = *std::max_element(p, p + 6);
			lo = std::min<i128>(lo, std::min(a->slo, b->slo)); hi = std::max<i128>(hi, std::max(a->shi, b->shi));
			unsigned m = 2;
			while (m < 64 && (lo < sminw(m) || hi > smaxw(m))) m++;
			if (m + 4 <= a->w) { Expr *x = extract(a, 0, m), *y = extract(b, 0, m); if (isc(x) || isc(y)) return sext(mul(x, y), a->w); return sext(intern(E_MUL, m, x, y), a->w); }
		}
		return intern(E_MUL, a->w, a, b);
	}
	Expr *udiv(Expr *a, Expr *b) {
		if (isc(b) && b->c) { if (isc(a)) return con(a->c / b->c, a->w); if (b->c == 1) return a;
			if (!(b->c & (b->c - 1))) return lshr(a, con(__builtin_ctzll(b->c), a->w)); }
		return intern(E_UDIV, a->w, a, b);
	}
	Expr *urem(Expr *a, Expr *b) {
		if (isc(b) && b->c) { if (isc(a)) return con(a->c % b->c, a->w);
			if (a->uhi < b->c) return a;
			if (!(b->c & (b->c - 1))) return and_(a, con(b->c - 1, a->w)); }
		return intern(E_UREM, a->w, a, b);
	}
	Expr *sdiv(Expr *a, Expr *b) {
		if (isc(b) && isc(a) && b->c) { i64 x = sextw(a->c, a->w), y = sextw(b->c, a->w); if (y == -1) return con(-(u64) x, a->w); return con(x / y, a->w); }
		if (a->slo >= 0 && b->slo >= 0) return udiv(a, b);
		return intern(E_SDIV, a->w, a, b);
	}
	Expr *srem(Expr *a, Expr *b) {
		if (isc(b) && isc(a) && b->c) { i64 x = sextw(a->c, a->w), y = sextw(b->c, a->w); if (y == -1) return con(0, a->w); return con(x % y, a->w); }
		if (a->slo >= 0 && b->slo >= 0) return urem(a, b);
		return intern(E_SREM, a->w, a, b);
	}
	Expr *not_(Expr *a) { return xor_(a, con(~0ull, a->w)); }
	Expr *and_(Expr *a, Expr *b) {
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c & b->c, a->w);
		if (a == b) return a;
		if (isc(b, 0)) return b;
		if (isc(b, ~0ull)) return a;
		if (isc(b)) {
			u64 m = a->uhi; unsigned n = m ? 64 - __builtin_clzll(m) : 0;
			if ((b->c & maskw(n)) == (n ? maskw(n) : 0)) return a;	// mask covers the range
			if (a->op == E_AND && isc(a->k[1])) return and_(a->k[0], con(a->k[1]->c & b->c, a->w));
			unsigned bits = 64 - __builtin_clzll(b->c);
			if (b->c == maskw(bits) && bits < a->w) return zext(extract(a, 0, bits), a->w);
			if (a->op == E_ITE && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], and_(a->k[1], b), and_(a->k[2], b));
			if (a->op == E_ZEXT && b->c <= maskw(a->k[0]->w)) return zext(and_(a->k[0], con(b->c, a->k[0]->w)), a->w);
		}
		if (a->w == 1 && isnotof(a, b)) return con(0, 1);
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		return intern(E_AND, a->w, a, b);
	}
	bool isnotof(Expr *a, Expr *b) { return (a->op == E_XOR && a->k[0] == b && isc(a->k[1], ~0ull)) || (b->op == E_XOR && b->k[0] == a && isc(b->k[1], ~0ull)); }
	Expr *or_(Expr *a, Expr *b) {
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c | b->c, a->w);
		if (a == b) return a;
		if (isc(b, 0)) return a;
		if (isc(b, ~0ull)) return b;
		if (a->w == 1 && isnotof(a, b)) return con(1, 1);
		// disjoint bits: turn into add when one side is shifted above the other
		if (!isc(b) && a->tz > 0 && b->uhi < (1ull << std::min<unsigned>(a->tz, 63))) return join(a, b);
		if (!isc(b) && b->tz > 0 && a->uhi < (1ull << std::min<unsigned>(b->tz, 63))) return join(b, a);
		if (a->tz > 0 && b->uhi < (1ull << std::min<unsigned>(a->tz, 63))) return add(a, b);
		if (b->tz > 0 && a->uhi < (1ull << std::min<unsigned>(b->tz, 63))) return add(a, b);
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		return intern(E_OR, a->w, a, b);
	}
	// the bits of b below the lowest bit of a
	Expr *join(Expr *a, Expr *b) { unsigned k = std::min<unsigned>(a->tz, 63); return concat(extract(a, k, a->w - k), extract(b, 0, k)); }
	Expr *xor_(Expr *a, Expr *b) {
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c ^ b->c, a->w);
		if (a == b) return con(0, a->w);
		if (isc(b, 0)) return a;
		if (isc(b) && a->op == E_XOR && isc(a->k[1])) return xor_(a->k[0], con(a->k[1]->c ^ b->c, a->w));
		if (a->w == 1 && isc(b, 1)) {
			if (a->op == E_ULT) return ule(a->k[1], a->k[0]);
			if (a->op == E_ULE) return ult(a->k[1], a->k[0]);
			if (a->op == E_SLT) return sle(a->k[1], a->k[0]);
			if (a->op == E_SLE) return slt(a->k[1], a->k[0]);
		}
		if (isc(b) && a->op == E_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], xor_(a->k[1], b), xor_(a->k[2], b));
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		return intern(E_XOR, a->w, a, b);
	}
	Expr *shl(Expr *a, Expr *b) {
		if (isc(b)) { if (b->c >= a->w) return con(0, a->w); if (isc(a)) return con(a->c << b->c, a->w); if (!b->c) return a;
			return mulpow(a, b); }
		return intern(E_SHL, a->w, a, b);
	}
	Expr *mulpow(Expr *a, Expr *b) {
		if (a->op == E_ADD && isc(a->k[1])) return add(shl(a->k[0], b), con(a->k[1]->c << b->c, a->w));
		return intern(E_SHL, a->w, a, b);
	}
	Expr *lshr(Expr *a, Expr *b) {
		if (isc(b)) { if (b->c >= a->w) return con(0, a->w); if (isc(a)) return con(a->c >> b->c, a->w); if (!b->c) return a;
			if (a->op == E_SHL && isc(a->k[1]) && a->k[1]->c == b->c) { u128 hi = (u128) a->k[0]->uhi << b->c; if (hi <= maskw(a->w)) return a->k[0]; }
			return zext(extract(a, b->c, a->w - b->c), a->w); }
		return intern(E_LSHR, a->w, a, b);
	}
	Expr *ashr(Expr *a, Expr *b) {
		if (isc(b) && isc(a)) return con((u64) (sextw(a->c, a->w) >> std::min<u64>(b->c, 63)), a->w);
		if (isc(b, 0)) return a;
		if (a->slo >= 0) return lshr(a, b);
		if (isc(b) && b->c < a->w && a->op == E_SHL && isc(a->k[1]) && a->k[1]->c == b->c && a->slo >= sminw(a->w)) {
			i128 l = (i128) a->k[0]->slo << b->c, h = (i128) a->k[0]->shi << b->c;
			if (l >= sminw(a->w) && h <= smaxw(a->w)) return a->k[0];
			return sext(extract(a->k[0], 0, a->w - b->c), a->w);
		}
		return intern(E_ASHR, a->w, a, b);
	}
	Expr *eq(Expr *a, Expr *b) {
		if (a == b) return con(1, 1);
		if (isc(a)) std::swap(a, b);
		if (isc(a)) return con(a->c == b->c, 1);
		if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return con(0, 1);
		if (a->w == 1 && isc(b)) return b->c ? a : not_(a);
		if (cancel(a, b)) return eq(a, b);
		if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w) return and_(eq(a->k[0], b->k[0]), eq(a->k[1], b->k[1]));
		if (isc(b)) {
			if (a->op == E_ADD && isc(a->k[1])) return eq(a->k[0], con(b->c - a->k[1]->c, a->w));
			if (a->op == E_MUL && isc(a->k[1]) && a->k[1]->c && (u128) a->k[0]->uhi * a->k[1]->c <= maskw(a->w)) {
				if (b->c % a->k[1]->c) return con(0, 1);
				return eq(a->k[0], con(b->c / a->k[1]->c, a->w));
			}
			if (a->op == E_XOR && isc(a->k[1])) return eq(a->k[0], con(b->c ^ a->k[1]->c, a->w));
			if (a->op == E_ZEXT) return eq(a->k[0], con(b->c, a->k[0]->w));	// range check above made it fit
			if (a->op == E_SEXT) { Expr *k = a->k[0]; if ((u64) sextw(b->c & maskw(k->w), k->w) != (u64) sextw(b->c, a->w)) return con(0, 1); return eq(k, con(b->c, k->w)); }
			if (a->op == E_ITE) {
				Expr *x = a->k[1], *y = a->k[2];
				if (isc(x) || isc(y)) { Expr *p = eq(x, b), *q = eq(y, b); return ite(a->k[0], p, q); }
			}
			if (a->op == E_CONCAT) return and_(eq(a->k[0], con(b->c >> a->k[1]->w, a->k[0]->w)), eq(a->k[1], con(b->c, a->k[1]->w)));
			if (a->op == E_SHL && isc(a->k[1])) {
				u128 hi = (u128) a->k[0]->uhi << a->k[1]->c;
				if (hi <= maskw(a->w)) { if (b->c & maskw(a->k[1]->c)) return con(0, 1); return eq(a->k[0], con(b->c >> a->k[1]->c, a->w)); }
			}
		}
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
		if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
		if (!isc(b) && a->id > b->id) std::swap(a, b);
		return intern(E_EQ, 1, a, b);
	}
	Expr *ult(Expr *a, Expr *b) {
		if (a == b) return con(0, 1);
		if (isc(a) && isc(b)) return con(a->c < b->c, 1);
		if (a->uhi < b->ulo) return con(1, 1);
		if (a->ulo >= b->uhi) return con(0, 1);
		if (isc(b, 1)) return eq(a, con(0, a->w));
		if (a->w == 1) return and_(not_(a), b);
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return ult(a->k[0], b->k[0]);
		if (a->op == E_ZEXT && isc(b) && b->c <= maskw(a->k[0]->w)) return ult(a->k[0], con(b->c, a->k[0]->w));
		if (b->op == E_ZEXT && isc(a) && a->c <= maskw(b->k[0]->w)) return ult(con(a->c, b->k[0]->w), b->k[0]);
		if (isc(b) && a->op == E_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
		return intern(E_ULT, 1, a, b);
	}
	Expr *ule(Expr *a, Expr *b) {
		if (a == b) return con(1, 1);
		if (isc(a) && isc(b)) return con(a->c <= b->c, 1);
		if (a->uhi <= b->ulo) return con(1, 1);
		if (a->ulo > b->uhi) return con(0, 1);
		if (isc(b, 0)) return eq(a, b);
		if (a->w == 1) return or_(not_(a), b);
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return ule(a->k[0], b->k[0]);
		if (a->op == E_ZEXT && isc(b) && b->c <= maskw(a->k[0]->w)) return ule(a->k[0], con(b->c, a->k[0]->w));
		if (b->op == E_ZEXT && isc(a) && a->c <= maskw(b->k[0]->w)) return ule(con(a->c, b->k[0]->w), b->k[0]);
		return intern(E_ULE, 1, a, b);
	}
	Expr *slt(Expr *a, Expr *b) {
		if (a == b) return con(0, 1);
		if (a->shi < b->slo) return con(1, 1);
		if (a->slo >= b->shi) return con(0, 1);
		if (a->slo >= 0 && b->slo >= 0) return ult(a, b);
		if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return slt(a->k[0], b->k[0]);
		return intern(E_SLT, 1, a, b);
	}
	Expr *sle(Expr *a, Expr *b) {
		if (a == b) return con(1, 1);
		if (a->shi <= b->slo) return con(1, 1);
		if (a->slo > b->shi) return con(0, 1);
		if (a->slo >= 0 && b->slo >= 0) return ule(a, b);
		if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return sle(a->k[0], b->k[0]);
		return intern(E_SLE, 1, a, b);
	}
	Expr *ite(Expr *c, Expr *a, Expr *b) {
		if (isc(c)) return c->c ? a : b;
		if (a == b) return a;
		if (a->w == 1) {
			if (isc(a)) return a->c ? or_(c, b) : and_(not_(c), b);
			if (isc(b)) return b->c ? or_(not_(c), a) : and_(c, a);
		}
		if (c->op == E_XOR && c->w == 1 && isc(c->k[1], 1)) return ite(c->k[0], b, a);
		if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
		if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
		if (a == b) return a;
		if (b->op == E_ITE && b->k[1] == a) return ite(or_(c, b->k[0]), a, b->k[2]);
		if (a->op == E_FIX || b->op == E_FIX) {
			// callers align scales first
			if (a->op == E_FIX && b->op == E_FIX && a->aux == b->aux) return fix(ite(c, a->k[0], b->k[0]), a->aux, a->w);
			abort();
		}
		return intern(E_ITE, a->w, c, a, b);
	}
	Expr *zext(Expr *a, unsigned w) {
		if (w == a->w) return a;
		if (isc(a)) return con(a->c, w);
		if (a->op == E_ZEXT) return zext(a->k[0], w);
		if (a->op == E_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
		return intern(E_ZEXT, w, a);
	}
	Expr *sext(Expr *a, unsigned w) {
		if (w == a->w) return a;
		if (isc(a)) return con((u64) sextw(a->c, a->w), w);
		if (a->slo >= 0) return zext(a, w);
		if (a->op == E_SEXT) return sext(a->k[0], w);
		if (a->op == E_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
		return intern(E_SEXT, w, a);
	}
	Expr *extract(Expr *a, unsigned lo, unsigned w) {
		if (lo == 0 && w == a->w) return a;
		if (isc(a)) return con(a->c >> lo, w);
		switch (a->op) {
		case E_EXTRACT: return extract(a->k[0], a->aux + lo, w);
		case E_ZEXT:
			if (lo >= a->k[0]->w) return con(0, w);
			if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
			return zext(extract(a->k[0], lo, a->k[0]->w - lo), w);
		case E_SEXT:
			if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
			if (lo < a->k[0]->w) return sext(extract(a->k[0], lo, a->k[0]->w - lo), w);
			break;
		case E_CONCAT:
			if (lo + w <= a->k[1]->w) return extract(a->k[1], lo, w);
			if (lo >= a->k[1]->w) return extract(a->k[0], lo - a->k[1]->w, w);
			break;
		case E_ITE:
			if (isc(a->k[1]) || isc(a->k[2])) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
			break;
		case E_AND: case E_OR: case E_XOR:
			if (isc(a->k[1])) { Expr *x = extract(a->k[0], lo, w), *y = extract(a->k[1], lo, w);
				return a->op == E_AND ? and_(x, y) : a->op == E_OR ? or_(x, y) : xor_(x, y); }
			break;
		case E_ADD: case E_SUB: case E_MUL:
			if (lo == 0) { Expr *x = extract(a->k[0], 0, w), *y = extract(a->k[1], 0, w);
				return a->op == E_ADD ? add(x, y) : a->op == E_SUB ? sub(x, y) : mul(x, y); }
			break;
		case E_SHL:
			if (isc(a->k[1]) && a->k[1]->c < a->w && lo >= a->k[1]->c) return extract(a->k[0], lo - a->k[1]->c, w);
			if (lo == 0 && isc(a->k[1])) return shl(extract(a->k[0], 0, w), con(std::min<u64>(a->k[1]->c, 64) >= w ? maskw(w) : a->k[1]->c, w));
			break;
		default: break;
		}
		return intern(E_EXTRACT, w, a, nullptr, nullptr, 0, lo);
	}
	Expr *concat(Expr *hi, Expr *lo) {
		unsigned w = hi->w + lo->w;
		if (isc(hi) && isc(lo)) return con(hi->c << lo->w | lo->c, w);
		if (isc(hi, 0)) return zext(lo, w);
		if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
			return extract(hi->k[0], lo->aux, w);
		// zext pieces: concat(zext(extract(x,..)), extract) etc.
		return intern(E_CONCAT, w, hi, lo);
	}
	Expr *fix(Expr *n, unsigned k, unsigned w) {
		// normalise common trailing zeros away to keep scales small
		return intern(E_FIX, w, n, nullptr, nullptr, 0, k);
	}

	// ------------------------------------------------------------ evaluation under the model
	u64 eval(Expr *e) {
		if (e->op == E_CONST) return e->c;
		if (e->op == E_VAR) return model[e->c];
		if (e->ep == epoch) return e->ev;
		u64 r = evalop(e) & maskw(e->w);
		e->ep = epoch; e->ev = r;
		return r;
	}
	u64 evalop(Expr *e) {
		unsigned w = e->w;
		switch (e->op) {
		case E_ITE: return eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]);
		case E_ZEXT: return eval(e->k[0]);
		case E_SEXT: return (u64) sextw(eval(e->k[0]), e->k[0]->w);
		case E_EXTRACT: return eval(e->k[0]) >> e->aux;
		case E_CONCAT: return eval(e->k[0]) << e->k[1]->w | eval(e->k[1]);
		case E_FIX: { double d = __builtin_ldexp((double) (i64) eval(e->k[0]), -(int) e->aux);
			if (w == 64) { u64 r; memcpy(&r, &d, 8); return r; }
			float f = d; u32 r; memcpy(&r, &f, 4); return r; }
		default: break;
		}
		u64 a = eval(e->k[0]), b = eval(e->k[1]); unsigned kw = e->k[0]->w;
		switch (e->op) {
		case E_ADD: return a + b; case E_SUB: return a - b; case E_MUL: return a * b;
		case E_UDIV: return b ? a / b : ~0ull; case E_UREM: return b ? a % b : a;
		case E_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : ~0ull; if (y == -1) return -(u64) x; return x / y; }
		case E_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x; if (y == -1) return 0; return x % y; }
		case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
		case E_SHL: return b >= w ? 0 : a << b;
		case E_LSHR: return b >= w ? 0 : a >> b;
		case E_ASHR: return (u64) (sextw(a, w) >> std::min<u64>(b, 63));
		case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
		case E_SLT: return sextw(a, kw) < sextw(b, kw); case E_SLE: return sextw(a, kw) <= sextw(b, kw);
		default: abort();
		}
	}

	// ------------------------------------------------------------ Z3
	Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
	Z3_ast zc(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
	Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, zc(1, 1), zc(0, 1)); }
	Z3_ast bv2b(Z3_ast b) { return Z3_mk_eq(ctx, b, zc(1, 1)); }
	// width-1 expressions are translated to Bool; others to bit-vectors
	Z3_ast zb(Expr *e) {	// as Bool
		return z(e);
	}
	Z3_ast zv(Expr *e) {	// as bit-vector
		Z3_ast r = z(e);
		return e->w == 1 ? b2bv(r) : r;
	}
	Z3_ast zlow(Expr *e, unsigned m) {	// the low m bits of e, m > 1
		if (m >= e->w) return z(e);
		if (e->zn && e->zm == m) return e->zn;
		Z3_ast r;
		Expr *a = e->k[0], *b = e->k[1];
		switch (e->op) {
		case E_CONST: r = zc(e->c & maskw(m), m); break;
		case E_ADD: r = Z3_mk_bvadd(ctx, zlow(a, m), zlow(b, m)); break;
		case E_SUB: r = Z3_mk_bvsub(ctx, zlow(a, m), zlow(b, m)); break;
		case E_MUL: r = Z3_mk_bvmul(ctx, zlow(a, m), zlow(b, m)); break;
		case E_ITE: r = Z3_mk_ite(ctx, z(a), zlow(b, m), zlow(e->k[2], m)); break;
		case E_ZEXT: case E_SEXT:
			if (a->w >= m && a->w > 1) r = zlow(a, m);
			else r = e->op == E_ZEXT ? Z3_mk_zero_ext(ctx, m - a->w, zv(a)) : Z3_mk_sign_ext(ctx, m - a->w, zv(a));
			break;
		default: r = Z3_mk_extract(ctx, m - 1, 0, zv(e));
		}
		e->zn = r; e->zm = m;
		return r;
	}
	Z3_ast z(Expr *e) {
		if (e->z) return e->z;
		Z3_ast r;
		bool B = e->w == 1;
		Expr *a = e->k[0], *b = e->k[1];
		switch (e->op) {
		case E_CONST: r = B ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : zc(e->c, e->w); break;
		case E_VAR: {
			char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long) e->c);
			r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), B ? Z3_mk_bool_sort(ctx) : bvs(e->w));
			vars[e->c].z = r; break; }
		case E_ADD: case E_SUB: case E_MUL: {
			if (B) { Z3_ast k[2] = { z(a), z(b) }; r = e->op == E_MUL ? Z3_mk_and(ctx, 2, k) : Z3_mk_xor(ctx, k[0], k[1]); break; }
			unsigned m = 2;	// compute in as few bits as the value needs
			while (m < e->w && (e->slo < sminw(m) || e->shi > smaxw(m))) m++;
			if (m + 3 <= e->w) { r = Z3_mk_sign_ext(ctx, e->w - m, zlow(e, m)); break; }
			r = e->op == E_ADD ? Z3_mk_bvadd(ctx, z(a), z(b)) : e->op == E_SUB ? Z3_mk_bvsub(ctx, z(a), z(b)) : Z3_mk_bvmul(ctx, z(a), z(b)); break; }
#if 0
		case E_ADD: r = B ? Z3_mk_xor(ctx, z(a), z(b)) : Z3_mk_bvadd(ctx, z(a), z(b)); break;
		case E_SUB: r = B ? Z3_mk_xor(ctx, z(a), z(b)) : Z3_mk_bvsub(ctx, z(a), z(b)); break;
		case E_MUL: if (B) { Z3_ast k[2] = { z(a), z(b) }; r = Z3_mk_and(ctx, 2, k); } else r = Z3_mk_bvmul(ctx, z(a), z(b)); break;
#endif
		case E_UDIV: r = Z3_mk_bvudiv(ctx, zv(a), zv(b)); goto fixb;
		case E_SDIV: r = Z3_mk_bvsdiv(ctx, zv(a), zv(b)); goto fixb;
		case E_UREM: r = Z3_mk_bvurem(ctx, zv(a), zv(b)); goto fixb;
		case E_SREM: r = Z3_mk_bvsrem(ctx, zv(a), zv(b)); goto fixb;
		case E_AND: if (B) { Z3_ast k[2] = { z(a), z(b) }; r = Z3_mk_and(ctx, 2, k); } else r = Z3_mk_bvand(ctx, z(a), z(b)); break;
		case E_OR: if (B) { Z3_ast k[2] = { z(a), z(b) }; r = Z3_mk_or(ctx, 2, k); } else r = Z3_mk_bvor(ctx, z(a), z(b)); break;
		case E_XOR: if (B) r = isc(b, 1) ? Z3_mk_not(ctx, z(a)) : Z3_mk_xor(ctx, z(a), z(b)); else r = Z3_mk_bvxor(ctx, z(a), z(b)); break;
		case E_SHL: r = Z3_mk_bvshl(ctx, zv(a), zv(b)); goto fixb;
		case E_LSHR: r = Z3_mk_bvlshr(ctx, zv(a), zv(b)); goto fixb;
		case E_ASHR: r = Z3_mk_bvashr(ctx, zv(a), zv(b)); goto fixb;
		case E_EQ: r = Z3_mk_eq(ctx, z(a), z(b)); break;
		case E_ULT: r = Z3_mk_bvult(ctx, zv(a), zv(b)); break;
		case E_ULE: r = Z3_mk_bvule(ctx, zv(a), zv(b)); break;
		case E_SLT: r = Z3_mk_bvslt(ctx, zv(a), zv(b)); break;
		case E_SLE: r = Z3_mk_bvsle(ctx, zv(a), zv(b)); break;
		case E_ITE: r = Z3_mk_ite(ctx, z(a), z(b), z(e->k[2])); break;
		case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - a->w, zv(a)); break;
		case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - a->w, zv(a)); break;
		case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, zv(a)); goto fixb;
		case E_CONCAT: r = Z3_mk_concat(ctx, zv(a), zv(b)); break;
		default: fprintf(stderr, "engine: no Z3 form for op %d\n", e->op); abort();
		fixb: if (B) r = bv2b(r); break;
		}
		e->z = r;
		return r;
	}

	std::string str(Expr *e, int depth = 4) {
		static const char *nm[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "fix" };
		char b[64];
		if (e->op == E_CONST) { snprintf(b, 64, "%lld:%d", (long long) sextw(e->c, e->w), e->w); return b; }
		if (e->op == E_VAR) return vars[e->c].name;
		if (!depth) return "...";
		std::string s = "("; s += nm[e->op]; snprintf(b, 64, ":%d", e->w); s += b;
		if (e->aux) { snprintf(b, 64, "@%d", e->aux); s += b; }
		for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + str(e->k[i], depth - 1);
		return s + ")";
	}
};
