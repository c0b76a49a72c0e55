// T03/T04: the hash tables against a list of their elements, for every hash function.  KIND 3: ClosedList, 4: Htable.
#include "utils/utils.hpp"
#include "search/search.hpp"
#include "search/closedlist.hpp"
#include "structs/htable.hpp"
#include "sym.h"
#include <cstring>

static long hv[NKEYS];
static int hset[NKEYS];
static unsigned long hashof(int k) {
	if (!hset[k]) { hset[k] = 1; hv[k] = sym_conc(sym_range("hash", 0, HHI)); }
	return hv[k];
}
static int ident;
static char out[4096];
struct Dom {
	int me;
	struct PackedState {
		int k;
		unsigned long hash(Dom *d) const { sym_assert(d->me == 77, "the domain is passed on"); return hashof(k); }
		bool eq(Dom *d, const PackedState &o) const { sym_assert(d->me == 77, "the domain is passed on"); return k == o.k; }
	};
};
struct Elm { ClosedEntry<Elm, Dom> cent; HtableEntry<Elm> hent; Dom::PackedState k; int id; };
#if KIND == 3
struct Ops {
	static ClosedEntry<Elm, Dom> &closedentry(Elm *e) { return e->cent; }
	static Dom::PackedState &key(Elm *e) { return e->k; }
};
struct T {
	ClosedList<Ops, Elm, Dom> t; Dom d;
	T(int sz) : t(sz) { d.me = 77; t.init(d); }
	void add(Elm *e, int h) { if (h) t.add(e, hashof(e->k.k)); else t.add(e); }
	Elm *find(int k, int h) { Dom::PackedState p; p.k = k; return h ? t.find(p, hashof(k)) : t.find(p); }
	Elm *rm(int k, int h) { Dom::PackedState p; p.k = k; return h ? t.remove(p, hashof(k)) : t.remove(p); }
	void clear() { t.clear(); }
};
#else
struct Ops {
	static HtableEntry<Elm> &entry(Elm *e) { return e->hent; }
	static int key(Elm *e) { return e->k.k; }
	static unsigned long hash(int k) { return hashof(k); }
};
struct T {
	Htable<Ops, int, Elm> t;
	T(int sz) : t(sz) { }
	void add(Elm *e, int h) { if (h) t.add(e, hashof(e->k.k)); else t.add(e); }
	Elm *find(int k, int h) { return h ? t.find(k, hashof(k)) : t.find(k); }
	bool rm(int k, int h) { return h ? t.rm(k, hashof(k)) : t.rm(k); }
	void clear() { t.clear(); }
};
#endif
static Elm el[NKEYS];	// the element of each key
static bool in[NKEYS];
static void check(T &t) {
	unsigned long n = 0;
	for (int k = 0; k < NKEYS; k++) {
		n += in[k];
		if (!in[k] && !hset[k]) continue;
		sym_assert(t.find(k, k & 1) == (in[k] ? &el[k] : 0), "a lookup finds exactly the element that was added");
	}
#if KIND == 3
	sym_assert(t.t.getFill() == n && t.t.empty() == (n == 0), "the number of elements is right");
	bool seen[NKEYS] = {};
	unsigned long m = 0;
	for (auto it = t.t.begin(); it != t.t.end(); ++it) {
		Elm *e = *it;
		sym_assert(m++ < n, "an iteration ends");
		sym_assert(e >= el && e < el + NKEYS && in[e->id] && !seen[e->id], "an iteration gives every element once");
		seen[e->id] = true;
	}
	sym_assert(m == n, "an iteration gives every element");
#endif
}
extern "C" void sym_main() {
	for (int i = 0; i < NKEYS; i++) { el[i].k.k = i; el[i].id = i; }
	T &t = *new T(sym_conc(sym_range("size", SZLO, SZHI)));
	for (int i = 0; i < PRELOAD; i++) { in[i] = true; t.add(&el[i], i & 1); }
	int nadd = PRELOAD;
	check(t);
	for (int step = 0; step < STEPS; step++) {
		switch (sym_conc(sym_range("op", 0, 3))) {
		case 0: {	// keys are added in order the first time, which loses nothing: the hash function is arbitrary
			int k = sym_conc(sym_range("key", 0, nadd < NKEYS ? nadd : NKEYS - 1));
			if (in[k]) sym_done();
			if (k == nadd) nadd++;
			in[k] = true; t.add(&el[k], step & 1); sym_cover("add"); break; }
		case 1: {
			if (!nadd) sym_done();
			int k = sym_conc(sym_range("key", 0, nadd - 1));
#if KIND == 3
			sym_assert(t.rm(k, step & 1) == (in[k] ? &el[k] : 0), "removal gives the element, if there");
#else
			sym_assert(t.rm(k, step & 1) == in[k], "removal says whether the element was there");
#endif
			sym_cover(in[k] ? "rm" : "rmnone"); in[k] = false; break; }
		case 2: { if (nadd == NKEYS) sym_done();	// a key that never was there
			sym_assert(t.find(nadd, step & 1) == 0, "a lookup of an absent key finds nothing"); sym_cover("absent"); break; }
		case 3: t.clear(); for (int i = 0; i < NKEYS; i++) in[i] = false; sym_cover("clear"); break;
		}
		check(t);
	}
	delete &t;
}
