// T02: the bucketed queues against their contract.  KIND 0: Intpq, 1: OpenList with integer keys, 2: OpenList on a heap.
#include "utils/utils.hpp"
#include "search/search.hpp"
#include "structs/intpq.hpp"
#include "sym.h"

struct Elm { IntpqEntry<Elm> ent; int key, tie; int ind; int id; };
struct Qops { static IntpqEntry<Elm> &entry(Elm *e) { return e->ent; } };
struct Iops {
	static void setind(Elm *e, int i) { e->ind = i; }
	static int getind(const Elm *e) { return e->ind; }
	static IntOpenCost prio(const Elm *e) { return e->key; }
	static IntOpenCost tieprio(const Elm *e) { return e->tie; }
	static bool pred(const Elm *a, const Elm *b) { return a->key < b->key || (a->key == b->key && a->tie > b->tie); }
};
#if KIND == 0
struct Q {
	Intpq<Qops, Elm> q;
	Q() : q(sym_conc(sym_range("size", 0, 3))) { }
	void push(Elm *e) { q.push(e, e->key); }
	Elm *pop() { return q.pop(); }
	void rekey(Elm *e, int k, int) { if (q.mem(e)) q.rm(e, e->key); e->key = k; q.push(e, k); }
	bool empty() { return q.empty(); }
	bool mem(Elm *e) { return q.mem(e); }
	void rm(Elm *e) { q.rm(e, e->key); }
	void clear() { q.clear(); }
};
#else
struct Q {
#if KIND == 1
	OpenList<Iops, Elm, IntOpenCost> q;
#else
	OpenList<Iops, Elm, double> q;
#endif
	void push(Elm *e) { q.push(e); }
	Elm *pop() { return q.pop(); }
	void rekey(Elm *e, int k, int t) { q.pre_update(e); e->key = k; e->tie = t; q.post_update(e); }
	bool empty() { return q.empty(); }
	bool mem(Elm *e) { return q.mem(e); }
	void clear() { q.clear(); }
};
#endif
static Elm el[MAXN];
static bool in[MAXN];
static int n;
static int key() {
	long k = sym_range("key", 0, KHI);
#ifdef KEYS
	static const int ks[] = { KEYS };
	k = ks[sym_conc(k)];
#endif
	return KIND == 2 ? k : sym_conc(k);
}
static int tie() { if (KIND == 0) return 0; long k = sym_range("tie", 0, THI);
#ifdef TIES
	static const int ks[] = { TIES };
	k = ks[sym_conc(k)];
#endif
	return KIND == 2 ? k : sym_conc(k); }
static void check(Q &q) {
	int m = 0;
	for (int i = 0; i < n; i++) {
		if (in[i]) m++;
		sym_assert(q.mem(&el[i]) == in[i], "membership is as pushed and popped");
	}
	sym_assert(q.empty() == (m == 0), "empty exactly when nothing is left");
}
static bool pop(Q &q) {
	int m = 0;
	for (int i = 0; i < n; i++) m += in[i];
	if (KIND == 1 && m == 0) return false;	// its callers only pop when it is not empty
	Elm *e = q.pop();
	sym_assert((e != 0) == (m > 0), "an element exactly when there is one");
	if (!e) return false;
	sym_assert(e >= el && e < el + n && in[e->id], "a popped element was in the queue");
	for (int i = 0; i < n; i++) if (in[i])
		sym_assert(e->key < el[i].key || (e->key == el[i].key && e->tie >= el[i].tie), "a popped element has the least key and, for ties, the greatest second key");
	in[e->id] = false;
	return true;
}
extern "C" void sym_main() {
	Q &q = *new Q;
#ifdef PRELOAD
	{ static const int ks[] = { PRELOAD };
	for (unsigned i = 0; i < sizeof ks / sizeof *ks; i += 2) { Elm *e = &el[n]; e->id = n; e->key = ks[i]; e->tie = KIND ? ks[i+1] : 0; e->ind = -1; in[n++] = true; q.push(e); } }
	check(q);
#endif
	int lim = n + MAXNEW;
	for (int step = 0; step < STEPS; step++) {
		switch (sym_conc(sym_range("op", 0, KIND == 0 ? 4 : 3))) {
		case 0: { if (n == lim) sym_done(); Elm *e = &el[n]; e->id = n; e->key = key(); e->tie = tie(); e->ind = -1; in[n++] = true; q.push(e); sym_cover("push"); break; }
		case 1: if (!pop(q)) sym_done(); sym_cover("pop"); break;
		case 2: {	// give an element new keys, putting it back if it is not there
			if (!n) sym_done();
			int i = sym_conc(sym_range("who", 0, n - 1));
			q.rekey(&el[i], key(), tie()); in[i] = true; sym_cover("rekey"); break; }
		case 3: q.clear(); for (int i = 0; i < n; i++) { in[i] = false; el[i].ent.prev = 0; el[i].ind = -1; } sym_cover("clear"); break;
#if KIND == 0
		case 4: {
			if (!n) sym_done();
			int i = sym_conc(sym_range("who", 0, n - 1));
			if (!in[i]) sym_done();
			q.rm(&el[i]); in[i] = false; sym_cover("rm"); break; }
#endif
		}
		check(q);
	}
	while (pop(q)) check(q);
	check(q);
	sym_cover("drained");
	delete &q;
}
