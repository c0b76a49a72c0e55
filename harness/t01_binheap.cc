// T01: BinHeap against its contract, over symbolic operation sequences and priorities.
#include "structs/binheap.hpp"
#include "sym.h"
#include <vector>
#include <cassert>

struct Elm { int key; long ind; int id; };
struct Ops {
	static bool pred(const Elm *a, const Elm *b) { return a->key < b->key; }
	static void setind(Elm *e, long i) { e->ind = i; }
};
typedef BinHeap<Ops, Elm*> Heap;
static Elm pool[256];
static int npool;
static bool in[256];	// who should be in the heap

static void valid(Heap &h) {
	long n = 0;
	for (int i = 0; i < npool; i++) if (in[i]) n++;
	sym_assert(h.size() == n, "size() is the number of elements pushed and not yet popped");
	sym_assert(h.empty() == (n == 0), "empty() exactly when there are no elements");
	bool seen[256] = {};
	for (long i = 0; i < n; i++) {
		Elm *e = h.at(i);
		sym_assert(e >= pool && e < pool + npool, "at() gives an element that was pushed");
		sym_assert(in[e->id] && !seen[e->id], "at() gives each element once");
		seen[e->id] = true;
		sym_assert(e->ind == i, "the recorded index of an element locates it");
	}
	for (int i = 0; i < npool; i++)
		if (!in[i] && pool[i].ind != -2) sym_assert(pool[i].ind == -1, "a popped element's index is -1");
}
static void least(Heap &h, Elm *e, const char *msg) {
	int ok = 1;
	for (int i = 0; i < npool; i++) if (in[i]) ok &= e->key <= pool[i].key;
	sym_assert(ok, msg);
}
static Elm *mk(int key) { if (npool >= BIG + MAXN) sym_done(); Elm *e = &pool[npool]; e->key = key; e->ind = -2; e->id = npool++; in[e->id] = false; return e; }
static void pop(Heap &h) {
	boost::optional<Elm*> f = h.front(), p;
	long n = 0;
	for (int i = 0; i < npool; i++) if (in[i]) n++;
	sym_assert(!!f == (n > 0), "front() is empty exactly when the heap is");
	if (f) least(h, *f, "front() is a least element");
	p = h.pop();
	sym_assert(!!p == (n > 0), "pop() is empty exactly when the heap is");
	if (!p) return;
	sym_assert(*p >= pool && *p < pool + npool && in[(*p)->id], "pop() gives an element of the heap");
	least(h, *p, "pop() is a least element");
	in[(*p)->id] = false;
}

extern "C" void sym_main() {
	Heap h;
	// a heap that already holds BIG elements with fixed priorities
	for (int i = 0; i < BIG; i++) { Elm *e = mk((i * 37 % BIG) * 4); h.push(e); in[e->id] = true; }
	if (BIG) valid(h);
	for (int step = 0; step < STEPS; step++) {
		long op = sym_conc(sym_range("op", 0, BIG ? 3 : 6));
		switch (op) {
		case 0: { Elm *e = mk(sym_int("key", KLO, KHI)); in[e->id] = true; h.push(e); sym_cover("push"); break; }
		case 1: pop(h); sym_cover("pop"); break;
		case 2: {	// priority change of any element, followed by update
			if (h.size() == 0) sym_done();
			long i = sym_conc(sym_range("at", 0, h.size() - 1));
			Elm *e = h.at(i);
			e->key = sym_int("newkey", KLO, KHI);
			h.update(e->ind);
			sym_cover("update"); break; }
		case 3: {	// pushupdate, both ways
			if (npool && sym_conc(sym_bool("old"))) {
				Elm *e = &pool[sym_conc(sym_range("who", 0, npool - 1))];
				if (!in[e->id]) e->ind = -1;
				e->key = sym_int("newkey", KLO, KHI);
				in[e->id] = true;
				h.pushupdate(e, e->ind);
			} else { Elm *e = mk(sym_int("key", KLO, KHI)); e->ind = -1; in[e->id] = true; h.pushupdate(e, e->ind); }
			sym_cover("pushupdate"); break; }
		case 4: {
			std::vector<Elm*> v;
			long n = sym_conc(sym_range("n", 0, 3));
			for (long i = 0; i < n; i++) { Elm *e = mk(sym_int("key", KLO, KHI)); in[e->id] = true; v.push_back(e); }
			h.append(v); sym_cover("append"); break; }
		case 5: h.clear(); for (int i = 0; i < npool; i++) { in[i] = false; pool[i].ind = -2; } sym_cover("clear"); break;
		case 6: {	// change priorities wholesale through data(), then reinit
			std::vector<Elm*> &d = h.data();
			for (size_t i = 0; i < d.size(); i++) d[i]->key = sym_int("newkey", KLO, KHI);
			h.reinit(); sym_cover("reinit"); break; }
		}
		valid(h);
	}
	for (int i = 0; i < npool + 1; i++) { pop(h); valid(h); }
	sym_assert(h.empty(), "popping everything empties the heap");
	sym_cover("drained");
}
