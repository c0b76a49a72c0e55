// T08: the object pool, over every sequence of allocations and releases.
#include "utils/pool.hpp"
#include "sym.h"
#include <new>
static int made, gone;
template <int W> struct Obj {
	long a; char pad[W];
	Obj() { made++; a = 4711; pad[0] = pad[W - 1] = 3; }
	~Obj() { gone++; }
};
typedef Obj<OBJW> O;
static O *live[MAXN]; static long val[MAXN]; static int n;
static void check() {
	for (int i = 0; i < n; i++) {
		if (!live[i]) continue;
		sym_assert(live[i]->a == val[i] && live[i]->pad[0] == (char) i && live[i]->pad[OBJW - 1] == (char) i, "a live object keeps its contents");
		for (int j = 0; j < i; j++) if (live[j])
			sym_assert((char*) live[i] >= (char*) (live[j] + 1) || (char*) live[j] >= (char*) (live[i] + 1), "live objects do not overlap");
	}
}
extern "C" void sym_main() {
	Pool<O> &p = *new Pool<O>(sym_conc(sym_range("block", 1, BLK)));
	int m = 0, g = 0;
	for (int st = 0; st < STEPS; st++) {
		switch (sym_conc(sym_range("op", 0, 3))) {
		case 0: { O *o = p.construct(); m++;
			sym_assert(o->a == 4711 && o->pad[0] == 3 && o->pad[OBJW - 1] == 3, "a new object is constructed");
			live[n] = o; val[n] = o->a = sym_range("value", 0, 1 << 30); o->pad[0] = o->pad[OBJW - 1] = n; n++; sym_cover("construct"); break; }
		case 1: { O *o = p.get(); live[n] = o; val[n] = o->a = sym_range("value", 0, 1 << 30); o->pad[0] = o->pad[OBJW - 1] = n; n++; sym_cover("get"); break; }
		case 2: case 3: { if (!n) sym_done(); int i = sym_conc(sym_range("who", 0, n - 1)); if (!live[i]) sym_done();
			if (st & 1) { p.destruct(live[i]); g++; sym_cover("destruct"); } else { p.put(live[i]); sym_cover("put"); }
			live[i] = 0; break; }
		}
		check();
		sym_assert(made == m && gone == g, "constructors and destructors run once per object");
		sym_assert(p.blocks() >= 1 && p.blocks() <= (unsigned long) (st + 1), "blocks are added only when needed");
	}
	delete &p;
	sym_cover("end");
}
