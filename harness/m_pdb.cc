// M04: pattern database tables.
#include <cstdio>
#include <cstring>
#include <cassert>
#include <vector>
#include "utils/utils.hpp"
#include "tiles/tiles.hpp"
#define private public
#define protected public
#include "tiles/pdb.cc"
#undef private
#undef protected
#include "sym.h"
enum { N = WIDTH * HEIGHT };
static void arrange(const char *name, unsigned *p) {
	for (int i = 0; i < PAT; i++) { p[i] = sym_int(name, 0, N - 1); for (int j = 0; j < i; j++) sym_assume(p[i] != p[j]); }
}
extern "C" void sym_main() {
	unsigned pat[PAT]; for (int i = 0; i < PAT; i++) pat[i] = i + 1;
	PDB &db = *new PDB(PAT, pat);
	unsigned long n = 1, sz = 1;
	for (int i = 0; i < PAT; i++) n *= N - i, sz *= N;
	sym_assert(db.numentries() == n, "one entry per arrangement");
	sym_assert(db.costssz >= n && db.costssz <= sz, "the size of the table");
	for (unsigned long i = 0; i < db.costssz && i < 5000; i++) sym_assert(db.costs[i] == 0, "the costs start at 0");
	unsigned p[PAT], q[PAT]; unsigned char pc[PAT];
	arrange("first", p);
	unsigned long a = db.poscost(p) - db.costs;
	sym_assert(a < db.costssz, "the entry is in the table");
	for (int i = 0; i < PAT; i++) pc[i] = p[i];
	sym_assert((unsigned long) (db.poscost(pc) - db.costs) == a, "the same entry for positions in bytes");
#if PAIR
	arrange("second", q);
	int same = 1;
	for (int i = 0; i < PAT; i++) same &= p[i] == q[i];
	unsigned long b = db.poscost(q) - db.costs;
	sym_assert((a == b) == same, "different arrangements have different entries");
#endif
	sym_cover("entry");
	delete &db;
}
