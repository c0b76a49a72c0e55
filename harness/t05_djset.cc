// T05: disjoint sets against the partition generated by the joins.
#include <cstddef>
#include "structs/djset.hpp"
#include "sym.h"
static Djset s[N];
static int part[N];	// the least element each is connected to
static void join(int a, int b) {
	s[a].join(s[b]);
	int x = part[a], y = part[b], m = x < y ? x : y, o = x < y ? y : x;
	for (int i = 0; i < N; i++) if (part[i] == o) part[i] = m;
}
extern "C" void sym_main() {
	for (int i = 0; i < N; i++) { part[i] = i; s[i].aux = &s[i]; }
#ifdef PRE
	{ static const int p[] = { PRE }; for (unsigned i = 0; i < sizeof p / sizeof *p; i += 2) join(p[i], p[i+1]); }
#endif
	for (int st = 0; st < STEPS; st++) {
		int a = sym_conc(sym_range("a", 0, N - 1)), b = sym_conc(sym_range("b", 0, N - 1));
		join(a, b);
		if (st + 1 < STEPS && sym_conc(sym_bool("look"))) continue;
		for (int i = 0; i < N; i++) {
			int j = (i * 3 + 1) % N;	// a find compresses paths: not always in the same order
			sym_assert(s[j].find() >= s && s[j].find() < s + N && part[s[j].find() - s] == part[j], "the representative is a connected element");
		}
		for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sym_assert((s[i].find() == s[j].find()) == (part[i] == part[j]), "the same representative exactly when connected");
	}
	for (int i = 0; i < N; i++) sym_assert(s[i].aux == &s[i], "the client's pointer is left alone");
	int c = sym_conc(sym_range("clear", 0, 1));
	if (c) { for (int i = 0; i < N; i++) { s[i].clear(); part[i] = i; } join(0, N - 1);
		for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sym_assert((s[i].find() == s[j].find()) == (part[i] == part[j]), "a cleared set starts afresh"); sym_cover("clear"); }
	sym_cover("end");
}
