// U05: data files, on in-memory files.  KIND 0: pairs, 1: rows, 2: several records and symbolic contents.
#define MEMFILE 8192
#include "memfile.hpp"
#include <unistd.h>
#include <sys/utsname.h>
#include <dirent.h>
#include <sys/stat.h>
#include "utils/fs.cc"
#include "utils/datafile.cc"
static std::vector< std::vector<std::string> > got;
static void seen(std::vector<std::string> &toks, void *p) { sym_assert(p == &got, "the handler gets its argument"); got.push_back(toks); }
static void reread() { MemFile *m = mem(memfile(0)); m->pos = 0; dfread(memfile(0), seen, &got); }
static std::string text(const char *name, int lo, int hi) {	// a string of this length, without quotes
	std::string s; int n = sym_conc(sym_range(name, lo, hi));
	for (int i = 0; i < n; i++) { s.push_back('a' + i % 23); if (i % 7 == 5) s[i] = ' '; }
	return s;
}
extern "C" void sym_main() {
	FILE *f = memfile(0);
#if KIND == 0
	std::string k = text("keylen", KLO, KHI), v = text("vallen", VLO, VHI);
	if (k.size() > 180) sym_exit_ok(1);	// an overlong key may be refused
	dfpair(f, k.c_str(), "%s", v.c_str());
	dfpair(f, "next", "%lu-%d", 18446744073709551615UL, -7);
	if (k.size() > 180) { sym_cover("longkey"); }
	reread();
	sym_assert(got.size() == 2, "every record is read back");
	sym_assert(got[0].size() == 3 && got[0][0] == "#pair", "a pair has a key and a value");
	sym_assert(got[0][1] == k, "the key is read back"); sym_assert(got[0][2] == v, "the value is read back");
	sym_assert(got[1].size() == 3 && got[1][1] == "next" && got[1][2] == "18446744073709551615--7", "numbers are read back");
	sym_cover("pair");
#elif KIND == 1
	std::string nm = text("namelen", KLO, KHI);
	sym_exit_ok(1);	// an overlong row may be refused
	int hdr = sym_conc(sym_bool("header"));
	std::string col = text("collen", 1, hdr ? VHI : 1);
	long d = -9223372036854775807L; unsigned long u = 18446744073709551615UL;
	int nd = sym_conc(sym_range("cols", 1, 4));
	if (hdr) dfrowhdr(f, nm.c_str(), 2, "c", col.c_str());
	else dfrow(f, nm.c_str(), nd == 1 ? "d" : nd == 2 ? "du" : nd == 3 ? "dud" : "dudu", d, u, 1L, 2UL);
	dfpair(f, "next", "%s", "v");
	reread();
	sym_assert(got.size() == 2 && got[1].size() == 3 && got[1][2] == "v", "every record is read back");
	sym_assert(got[0][1] == nm, "the row's name is read back");
	if (hdr) { sym_assert(got[0].size() == 4 && got[0][0] == "#altcols" && got[0][2] == nm + " c" && got[0][3] == nm + " " + col, "the columns are read back"); sym_cover("header"); }
	else {
		sym_assert((int) got[0].size() == nd + 2 && got[0][0] == "#altrow", "every column is read back");
		static const char *want[] = { "-9223372036854775807", "18446744073709551615", "1", "2" };
		for (int i = 0; i < nd; i++) sym_assert(got[0][i + 2] == want[i], "every value is read back");
		sym_cover("row");
	}
#elif KIND == 2
	// any printable bytes except quotes
	char k[5], v[5];
	int a = sym_conc(sym_range("keylen", 0, 2)), b = sym_conc(sym_range("vallen", 0, 3));
	for (int i = 0; i < a; i++) { k[i] = sym_range("key", 1, 126); sym_assume(k[i] != '"'); sym_assume(k[i] != '\n'); sym_assume(k[i] != '\r'); } k[a] = 0;
	for (int i = 0; i < b; i++) { v[i] = sym_range("value", 1, 126); sym_assume(v[i] != '"'); sym_assume(v[i] != '\n'); sym_assume(v[i] != '\r'); } v[b] = 0;
	m_fputs("\ncomment\n\n", f);
	dfpair(f, k, "%s", v);
	m_fputs("#other \"x\"\n", f);
	dfpair(f, v, "x%sy", k);
	mem(f)->n--;	// the last line may lack its newline
	if (sym_conc(sym_bool("newline"))) mem(f)->n++;
	FILE *echo = sym_conc(sym_bool("echo")) ? memfile(1) : 0;
	mem(f)->pos = 0; dfread(f, seen, &got, echo);
	sym_assert(got.size() == 2 && got[0].size() == 3 && got[1].size() == 3, "exactly the records are read back");
	sym_assert(got[0][1].size() == (size_t) a && got[0][2].size() == (size_t) b && got[1][1].size() == (size_t) b && got[1][2].size() == (size_t) a + 2, "with their lengths");
	int ok = 1;
	for (int i = 0; i < a; i++) ok &= got[0][1][i] == k[i] && got[1][2][i + 1] == k[i];
	for (int i = 0; i < b; i++) ok &= got[0][2][i] == v[i] && got[1][1][i] == v[i];
	sym_assert(ok, "and their contents");
	if (echo) { MemFile *m = mem(f), *e = mem(echo); sym_assert(e->n >= m->n && e->n <= m->n + 1, "echoed in full"); int same = 1; for (int i = 0; i < m->n; i++) same &= m->buf[i] == e->buf[i]; sym_assert(same, "echoed as they are"); }
	sym_cover("contents");
#endif
}
