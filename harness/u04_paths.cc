// U04: path and word helpers on every short string.
#include "utils/utils.hpp"
#include "sym.h"
#include <string>
#include <vector>
#include <cstring>
#ifdef ALPHA
static const char alpha[] = ALPHA;
#define LETTER alpha[sym_conc(sym_range("letter", 0, sizeof alpha - 2))]
#else	// any byte but the end of the string
#define LETTER (char) sym_range("letter", 1, 255)
#endif
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string any(const char *name, int hi) {
	std::string s;
	int n = sym_conc(sym_range(name, 0, hi));
	for (int i = 0; i < n; i++) s.push_back(LETTER);
	return s;
}
// the components a path is resolved by
static std::vector<std::string> comps(const std::string &p) {
	std::vector<std::string> v; std::string c;
	for (size_t i = 0; i <= p.size(); i++) {
		if (i < p.size() && p[i] != '/') { c += p[i]; continue; }
		if (!c.empty() && c != ".") v.push_back(c);
		c.clear();
	}
	return v;
}
extern "C" void sym_main() {
#if KIND == 0
	std::string p = any("length", LEN), d = dirname(p), b = basename(p);
	size_t sl = p.rfind('/');
	if (p.empty() || p == ".") { sym_assert(d == "." && b == ".", "the empty path and . are ."); sym_cover("empty"); }
	else if (sl == std::string::npos) { sym_assert(d == "." && b == p, "without a separator it is all base name"); sym_cover("plain"); }
	else {
		sym_assert(b == (sl + 1 == p.size() ? std::string(".") : p.substr(sl + 1)), "the base name is to the right of the last separator");
		sym_assert(d == (sl == 0 ? std::string("/") : p.substr(0, sl)), "the directory is to the left of the last separator");
		sym_cover("path");
	}
	std::string j = pathcat(d, b);
	bool abs = !p.empty() && p[0] == '/';
	sym_assert((j[0] == '/') == abs, "joining directory and base name is absolute when the path is");
	sym_assert(comps(j) == comps(p), "joining directory and base name gives an equivalent path");
	// joining in general
	if (!p.empty()) {
		std::string q = pathcat(p, "x");
		sym_assert(q == (p[p.size() - 1] == '/' ? p + "x" : p + "/x"), "joining puts exactly one separator in between");
		sym_assert(basename(q) == "x", "the joined entry is the base name");
		sym_assert(comps(dirname(q)) == comps(p) && (dirname(q)[0] == '/') == abs, "the joined directory is the directory");
	}
#elif KIND == 1
	std::string s = any("length", LEN), t = any("prefix", LEN2);
	bool pre = t.size() <= s.size() && s.compare(0, t.size(), t) == 0;
	sym_assert(hasprefix(s.c_str(), t.c_str()) == pre, "a prefix is recognized exactly");
	sym_cover(pre ? "prefix" : "noprefix");
#elif KIND == 2
	// words: runs of letters other than white space; a quoted stretch is one word, spaces and all
	std::string s = any("length", LEN);
	std::vector<std::string> want; std::string w; bool in = false;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '"') { if (in) { want.push_back(w); w.clear(); } in = !in; }
		else if (!in && blank(s[i])) { if (!w.empty()) want.push_back(w); w.clear(); }
		else w += s[i];
	}
	if (in) { sym_cover("unclosed"); sym_exit_ok(1); tokens(s); sym_fail("a missing quote is reported"); }
	if (!w.empty()) want.push_back(w);
	sym_assert(tokens(s) == want, "the words are those between white space and quotes");
	if (s.find('"') == std::string::npos) sym_cover("words"); else sym_cover("quoted");
#elif KIND == 3
	// gettoken one after the other, as the data file reader uses it
	std::string s = any("length", LEN);
	int q = 0; for (size_t i = 0; i < s.size(); i++) q += s[i] == '"';
	std::vector<std::string> want;
	size_t i = 0; bool bad = false;
	for (;;) {
		while (i < s.size() && blank(s[i])) i++;
		if (i >= s.size()) break;
		std::string w;
		if (s[i] == '"') { i++; while (i < s.size() && s[i] != '"') w += s[i++]; if (i >= s.size()) { bad = true; break; } i++; }
		else { while (i < s.size() && !blank(s[i])) w += s[i++]; i++; }
		want.push_back(w);
	}
	char buf[LEN + 1]; memcpy(buf, s.c_str(), s.size() + 1);
	char *left = buf, *end = buf + s.size();
	std::vector<std::string> got;
	if (bad) { sym_cover("unclosed"); sym_exit_ok(1); }
	while (left < end) {
		char *t = gettoken(left, 1);
		if (!t) break;
		sym_assert(t >= left && t + strlen(t) <= end, "a token lies in the string");
		got.push_back(t); left = t + strlen(t) + 1;
	}
	if (bad) sym_fail("a missing quote is reported");
	sym_assert(got == want, "the tokens are those between white space and quotes");
	sym_cover(q ? "quoted" : "words");
#endif
}
