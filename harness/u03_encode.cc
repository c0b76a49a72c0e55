// U03: encodings.  KIND 0: base 64, 1: run length, 2: ASCII 85, 3: control strings, 4: run length around the longest run.
#include "utils/utils.hpp"
#include "sym.h"
#include <string>
#include <vector>
std::string base64enc(const std::string&); std::string base64dec(const std::string&);
std::string runlenenc(const std::string&); std::string runlendec(const std::string&);
std::string ascii85enc(const std::string&);
std::string controlstr(const std::vector<unsigned int>&); std::vector<unsigned int> controlvec(const std::string&);
#ifndef LLO
#define LLO 0
#define LHI 0
#endif
static std::string any() {
	std::string s;
	int n = sym_conc(sym_range("length", LLO, LHI));
	for (int i = 0; i < n; i++) s.push_back((char) sym_range("byte", 0, 255));
	return s;
}
static int same(const std::string &a, const std::string &b) {
	if (a.size() != b.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
	return ok;
}
static int digit64(int v) { return sym_ite(v < 26, 'A' + v, sym_ite(v < 52, 'a' + v - 26, sym_ite(v < 62, '0' + v - 52, sym_ite(v == 62, '+', '/')))); }
extern "C" void sym_main() {
#if KIND == 0
	std::string s = any(), e = base64enc(s);
	size_t n = s.size();
	sym_assert(e.size() == (n + 2) / 3 * 4, "four letters for every three bytes");
	for (size_t i = 0; i < n; i += 3) {
		int b0 = (unsigned char) s[i], b1 = i + 1 < n ? (unsigned char) s[i+1] : 0, b2 = i + 2 < n ? (unsigned char) s[i+2] : 0;
		const char *g = &e[i / 3 * 4];
		sym_assert(g[0] == digit64(b0 >> 2), "first letter"); sym_assert(g[1] == digit64((b0 & 3) << 4 | b1 >> 4), "second letter");
		sym_assert(i + 1 < n ? g[2] == digit64((b1 & 15) << 2 | b2 >> 6) : g[2] == '=', "third letter or padding");
		sym_assert(i + 2 < n ? g[3] == digit64(b2 & 63) : g[3] == '=', "fourth letter or padding");
	}
	sym_assert(same(base64dec(e), s), "decoding restores the bytes");
	sym_cover("base64");
#elif KIND == 1
	std::string s = any();
	std::string e = runlenenc(s);
	sym_assert(same(runlendec(e), s), "decoding restores the bytes");
	sym_assert(e.size() <= s.size() + 1 || s.size() > 127, "the encoding of a short string is at most a byte longer");
	if (e.size() < s.size()) sym_cover("shorter");
	sym_cover("runlen");
#elif KIND == 2
	std::string s = any(), e = ascii85enc(s);
	size_t at = 0;
	for (size_t i = 0; i < s.size(); i += 4) {
		unsigned long w = 0; size_t k = s.size() - i < 4 ? s.size() - i : 4;
		for (size_t j = 0; j < 4; j++) w = w << 8 | (j < k ? (unsigned char) s[i + j] : 0);
		if (k == 4 && w == 0) { sym_assert(at < e.size() && e[at++] == 'z', "four zero bytes become a z"); sym_cover("z"); continue; }
		sym_assert(at + k + 1 <= e.size(), "one letter more than bytes");
		// the letters are the leading base-85 digits of the word
		unsigned d[5]; unsigned x = (unsigned) w;
		for (int j = 4; j >= 0; j--) { d[j] = x % 85; x /= 85; }
		for (size_t j = 0; j < k + 1; j++) sym_assert((unsigned char) e[at++] - '!' == (int) d[j], "the letters are the leading digits of the word");
	}
	sym_assert(at == e.size(), "nothing follows");
	sym_cover("ascii85");
#elif KIND == 3
	std::vector<unsigned int> c;
	int n = sym_conc(sym_range("length", LLO, LHI));
	for (int i = 0; i < n; i++) c.push_back((unsigned int) sym_range("control", 0, 127));
	std::vector<unsigned int> d = controlvec(controlstr(c));
	sym_assert(d.size() == c.size(), "as many controls are read back");
	int ok = 1; for (int i = 0; i < n; i++) ok &= c[i] == d[i];
	sym_assert(ok, "the controls read back unchanged");
	sym_cover("controls");
#elif KIND == 4
	// segments: a run of one byte, or bytes that all differ from their neighbours, of lengths around the limit
	static const int lens[] = { 0, 1, 2, 3, 125, 126, 127, 128, 129, 253, 254, 255, 256 };
	std::string s; unsigned char nxt = 0;
	for (int k = 0; k < SEGS; k++) {
		int len = lens[sym_conc(sym_range("segment", 0, 12))], run = sym_conc(sym_bool("run"));
		for (int i = 0; i < len; i++) { s.push_back((char) nxt); if (!run) nxt += 7; }
		nxt += 7;
	}
	for (int i = 0; i < TAIL; i++) s.push_back((char) sym_range("byte", 0, 255));
	sym_assert(same(runlendec(runlenenc(s)), s), "decoding restores the bytes");
	sym_cover("long");
#endif
}
