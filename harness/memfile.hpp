// Stand-ins for the stdio functions that readers and writers use, on a buffer in memory whose bytes may be symbolic.
// Include it before the repository source that is to use them.
#pragma once
#include "sym.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include "utils/utils.hpp"
struct MemFile { unsigned char buf[MEMFILE]; int n, pos; bool eof; };
static MemFile mem_files[4];
static MemFile *mem(FILE *f) { return (f >= (FILE*) mem_files && f < (FILE*) (mem_files + 4)) ? (MemFile*) f : 0; }
static FILE *memfile(int i) { return (FILE*) &mem_files[i]; }
static int m_fgetc(FILE *f) { MemFile *m = mem(f); if (m->pos >= m->n) { m->eof = true; return EOF; } return m->buf[m->pos++]; }
static int m_ungetc(int c, FILE *f) { MemFile *m = mem(f); if (c == EOF) return EOF; m->eof = false; m->buf[--m->pos] = c; return c; }
static int m_feof(FILE *f) { return mem(f)->eof; }
static int m_ferror(FILE*) { return 0; }
static int m_fflush(FILE*) { return 0; }
static int m_fputc(int c, FILE *f) { MemFile *m = mem(f); if (!m) return c; sym_assert(m->n < MEMFILE, "harness: output fits"); m->buf[m->n++] = c; return c; }
static int m_fputs(const char *s, FILE *f) { while (*s) m_fputc(*s++, f); return 0; }
static size_t m_fread(void *p, size_t sz, size_t n, FILE *f) { size_t i; for (i = 0; i < sz * n; i++) { int c = m_fgetc(f); if (c == EOF) break; ((char*) p)[i] = c; } return i / sz; }
static char *m_fgets(char *s, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = m_fgetc(f); if (c == EOF) break; s[i++] = c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
// formatted output: %s %d %i %u %ld %lu %x %c %p-free; floats go to the C library and so must be concrete
static int m_vfmt(char *o, size_t sz, const char *fmt, va_list ap) {
	size_t n = 0;
#define PUT(ch) do { char c_ = (ch); if (n + 1 < sz) o[n] = c_; n++; } while (0)
	for (; *fmt; fmt++) {
		if (*fmt != '%') { PUT(*fmt); continue; }
		fmt++;
		char pad = ' '; int wid = 0, lng = 0;
		if (*fmt == '0') { pad = '0'; fmt++; }
		while (*fmt >= '0' && *fmt <= '9') wid = wid * 10 + (*fmt++ - '0');
		char spec[32]; int sn = 0; spec[sn++] = '%';
		if (*fmt == '.') { spec[sn++] = *fmt++; while (*fmt >= '0' && *fmt <= '9') spec[sn++] = *fmt++; }
		while (*fmt == 'l' || *fmt == 'z') { lng = 1; fmt++; }
		switch (*fmt) {
		case '%': PUT('%'); break;
		case 'c': PUT((char) va_arg(ap, int)); break;
		case 's': { const char *s = va_arg(ap, const char*); while (*s) { PUT(*s); s++; } break; }
		case 'd': case 'i': case 'u': case 'x': {
			char b[32]; int k = 0; bool neg = false; unsigned long v;
			if (*fmt == 'd' || *fmt == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long) x : x; }
			else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			unsigned base = *fmt == 'x' ? 16 : 10;
			do { b[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
			if (neg) b[k++] = '-';
			while (k < wid && k < 31) b[k++] = pad;
			while (k > 0) PUT(b[--k]);
			break; }
		case 'g': case 'f': case 'e': { char b[64]; spec[sn++] = *fmt; spec[sn] = 0; double v = va_arg(ap, double); int k = snprintf(b, sizeof b, spec, v); for (int i = 0; i < k; i++) PUT(b[i]); break; }
		default: sym_fail("harness: unknown conversion");
		}
	}
	if (sz) o[n < sz ? n : sz - 1] = 0;
#undef PUT
	return (int) n;
}
static int m_vsnprintf(char *o, size_t sz, const char *fmt, va_list ap) { return m_vfmt(o, sz, fmt, ap); }
static int m_snprintf(char *o, size_t sz, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = m_vfmt(o, sz, fmt, ap); va_end(ap); return n; }
static int m_fprintf(FILE *f, const char *fmt, ...) {
	if (!mem(f)) return 0;
	static char b[MEMFILE]; va_list ap; va_start(ap, fmt); int n = m_vfmt(b, sizeof b, fmt, ap); va_end(ap);
	sym_assert(n < (int) sizeof b, "harness: output fits");
	for (int i = 0; i < n; i++) m_fputc(b[i], f);
	return n;
}
// formatted input as the C standard has it: white space, literals, %u %d %lu %ld %x %c %s and (for digits with an optional fraction) %lg
static int m_vscan(int (*get)(void*), void (*unget)(int, void*), void *cl, const char *fmt, va_list ap) {
	int got = 0, c; bool any = false;
	for (; *fmt; fmt++) {
		if (isspace((unsigned char) *fmt)) { while ((c = get(cl)) != EOF && isspace(c)) ; if (c != EOF) unget(c, cl); continue; }
		if (*fmt != '%') { c = get(cl); if (c != (unsigned char) *fmt) { if (c == EOF) return any || got ? got : EOF; unget(c, cl); return got; } continue; }
		fmt++;
		bool skip = false; int lng = 0, wid = 1 << 30;
		if (*fmt == '*') { skip = true; fmt++; }
		if (*fmt >= '0' && *fmt <= '9') { wid = 0; while (*fmt >= '0' && *fmt <= '9') wid = wid * 10 + (*fmt++ - '0'); }
		while (*fmt == 'l') { lng++; fmt++; }
		if (*fmt != 'c') { while ((c = get(cl)) != EOF && isspace(c)) ; } else c = get(cl);
		if (c == EOF) return got ? got : EOF;
		switch (*fmt) {
		case 'c': if (!skip) { *va_arg(ap, char*) = c; got++; } break;
		case 's': { char *o = skip ? 0 : va_arg(ap, char*); while (c != EOF && !isspace(c) && wid-- > 0) { if (o) *o++ = c; c = get(cl); } if (c != EOF) unget(c, cl); if (o) { *o = 0; got++; } break; }
		case 'd': case 'u': case 'i': {
			bool neg = false, dig = false; unsigned long v = 0;
			if (c == '-' || c == '+') { neg = c == '-'; c = get(cl); }
			while (c >= '0' && c <= '9') { dig = true; v = v > (1UL << 59) ? ~0UL : v * 10 + (c - '0'); c = get(cl); }
			if (c != EOF) unget(c, cl);
			if (!dig) return got;
			if (neg) v = -v;
			if (!skip) { if (lng) *va_arg(ap, unsigned long*) = v; else *va_arg(ap, unsigned int*) = (unsigned int) v; got++; }
			break; }
		case 'g': case 'f': {
			bool neg = false, dig = false; long v = 0, den = 1; 
			if (c == '-' || c == '+') { neg = c == '-'; c = get(cl); }
			while (c >= '0' && c <= '9') { dig = true; v = v * 10 + (c - '0'); c = get(cl); }
			if (c == '.') { c = get(cl); while (c >= '0' && c <= '9') { dig = true; v = v * 10 + (c - '0'); den *= 10; c = get(cl); } }
			if (c != EOF) unget(c, cl);
			if (!dig) return got;
			if (!skip) { double x = (double) (neg ? -v : v) / (double) den; if (lng) *va_arg(ap, double*) = x; else *va_arg(ap, float*) = (float) x; got++; }
			break; }
		default: sym_fail("harness: unknown conversion");
		}
	}
	return got;
}
static int m_fget(void *f) { return m_fgetc((FILE*) f); }
static void m_funget(int c, void *f) { m_ungetc(c, (FILE*) f); }
static int m_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = m_vscan(m_fget, m_funget, f, fmt, ap); va_end(ap); return n; }
static int m_sget(void *p) { const char **s = (const char**) p; unsigned char c = **s; if (!c) return EOF; ++*s; return c; }
static void m_sunget(int, void *p) { --*(const char**) p; }
static int m_sscanf(const char *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = m_vscan(m_sget, m_sunget, &s, fmt, ap); va_end(ap); return n; }
#undef getc
#define fgetc m_fgetc
#define getc m_fgetc
#define ungetc m_ungetc
#define feof m_feof
#define ferror m_ferror
#define fflush m_fflush
#define fputc m_fputc
#define fputs m_fputs
#define fread m_fread
#define fgets m_fgets
#define vsnprintf m_vsnprintf
#define snprintf m_snprintf
#define fprintf m_fprintf
#define fscanf m_fscanf
#define sscanf m_sscanf
