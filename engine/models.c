/* libc functions that may see symbolic bytes, as IR the executor can follow. */
#include <stddef.h>
#include <stdarg.h>
typedef unsigned char u8;
int memcmp(const void *a, const void *b, size_t n) {
	const u8 *p = a, *q = b; int r = 0;
	for (size_t i = n; i-- > 0; ) { int d = (int) p[i] - (int) q[i]; r = d ? d : r; }
	return r;
}
int bcmp(const void *a, const void *b, size_t n) {
	const u8 *p = a, *q = b; int r = 0;
	for (size_t i = 0; i < n; i++) r |= p[i] ^ q[i];
	return r;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) ; return (int) (u8) *a - (int) (u8) *b; }
int strncmp(const char *a, const char *b, size_t n) {
	for (; n && *a && *a == *b; a++, b++, n--) ;
	return n ? (int) (u8) *a - (int) (u8) *b : 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char*) s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char*) r; } }
void *memchr(const void *s, int c, size_t n) { const u8 *p = s; for (; n; n--, p++) if (*p == (u8) c) return (void*) p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const u8 *p = s; while (n--) if (p[n] == (u8) c) return (void*) (p + n); return 0; }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
