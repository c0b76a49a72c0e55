// Replays one counterexample natively: the same harness, with the symbolic inputs read from a file.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
static std::vector<std::pair<std::string, long>> vals;
static size_t at; static int exitmode, done;
static FILE *rep;	// the report goes to fd 3 if open, else to stderr
static void say(const char *k, const char *m) { fprintf(rep, "%s: %s\n", k, m); fflush(rep); }
static long next(const char *name, long lo, long hi) {
	if (at >= vals.size()) return lo;
	if (vals[at].first != name) { say("REPLAY-DIVERGED", name); _exit(77); }
	long v = vals[at++].second;
	if (v < lo || v > hi) { say("REPLAY-DIVERGED", name); _exit(77); }
	return v;
}
static void onexit_() { if (!done) { if (exitmode) { say("REPLAY-OK", "exit"); _exit(0); } say("REPLAY-VIOLATION", "the program exited"); _exit(99); } }
static void onabort(int s) { if (exitmode && s == SIGABRT) _exit(0); say("REPLAY-VIOLATION", s == SIGABRT ? "aborted" : s == SIGFPE ? "arithmetic fault" : "memory fault"); _exit(99); }
extern "C" {
long sym_range_(const char *n, long lo, long hi) { return next(n, lo, hi); }
double sym_fix_(const char *n, long lo, long hi, int k) { return ldexp((double) next(n, lo, hi), -k); }
void sym_assume(int c) { if (!c) { say("REPLAY-INFEASIBLE", "assumption does not hold"); _exit(78); } }
void sym_assert(int c, const char *m) { if (!c) { say("REPLAY-VIOLATION", m); done = 1; _exit(99); } }
void sym_fail(const char *m) { say("REPLAY-VIOLATION", m); done = 1; _exit(99); }
void sym_cover(const char*) {}
void sym_finding_(const char*, int) {}
void sym_exit_ok(int m) { exitmode = m; }
int sym_native(void) { return 1; }
void sym_done(void) { done = 1; say("REPLAY-OK", "done"); _exit(0); }
void sym_debug(const char *n, long v) { fprintf(stderr, "%s = %ld\n", n, v); }
long sym_conc(long v) { return v; }
int sym_issym(long) { return 0; }
void sym_steps(long) {}
long sym_ite(int c, long a, long b) { return c ? a : b; }
}
int main(int argc, char **argv) {
	rep = stderr;
	if (argc > 1) {
		FILE *f = fopen(argv[1], "r");
		if (!f) { perror(argv[1]); return 76; }
		char line[4096];
		while (fgets(line, sizeof line, f)) {
			if (line[0] == '#') continue;
			char *eq = strstr(line, " = "); if (!eq) continue;
			*eq = 0; vals.push_back(std::make_pair(std::string(line), strtol(eq + 3, 0, 10)));
		}
		fclose(f);
	}
	if (!getenv("SYM_NOSIG")) for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) {
		static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onabort; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0);
	}
	atexit(onexit_);
	sym_main();
	done = 1; say("REPLAY-OK", "end");
	_exit(0);
}
