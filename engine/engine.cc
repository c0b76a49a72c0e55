// irsym: a symbolic executor for LLVM-18 IR, with Z3 deciding every branch, address and assertion
// that depends on a symbolic input.  One process per path prefix: a branch both of whose sides are
// feasible forks.  See /verif/DESIGN.md.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <cmath>
#include <cerrno>
#include <cstdarg>
#include <llvm/IR/InlineAsm.h>
#include <time.h>
#include <typeinfo>
#include <map>
#include <set>
using namespace llvm;

// ---------------------------------------------------------------- shared statistics
enum { MaxCover = 256, MaxFn = 8192, MaxCex = 8, MaxFind = 32 };
struct Shared {
	volatile int tokens, stop, ncex, nengerr, lock;
	volatile u64 paths, ended[16], forks, queries, qsat, qunsat, qunknown, solverns, steps, cut, asserts, symasserts, procs, abnormal, okpaths, retries, maxpathsteps, symaddr, concretised;
	char engerr[8][512];
	u8 cover[MaxCover]; char covername[MaxCover][64]; volatile int ncover;
	u8 finding[MaxFind]; char findname[MaxFind][64]; volatile int nfind;
	u8 fn[MaxFn];
	char cexmsg[MaxCex][400];
};
static Shared *sh;
enum EndKind { K_OK, K_INFEASIBLE, K_EXIT, K_VIOL, K_STEPS, K_ENGERR, K_CUT, K_UNKNOWN };
static const char *endname[] = { "completed", "infeasible", "exit", "violation", "steplimit", "engine-error", "cut", "solver-unknown" };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void lock() { while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(50); }
static void unlock() { __sync_lock_release(&sh->lock); }
#define INC(f, n) __sync_fetch_and_add(&sh->f, (n))

// ---------------------------------------------------------------- options
static std::string optOut = "/tmp/irsym", optCexDir;
static u64 optMaxSteps = 200000000ull;
static double optTime = 600, deadline;
static int optProcs = 8, optMaxCex = 3, optIteMax = 64;
static unsigned optRlimit1 = 3000000, optRlimit = 400000000;	// for the incremental solver; for the second attempt
static int optFSelFork = 0;	// 1: selects of doubles fork
static int optSelFork = 64;	// selects at least this wide fork instead of building if-then-else terms


// ---------------------------------------------------------------- state
static Exprs X;
static Z3_solver solver;
static LLVMContext *LC; static Module *M; static const DataLayout *DL;

struct Val { u64 v; Expr *e; };
static inline Val C(u64 v) { return Val{v, nullptr}; }

[[noreturn]] static void endpath(EndKind k);
[[noreturn]] static void engerr(const char *fmt, ...);
[[noreturn]] static void violation(const char *kind, const std::string &msg);
static std::string stacktrace();

struct SymRec { std::string name; Expr *e; u64 v; i64 base; bool fp; int k; };
static std::vector<SymRec> symlog;
static u64 steps = 0, laststeps = 0;
static std::vector<pid_t> kids; static bool owntoken = true;

static void flushsteps() { INC(steps, steps - laststeps); laststeps = steps; if (steps > sh->maxpathsteps) sh->maxpathsteps = steps; }

// ---------------------------------------------------------------- memory
// All memory of the program under test (globals, stack, heap) lives in one arena at a fixed address,
// never reused within a path.  shadow[g] describes granule g (8 bytes): the low nibble is the number
// of leading addressable bytes, bit 7 says some byte of it is symbolic, bits 4-5 tell the kind.
static const u64 ABASE = 0x100000000000ull, ASIZE = 48ull << 30;
static const u64 GLOB0 = ABASE, STACK0 = ABASE + (2ull << 30), HEAP0 = ABASE + (4ull << 30);
static u8 *shadow;
static u64 globtop = GLOB0 + 64, stacktop = STACK0 + 64, heaptop = HEAP0 + 64;
struct SymGran { Expr *e[8]; u8 i[8]; };
static std::unordered_map<u64, SymGran> symmem;
static std::unordered_map<u64, u64> heapobj;	// start -> size, live
static std::unordered_map<u64, std::string> freed;

// Undo log: everything that changes during a path and is not copied into a Choice.
struct TrailRec { u8 kind; u64 a, b; };	// 0: raw host bytes (a=address, b=length; the old bytes are in trailbytes), 1: granule was absent, 2: granule was present (old value in trailgran), 3: heap object added, 4: heap object (a, b) removed
static std::vector<TrailRec> trail;
static std::vector<u8> trailbytes;
static std::vector<SymGran> trailgran;
static u64 protectedstack = 0;	// stack below this address is live in an outstanding choice
static bool logging = true;
static inline void logmem(void *p, size_t n) {
	if (!logging) return;
	trail.push_back(TrailRec{0, (u64) p, n});
	size_t o = trailbytes.size(); trailbytes.resize(o + n); memcpy(trailbytes.data() + o, p, n);
}
static inline void loggran(u64 g) {
	if (!logging) return;
	auto it = symmem.find(g);
	if (it == symmem.end()) trail.push_back(TrailRec{1, g, shadow[g]});
	else { trail.push_back(TrailRec{2, g, shadow[g]}); trailgran.push_back(it->second); }
}
static inline bool inarena(u64 a) { return a - ABASE < ASIZE; }
static inline u8 *shp(u64 a) { return shadow + ((a - ABASE) >> 3); }

static void setaddr(u64 a, u64 n, bool ok) {	// a is 8-aligned
	u8 *s = shp(a);
	u64 g = n / 8, r = n % 8;
	logmem(s, g + (r ? 1 : 0));
	if (ok) { memset(s, 8, g); if (r) s[g] = r; }
	else { memset(s, 0, g + (r ? 1 : 0)); }
}
static void dropsym(u64 a, u64 n) {
	if (!n || symmem.empty()) return;
	u64 g0 = (a - ABASE) >> 3, g1 = (a + n - 1 - ABASE) >> 3;
	if (g1 - g0 > 4096 && symmem.size() < g1 - g0) {
		std::vector<u64> del;
		for (auto &p : symmem) if (p.first >= g0 && p.first <= g1) del.push_back(p.first);
		for (auto g : del) {
			loggran(g);
			SymGran &sg = symmem[g]; bool any = false;
			for (int j = 0; j < 8; j++) { u64 ad = ABASE + g * 8 + j; if (ad >= a && ad < a + n) sg.e[j] = nullptr; any |= sg.e[j] != nullptr; }
			if (!any) { symmem.erase(g); shadow[g] &= 0x7f; }
		}
		return;
	}
	for (u64 g = g0; g <= g1; g++) {
		if (!(shadow[g] & 0x80)) continue;
		loggran(g);
		SymGran &sg = symmem[g]; bool any = false;
		for (int j = 0; j < 8; j++) { u64 ad = ABASE + g * 8 + j; if (ad >= a && ad < a + n) sg.e[j] = nullptr; any |= sg.e[j] != nullptr; }
		if (!any) { symmem.erase(g); shadow[g] &= 0x7f; }
	}
}
static bool haschoices();
static u64 halloc(u64 n, u64 align = 16) {
	u64 a = (heaptop + align - 1) & ~(align - 1);
	u64 sz = (n + 7) & ~7ull;
	if (a + sz + 64 > ABASE + ASIZE) engerr("heap arena exhausted");
	setaddr(a, n, true);
	heapobj[a] = n; if (logging) trail.push_back(TrailRec{3, a, n});
	heaptop = a + sz + 32;
	if (n < (1 << 20)) memset((void*) a, 0xAB, n);
	return a;
}
static void hfree(u64 a) {
	if (!a) return;
	auto it = heapobj.find(a);
	if (it == heapobj.end()) violation("memory", "free of a pointer that is not a live heap object");
	u64 n = it->second;
	dropsym(a, n);
	setaddr(a, n, false);
	if (n > (1 << 16) && !haschoices()) { u64 p = (a + 4095) & ~4095ull, q = (a + n) & ~4095ull; if (q > p) madvise((void*) p, q - p, MADV_DONTNEED); }
	heapobj.erase(it); if (logging) trail.push_back(TrailRec{4, a, n});
}
// Checks that [a, a+n) may be accessed; reports a violation otherwise.
static inline bool addrok(u64 a, u64 n) {
	if (!inarena(a)) {
		return a >= 65536 && a < 0x800000000000ull;
	}
	if (n == 0) return true;
	u64 last = a + n - 1;
	u8 *s = shp(a), *e = shp(last);
	if (s == e) return (*s & 0xf) > (last & 7);
	if ((*e & 0xf) <= (last & 7)) return false;
	for (; s < e; s++) if ((*s & 0xf) != 8) return false;
	return true;
}
[[noreturn]] static void badaccess(u64 a, u64 n, bool wr) {
	char b[200];
	snprintf(b, sizeof b, "invalid %llu-byte %s at %#llx%s", (unsigned long long) n, wr ? "write" : "read", (unsigned long long) a,
		!inarena(a) ? (a < 65536 ? " (null pointer)" : " (wild pointer)") : a >= HEAP0 ? " (heap: out of bounds or freed)" : a >= STACK0 ? " (stack)" : " (global)");
	violation("memory", b);
}

static inline u64 rawload(u64 a, unsigned n) {
	switch (n) { case 1: return *(u8*) a; case 2: { u16 r; memcpy(&r, (void*) a, 2); return r; } case 4: { u32 r; memcpy(&r, (void*) a, 4); return r; } case 8: { u64 r; memcpy(&r, (void*) a, 8); return r; } }
	u64 r = 0; memcpy(&r, (void*) a, n); return r;
}
static inline bool anysym(u64 a, u64 n) {
	if (!n || symmem.empty() || !inarena(a)) return false;
	for (u8 *s = shp(a), *e = shp(a + n - 1); s <= e; s++) if (*s & 0x80) return true;
	return false;
}
static Val loadbytes(u64 a, unsigned n) {	// n<=8, access already checked
	if (!anysym(a, n)) return C(rawload(a, n));
	// the common case: one expression stored whole
	Expr *first = nullptr; bool whole = true, none = true;
	Expr *be[8]; u8 bi[8];
	for (unsigned i = 0; i < n; i++) {
		u64 g = (a + i - ABASE) >> 3;
		be[i] = nullptr;
		if (shadow[g] & 0x80) { SymGran &s = symmem[g]; be[i] = s.e[(a + i) & 7]; bi[i] = s.i[(a + i) & 7]; }
		if (be[i]) none = false;
		if (i == 0) first = be[0];
		if (!be[i] || be[i] != first || bi[i] != i) whole = false;
	}
	if (none) return C(rawload(a, n));
	if (whole && first->w == n * 8) return Val{0, first};
	Expr *r = nullptr;
	for (unsigned i = 0; i < n; i++) {
		Expr *b;
		if (!be[i]) b = X.con(*(u8*) (a + i), 8);
		else {
			Expr *e = be[i];
			if (e->op == E_FIX) return Val{1, e};	// partial access to a symbolic double: caller concretises
			b = bi[i] * 8 + 8 <= e->w ? X.extract(e, bi[i] * 8, 8) : X.zext(X.extract(e, bi[i] * 8, e->w - bi[i] * 8), 8);
		}
		r = r ? X.concat(b, r) : b;
	}
	if (r->op == E_CONST) return C(r->c);
	return Val{0, r};
}
static void storebytes(u64 a, unsigned n, Val v) {
	if (!v.e) {
		if (anysym(a, n)) dropsym(a, n);
		if (inarena(a)) logmem((void*) a, n);
		switch (n) { case 1: *(u8*) a = v.v; break; case 2: { u16 x = v.v; memcpy((void*) a, &x, 2); break; } case 4: { u32 x = v.v; memcpy((void*) a, &x, 4); break; } default: memcpy((void*) a, &v.v, n); }
		return;
	}
	for (unsigned i = 0; i < n; i++) {
		u64 g = (a + i - ABASE) >> 3;
		if (i == 0 || ((a + i) & 7) == 0) loggran(g);
		if (!(shadow[g] & 0x80)) { SymGran s; memset(&s, 0, sizeof s); symmem[g] = s; shadow[g] |= 0x80; }
		SymGran &s = symmem[g];
		s.e[(a + i) & 7] = v.e; s.i[(a + i) & 7] = i;
	}
}

// ---------------------------------------------------------------- solver
static std::vector<u32> qlog;
static std::unordered_map<u32, int> qcache;	// expression id -> known infeasible(0) under the current path (monotone)
static void qinfeasible(u32 id) { if (qcache.emplace(id, 0).second) qlog.push_back(id); }
static std::vector<Expr*> pathcond;
static int zcheck(Expr *c, std::vector<u64> *mod) {	// 1 sat, 0 unsat, -1 unknown
	double t0 = now();
	auto getmodel = [&](Z3_solver s) {
		Z3_model m = Z3_solver_get_model(X.ctx, s);
		Z3_model_inc_ref(X.ctx, m);
		*mod = X.model;
		for (size_t i = 0; i < X.vars.size(); i++) {
			if (!X.vars[i].z) continue;
			Z3_func_decl d = Z3_get_app_decl(X.ctx, Z3_to_app(X.ctx, X.vars[i].z));
			Z3_ast v = Z3_model_get_const_interp(X.ctx, m, d);
			if (!v) continue;
			if (X.vars[i].w == 1) (*mod)[i] = Z3_get_bool_value(X.ctx, v) == Z3_L_TRUE;
			else { uint64_t u = 0; if (Z3_get_numeral_uint64(X.ctx, v, &u)) (*mod)[i] = u; }
		}
		Z3_model_dec_ref(X.ctx, m);
	};
	Z3_solver_push(X.ctx, solver);
	Z3_solver_assert(X.ctx, solver, X.z(c));
	Z3_lbool r = Z3_solver_check(X.ctx, solver);
	if (r == Z3_L_TRUE && mod) getmodel(solver);
	Z3_solver_pop(X.ctx, solver, 1);
	if (r == Z3_L_UNDEF) {	// a second attempt, by bit-blasting everything afresh
		INC(retries, 1);
		Z3_solver s = Z3_mk_solver_for_logic(X.ctx, Z3_mk_string_symbol(X.ctx, "QF_BV"));
		Z3_solver_inc_ref(X.ctx, s);
		Z3_params pr = Z3_mk_params(X.ctx); Z3_params_inc_ref(X.ctx, pr);
		Z3_params_set_uint(X.ctx, pr, Z3_mk_string_symbol(X.ctx, "rlimit"), optRlimit);
		double left = deadline - now(); if (left < 1) left = 1;
		Z3_params_set_uint(X.ctx, pr, Z3_mk_string_symbol(X.ctx, "timeout"), (unsigned) (left * 1000));
		Z3_solver_set_params(X.ctx, s, pr);
		for (Expr *p : pathcond) Z3_solver_assert(X.ctx, s, X.z(p));
		Z3_solver_assert(X.ctx, s, X.z(c));
		r = Z3_solver_check(X.ctx, s);
		if (r == Z3_L_TRUE && mod) getmodel(s);
		Z3_params_dec_ref(X.ctx, pr);
		Z3_solver_dec_ref(X.ctx, s);
	}
	INC(queries, 1); INC(solverns, (u64) ((now() - t0) * 1e9));
	static const char *slow = getenv("IRSYM_SLOW");
	if (slow && now() - t0 > atof(slow)) { FILE *sf = fopen("/tmp/slow.log", "a"); if (sf) { fprintf(sf, "slow query: %.1f s, %s: %s\n", now() - t0, r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown", X.str(c, 8).c_str()); fclose(sf); } }
	if (r == Z3_L_TRUE) { INC(qsat, 1); return 1; }
	if (r == Z3_L_FALSE) { INC(qunsat, 1); return 0; }
	INC(qunknown, 1);
	return -1;
}
static bool feasible(Expr *c, std::vector<u64> *mod) {
	if (X.isc(c)) { if (mod) *mod = X.model; return c->c; }
	auto it = qcache.find(c->id);
	if (it != qcache.end()) return false;
	int r = zcheck(c, mod);
	if (r == 0) qinfeasible(c->id);
	if (r < 0) { INC(ended[K_UNKNOWN], 1); return false; }
	if (r == 1 && mod) {	// sanity: the model must satisfy c
		X.model.swap(*mod); X.epoch++;
		u64 ok = X.eval(c);
		X.model.swap(*mod); X.epoch++;
		if (!ok) engerr("solver model does not satisfy the query: %s", X.str(c, 6).c_str());
	}
	return r == 1;
}
static void learn(Expr *c) {
	qinfeasible(X.not_(c)->id);
	if (c->op == E_AND && c->w == 1) { learn(c->k[0]); learn(c->k[1]); }
	else if (c->op == E_XOR && c->w == 1 && X.isc(c->k[1], 1) && c->k[0]->op == E_OR) { learn(X.not_(c->k[0]->k[0])); learn(X.not_(c->k[0]->k[1])); }
}
static void assume(Expr *c) {
	if (X.isc(c)) { if (!c->c) endpath(K_INFEASIBLE); return; }
	Z3_solver_assert(X.ctx, solver, X.z(c)); pathcond.push_back(c);
	learn(c);
}
static void setmodel(std::vector<u64> &m) { X.model.swap(m); X.model.resize(X.vars.size()); X.epoch++; }

static void checkstop() {
	if (sh->stop) endpath(K_CUT);
	if (now() > deadline) { sh->stop = 1; endpath(K_CUT); }
}

struct Backtrack {};
struct Dec { bool t; u64 v; };
struct Choice;
static bool pure = true;	// false once the process has called native code whose effects cannot be undone
static std::vector<Dec> decs;	// decisions of the instruction being executed
static size_t nextdec = 0;
static void resume(size_t at);
static bool trytoken() {
	for (int t = sh->tokens; t > 0; t = sh->tokens) if (__sync_bool_compare_and_swap(&sh->tokens, t, t - 1)) return true;
	return false;
}
// Forks the process; returns true in the child.  Without a token the parent waits for the child.
static bool dofork(bool tok) {
	checkstop();
	flushsteps();
	pid_t p;
	for (int tries = 0; (p = fork()) < 0; tries++) { if (tries > 200) engerr("fork failed: %s", strerror(errno)); usleep(20000); }
	if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); kids.clear(); owntoken = tok; laststeps = steps; return true; }
	INC(procs, 1);
	if (tok) { kids.push_back(p); return false; }
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (!WIFEXITED(st)) { INC(abnormal, 1); sh->stop = 1; }
	return false;
}
static void pushchoice(Expr *other, std::vector<u64> &m, u64 v);
static bool cangive(); static void give();
// The current model satisfies c.  Explores the other side too if it is feasible: returns true on the
// side where c holds, false on the other.  v is kept with the decision.
static bool decide(Expr *c, u64 v) {
	std::vector<u64> m;
	Expr *other = X.not_(c);
	if (!feasible(other, &m)) { decs.push_back(Dec{true, v}); nextdec++; return true; }
	checkstop();
	INC(forks, 1);
	if (!pure) {
		if (dofork(trytoken())) { assume(other); setmodel(m); decs.push_back(Dec{false, v}); nextdec++; return false; }
	} else {
		pushchoice(other, m, v);
		Z3_solver_push(X.ctx, solver);
		if (sh->tokens > 0 && cangive() && trytoken()) give();
	}
	assume(c);
	decs.push_back(Dec{true, v}); nextdec++;
	return true;
}
static int exitcode = 0;
[[noreturn]] static void finish() {
	flushsteps();
	if (owntoken) INC(tokens, 1);
	for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; if (!WIFEXITED(st)) { INC(abnormal, 1); sh->stop = 1; } }
	_exit(exitcode);
}
// Writes down the inputs of some of the paths that ended well, for native validation.
static void sample() {
	u64 n = __sync_add_and_fetch(&sh->okpaths, 1);
	if (n & (n - 1)) return;
	int i = __builtin_ctzll(n);
	if (i > 14) return;
	char fn[512]; snprintf(fn, sizeof fn, "%s/sample%d.txt", optCexDir.c_str(), i);
	FILE *f = fopen(fn, "w"); if (!f) return;
	for (auto &s : symlog) fprintf(f, "%s = %lld\n", s.name.c_str(), (long long) (s.base + (i64) (s.e ? X.eval(s.e) : s.v)));
	fclose(f);
}
static void endpath(EndKind k) {
	INC(paths, 1); INC(ended[k], 1); if (k == K_OK || k == K_EXIT) sample();
	if (haschoices()) { if (!sh->stop) throw Backtrack(); INC(paths, 1); INC(ended[K_CUT], 1); }
	finish();
}
struct CompileErr { std::string msg; };
static bool compiling = false;	// errors found while translating an instruction count only if it is executed
static void engerr(const char *fmt, ...) {
	va_list ap; char b[512]; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (compiling) throw CompileErr{b};
	std::string s = std::string(b) + "  at " + stacktrace();
	lock();
	int n = sh->nengerr; if (n < 8) { strncpy(sh->engerr[n], s.c_str(), 511); sh->nengerr = n + 1; }
	unlock();
	endpath(K_ENGERR);
}

// Decides a symbolic condition, exploring both outcomes if both are possible.
static bool branch(Expr *c) {
	if (X.isc(c)) return c->c;
	if (nextdec < decs.size()) { Dec &d = decs[nextdec++]; return d.t ? d.v : !d.v; }
	bool cur = X.eval(c);
	return decide(cur ? c : X.not_(c), cur) ? cur : !cur;
}
// Gives e one concrete value; its other feasible values are explored, too.
static u64 concretise(Expr *e) {
	if (e->op == E_CONST) return e->c;
	if (e->op == E_FIX) { u64 n = concretise(e->k[0]); Expr *f = X.fix(X.con(n, 64), e->aux, e->w); return X.evalop(f); }
	INC(concretised, 1);
	for (;;) {
		if (nextdec < decs.size()) { Dec d = decs[nextdec++]; if (d.t) return d.v; continue; }
		u64 v = X.eval(e);
		if (decide(X.eq(e, X.con(v, e->w)), v)) return v;
	}
}
static inline u64 cv(Val &v) { if (v.e) { v.v = concretise(v.e); v.e = nullptr; } return v.v; }
static inline Expr *ex(const Val &v, unsigned w) {
	if (!v.e) return X.con(v.v, w);
	if (v.e->op == E_FIX) return X.con(concretise(v.e), w);
	return v.e;
}
static inline Val mk(Expr *e) { if (e->op == E_CONST) return C(e->c); return Val{0, e}; }

// ---------------------------------------------------------------- violations
static void writecex(const char *kind, const std::string &msg) {
	lock();
	int n = sh->ncex;
	bool dup = false;
	std::string key = std::string(kind) + ": " + msg;
	for (int i = 0; i < n; i++) if (key.substr(0, 399) == sh->cexmsg[i]) dup = true;
	if (!dup && n < MaxCex) {
		strncpy(sh->cexmsg[n], key.c_str(), 399);
		char fn[512]; snprintf(fn, sizeof fn, "%s/cex%d.txt", optCexDir.c_str(), n);
		FILE *f = fopen(fn, "w");
		if (f) {
			fprintf(f, "# kind %s\n# msg %s\n# at %s\n", kind, msg.c_str(), stacktrace().c_str());
			for (auto &s : symlog) {
				if (s.fp) { u64 r = s.e ? X.eval(s.e) : s.v; fprintf(f, "%s = %lld\n", s.name.c_str(), (long long) ((i64) r)); }
				else fprintf(f, "%s = %lld\n", s.name.c_str(), (long long) (s.base + (i64) (s.e ? X.eval(s.e) : s.v)));
			}
			fclose(f);
			sh->ncex = n + 1;
		}
	}
	if (sh->ncex >= optMaxCex) sh->stop = 1;
	unlock();
}
static void violation(const char *kind, const std::string &msg) {
	writecex(kind, msg);
	endpath(K_VIOL);
}

// ---------------------------------------------------------------- code
enum IOp : u16 { I_BIN, I_CMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_LOAD, I_STORE, I_GEP, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_MOVE,
	I_LANDINGPAD, I_RESUME, I_UNREACHABLE, I_VAARG, I_ATOMICRMW, I_CMPXCHG, I_FREEZE };
struct Slot { u8 bits; u8 fp; u32 off; };	// flattened component of a type
typedef SmallVector<Slot, 4> Flat;

struct FnCode;
struct Edge { u32 pc; std::vector<std::pair<i32,i32>> moves; bool overlap; };
struct CallInfo {
	Function *callee = nullptr; i32 calleeop = 0; FnCode *code = nullptr; int builtin = -1; void *native = nullptr; bool resolved = false; int ispure = -1;
	std::vector<i32> args; std::vector<u8> argfp, argbits; std::vector<u64> byval;
	Flat ret; bool isinvoke = false; Edge normal, unwind; unsigned nfixed = 0; bool vararg = false; bool fret = false; u8 retbits = 0; std::string name;
};
struct SwitchInfo { std::vector<std::pair<u64, Edge>> cases; Edge def; std::unordered_map<u64, u32> map; };
struct PadInfo { bool cleanup; std::vector<i32> catches; };
struct Inst {
	u16 op; u8 w, w2; u8 sub; u8 nslots; bool inb;
	i32 dst, a, b, c; i64 imm;
	void *p; const Instruction *I;
};
struct GepInfo { i64 base; std::vector<std::pair<i32, i64>> idx; std::vector<u8> w; };
struct BrInfo { Edge t, f; };
struct MemInfo { Flat flat; };
struct FnCode {
	Function *F; std::vector<Inst> code; u32 nregs = 0; u32 frameAlloca = 0; std::vector<i32> params; bool compiled = false; int id;
	std::vector<Val> K;	// constants (shared pool per function)
};
static std::unordered_map<const Function*, FnCode*> fncode;
static std::unordered_map<u64, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, u64> gvaddr;
static std::vector<FnCode*> allfns;

struct Frame { FnCode *fn; u32 pc; Val *r; u64 stackmark; Inst *callinst; u64 va; };
static std::vector<Frame> stack_;
static Val *regbase, *regtop;

static std::string fname(const Function *f) { return demangle(f->getName().str()); }
static std::string stacktrace() {
	std::string s; int n = 0;
	for (int i = (int) stack_.size() - 1; i >= 0 && n < 8; i--, n++) { s += (n ? " < " : ""); std::string f = fname(stack_[i].fn->F); if (f.size() > 120) f = f.substr(0, 117) + "..."; s += f; }
	for (auto &c : s) if (c == '\n') c = ' ';
	return s;
}

static void flatten(Type *T, Flat &out, u32 off = 0) {
	if (T->isVoidTy()) return;
	if (auto *S = dyn_cast<StructType>(T)) {
		auto *L = DL->getStructLayout(S);
		for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), out, off + L->getElementOffset(i));
		return;
	}
	if (auto *A = dyn_cast<ArrayType>(T)) {
		u64 sz = DL->getTypeAllocSize(A->getElementType());
		for (u64 i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), out, off + i * sz);
		return;
	}
	if (auto *V = dyn_cast<FixedVectorType>(T)) {
		u64 sz = DL->getTypeAllocSize(V->getElementType());
		for (u64 i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), out, off + i * sz);
		return;
	}
	u64 bits = DL->getTypeSizeInBits(T);
	if (T->isX86_FP80Ty()) { out.push_back(Slot{80, 2, off}); return; }
	if (bits == 128) { out.push_back(Slot{64, 0, off}); out.push_back(Slot{64, 0, off + 8}); return; }
	if (bits > 64) { out.push_back(Slot{255, 0, off}); return; }
	out.push_back(Slot{(u8) bits, (u8) (T->isFloatingPointTy() ? 1 : 0), off});
}

static u64 addrOf(const GlobalValue *g);
static u64 constInt(const Constant *c);
static void constFlat(const Constant *c, std::vector<Val> &out) {
	Type *T = c->getType();
	if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
		unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
		for (unsigned i = 0; i < n; i++) constFlat(c->getAggregateElement(i), out);
		return;
	}
	if (T->isIntegerTy(128)) {
		if (auto *CI = dyn_cast<ConstantInt>(c)) { out.push_back(C(CI->getValue().extractBitsAsZExtValue(64, 0))); out.push_back(C(CI->getValue().extractBitsAsZExtValue(64, 64))); }
		else { out.push_back(C(0)); out.push_back(C(0)); }
		return;
	}
	if (T->isX86_FP80Ty()) { out.push_back(C(0)); return; }
	out.push_back(C(constInt(c)));
}
static u64 constInt(const Constant *c) {
	if (auto *CI = dyn_cast<ConstantInt>(c)) return CI->getValue().getBitWidth() <= 64 ? CI->getZExtValue() : CI->getValue().trunc(64).getZExtValue();
	if (auto *CF = dyn_cast<ConstantFP>(c)) {
		APInt b = CF->getValueAPF().bitcastToAPInt();
		return b.trunc(std::min(64u, b.getBitWidth())).getZExtValue();
	}
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto *GA = dyn_cast<GlobalAlias>(c)) return constInt(GA->getAliasee());
	if (auto *GV = dyn_cast<GlobalValue>(c)) return addrOf(GV);
	if (auto *CE = dyn_cast<ConstantExpr>(c)) {
		switch (CE->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) engerr("constant GEP");
			return constInt(CE->getOperand(0)) + off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constInt(CE->getOperand(0));
		case Instruction::Trunc: return constInt(CE->getOperand(0)) & maskw(DL->getTypeSizeInBits(CE->getType()));
		case Instruction::Sub: return (constInt(CE->getOperand(0)) - constInt(CE->getOperand(1))) & maskw(DL->getTypeSizeInBits(CE->getType()));
		case Instruction::Add: return (constInt(CE->getOperand(0)) + constInt(CE->getOperand(1))) & maskw(DL->getTypeSizeInBits(CE->getType()));
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os);
	engerr("unsupported constant %s", s.c_str());
}

static void storeConst(const Constant *c, u64 a) {
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset((void*) a, 0, DL->getTypeStoreSize(c->getType())); return; }
	if (auto *CD = dyn_cast<ConstantDataSequential>(c)) { StringRef r = CD->getRawDataValues(); memcpy((void*) a, r.data(), r.size()); return; }
	Type *T = c->getType();
	if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) storeConst(c->getAggregateElement(i), a + L->getElementOffset(i)); return; }
	if (T->isArrayTy()) { u64 sz = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i = 0; i < T->getArrayNumElements(); i++) storeConst(c->getAggregateElement(i), a + i * sz); return; }
	if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) storeConst(c->getAggregateElement(i), a + i * sz); return; }
	if (T->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy((void*) a, b.getRawData(), 10); return; }
	u64 v = constInt(c);
	memcpy((void*) a, &v, std::min<u64>(8, DL->getTypeStoreSize(T)));
}
static u64 galloc(u64 n, u64 align) {
	if (align < 16) align = 16;
	u64 a = (globtop + align - 1) & ~(align - 1);
	setaddr(a, n, true);
	globtop = a + ((n + 7) & ~7ull) + 32;
	if (globtop > STACK0) { fprintf(stderr, "global arena exhausted\n"); exit(3); }
	return a;
}
static u64 badext = 0x6600000000ull;	// unresolved external variables: never mapped
static u64 nextfn = 0x7f00000000ull;
static u64 addrOf(const GlobalValue *g) {
	auto it = gvaddr.find(g);
	if (it != gvaddr.end()) return it->second;
	u64 a = 0;
	if (auto *A = dyn_cast<GlobalAlias>(g)) a = constInt(A->getAliasee());
	else if (auto *F = dyn_cast<Function>(g)) { a = nextfn; nextfn += 16; fnByAddr[a] = const_cast<Function*>(F); }
	else {
		auto *V = cast<GlobalVariable>(g);
		if (V->isDeclaration()) {
			void *p = dlsym(RTLD_DEFAULT, V->getName().str().c_str());
			if (!p) { if (V->hasExternalWeakLinkage()) p = nullptr; else { p = (void*) badext; badext += 4096; } }
			a = (u64) p;
		} else {
			a = galloc(DL->getTypeAllocSize(V->getValueType()), V->getAlign() ? V->getAlign()->value() : 16);
			gvaddr[g] = a;
			return a;
		}
	}
	gvaddr[g] = a;
	return a;
}

// ---------------------------------------------------------------- compiling functions to Inst arrays
struct Compiler {
	FnCode *fc;
	DenseMap<const Value*, i32> slot;
	DenseMap<const BasicBlock*, u32> bbpc;
	DenseMap<const Constant*, i32> kslot;
	std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix;

	unsigned nslots(Type *T) { Flat f; flatten(T, f); return f.size(); }
	i32 opnd(const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) {
			auto it = kslot.find(c);
			if (it != kslot.end()) return it->second;
			i32 at = ~(i32) fc->K.size();
			std::vector<Val> vs; constFlat(c, vs);
			// consecutive slots: constants use ~index, so slot i of an aggregate is ~(index+i)
			for (auto &x : vs) fc->K.push_back(x);
			if (vs.empty()) fc->K.push_back(C(0));
			kslot[c] = at;
			return at;
		}
		auto it = slot.find(v);
		if (it != slot.end()) return it->second;
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
		i32 s = fc->nregs; fc->nregs += std::max(1u, nslots(v->getType()));
		slot[v] = s;
		return s;
	}
	i32 sub(i32 o, unsigned i) { return o >= 0 ? o + (i32) i : ~((~o) + (i32) i); }
	void edge(Edge &e, const BasicBlock *from, const BasicBlock *to) { fix.push_back({&e, {from, to}}); }

	void run() {
		Function *F = fc->F;
		for (auto &A : F->args()) fc->params.push_back(opnd(&A));
		for (auto &B : *F) {
			bbpc[&B] = fc->code.size();
			for (auto &I : B) if (!isa<PHINode>(I)) {
				size_t at = fc->code.size(), nf = fix.size();
				compiling = true;
				try { inst(I, &B); }
				catch (CompileErr &e) {
					fc->code.resize(at); fix.resize(nf);
					Inst n; memset(&n, 0, sizeof n); n.I = &I; n.op = 2000; n.dst = -1; n.p = new std::string(e.msg); emit(n);
				}
				compiling = false;
			}
		}
		for (auto &f : fix) {
			Edge &e = *f.first; const BasicBlock *from = f.second.first, *to = f.second.second;
			e.pc = bbpc[to];
			std::set<i32> dsts;
			for (auto &I : *to) {
				auto *P = dyn_cast<PHINode>(&I); if (!P) break;
				const Value *in = P->getIncomingValueForBlock(from);
				if (isa<UndefValue>(in)) continue;
				i32 d = opnd(P), s = opnd(in); unsigned n = nslots(P->getType());
				for (unsigned i = 0; i < n; i++) { e.moves.push_back({d + (i32) i, sub(s, i)}); dsts.insert(d + i); }
			}
			e.overlap = false;
			for (auto &m : e.moves) if (dsts.count(m.second)) e.overlap = true;
		}
		fc->compiled = true;
	}
	unsigned bits(Type *T) { return T->isPointerTy() ? 64 : (unsigned) DL->getTypeSizeInBits(T); }
	[[noreturn]] void bad(const Instruction &I) { std::string s; raw_string_ostream os(s); I.print(os); engerr("unsupported instruction: %s", s.c_str()); }

	void emit(Inst i) { fc->code.push_back(i); }
	void inst(const Instruction &I, const BasicBlock *B) {
		Inst n; memset(&n, 0, sizeof n); n.I = &I;
		unsigned ns = I.getType()->isVoidTy() ? 0 : nslots(I.getType());
		n.nslots = ns;
		if (!I.getType()->isVoidTy()) n.dst = opnd(&I); else n.dst = -1;
		bool vec = I.getType()->isVectorTy();
		unsigned opc = I.getOpcode();
		if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
			Type *ET = I.getType()->getScalarType();
			if (ET->isX86_FP80Ty()) bad(I);
			if (ET->isIntegerTy() && ET->getIntegerBitWidth() > 64) {
				n.op = 1000; n.p = (void*) &I; n.a = opnd(BO->getOperand(0)); n.b = opnd(BO->getOperand(1)); n.sub = opc; n.w = 128; emit(n); return;
			}
			i32 a = opnd(BO->getOperand(0)), b = opnd(BO->getOperand(1));
			unsigned cnt = vec ? cast<FixedVectorType>(I.getType())->getNumElements() : 1;
			for (unsigned i = 0; i < cnt; i++) {
				Inst m = n; m.nslots = 1; m.dst = n.dst + i; m.a = sub(a, i); m.b = sub(b, i); m.w = bits(ET); m.sub = opc;
				m.op = ET->isFloatingPointTy() ? I_FBIN : I_BIN;
				emit(m);
			}
			return;
		}
		if (isa<UnaryOperator>(&I)) {
			i32 a = opnd(I.getOperand(0)); unsigned cnt = vec ? cast<FixedVectorType>(I.getType())->getNumElements() : 1;
			for (unsigned i = 0; i < cnt; i++) { Inst m = n; m.op = I_FNEG; m.dst = n.dst + i; m.a = sub(a, i); m.w = bits(I.getType()->getScalarType()); emit(m); }
			return;
		}
		if (auto *CI = dyn_cast<CmpInst>(&I)) {
			Type *OT = CI->getOperand(0)->getType(); Type *ET = OT->getScalarType();
			i32 a = opnd(CI->getOperand(0)), b = opnd(CI->getOperand(1));
			if (ET->isX86_FP80Ty()) bad(I);
			if (bits(ET) > 64) { n.op = 1001; n.a = a; n.b = b; n.sub = CI->getPredicate(); emit(n); return; }
			unsigned cnt = OT->isVectorTy() ? cast<FixedVectorType>(OT)->getNumElements() : 1;
			for (unsigned i = 0; i < cnt; i++) { Inst m = n; m.op = ET->isFloatingPointTy() ? I_FCMP : I_CMP; m.dst = n.dst + i; m.a = sub(a, i); m.b = sub(b, i); m.w = bits(ET); m.sub = CI->getPredicate(); emit(m); }
			return;
		}
		if (auto *CI = dyn_cast<CastInst>(&I)) {
			Type *ST = CI->getSrcTy(), *DT = CI->getDestTy();
			i32 a = opnd(CI->getOperand(0));
			if (opc == Instruction::BitCast && (ST->isVectorTy() || DT->isVectorTy() || bits(ST) > 64)) {
				Flat fs, fd; flatten(ST, fs); flatten(DT, fd);
				if (fs.size() == fd.size()) { for (unsigned i = 0; i < fs.size(); i++) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = sub(a, i); emit(m); } return; }
				bad(I);
			}
			unsigned sb = bits(ST->getScalarType()), db = bits(DT->getScalarType());
			if (ST->getScalarType()->isX86_FP80Ty() || DT->getScalarType()->isX86_FP80Ty()) { n.op = 1003; n.sub = opc; n.a = a; n.w = sb; n.w2 = db; emit(n); return; }
			if (sb > 64 || db > 64) { n.op = 1002; n.sub = opc; n.a = a; n.w = sb > 64 ? 128 : sb; n.w2 = db > 64 ? 128 : db; emit(n); return; }
			unsigned cnt = DT->isVectorTy() ? cast<FixedVectorType>(DT)->getNumElements() : 1;
			for (unsigned i = 0; i < cnt; i++) { Inst m = n; m.op = I_CAST; m.dst = n.dst + i; m.a = sub(a, i); m.w = sb; m.w2 = db; m.sub = opc; emit(m); }
			return;
		}
		switch (opc) {
		case Instruction::Load: {
			auto *L = cast<LoadInst>(&I);
			auto *mi = new MemInfo; flatten(I.getType(), mi->flat);
			n.op = I_LOAD; n.a = opnd(L->getPointerOperand()); n.p = mi; n.inb = I.getType()->isPointerTy(); emit(n); return; }
		case Instruction::Store: {
			auto *S = cast<StoreInst>(&I);
			auto *mi = new MemInfo; flatten(S->getValueOperand()->getType(), mi->flat);
			n.op = I_STORE; n.a = opnd(S->getPointerOperand()); n.b = opnd(S->getValueOperand()); n.p = mi; emit(n); return; }
		case Instruction::GetElementPtr: {
			auto *G = cast<GetElementPtrInst>(&I);
			if (vec) bad(I);
			auto *gi = new GepInfo; gi->base = 0;
			for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
				const Value *ix = it.getOperand();
				if (auto *ST = it.getStructTypeOrNull()) { gi->base += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
				i64 sz = DL->getTypeAllocSize(it.getIndexedType());
				if (auto *c = dyn_cast<ConstantInt>(ix)) { gi->base += c->getSExtValue() * sz; continue; }
				gi->idx.push_back({opnd(ix), sz}); gi->w.push_back(bits(ix->getType()));
			}
			n.op = I_GEP; n.a = opnd(G->getPointerOperand()); n.p = gi; emit(n); return; }
		case Instruction::Select: {
			i32 c = opnd(I.getOperand(0)), a = opnd(I.getOperand(1)), b = opnd(I.getOperand(2));
			bool vc = I.getOperand(0)->getType()->isVectorTy();
			Flat f; flatten(I.getType(), f);
			for (unsigned i = 0; i < f.size(); i++) { Inst m = n; m.op = I_SELECT; m.dst = n.dst + i; m.a = vc ? sub(c, i) : c; m.b = sub(a, i); m.c = sub(b, i); m.w = f[i].bits; m.sub = f[i].fp; m.inb = I.getType()->isPointerTy(); emit(m); }
			return; }
		case Instruction::Br: {
			auto *b = cast<BranchInst>(&I); auto *bi = new BrInfo; n.p = bi;
			if (b->isConditional()) { n.op = I_CONDBR; n.a = opnd(b->getCondition()); edge(bi->t, B, b->getSuccessor(0)); edge(bi->f, B, b->getSuccessor(1)); }
			else { n.op = I_BR; edge(bi->t, B, b->getSuccessor(0)); }
			emit(n); return; }
		case Instruction::Switch: {
			auto *s = cast<SwitchInst>(&I); auto *si = new SwitchInfo; n.op = I_SWITCH; n.p = si; n.a = opnd(s->getCondition()); n.w = bits(s->getCondition()->getType());
			si->cases.resize(s->getNumCases()); unsigned i = 0;
			for (auto &c : s->cases()) { si->cases[i].first = c.getCaseValue()->getZExtValue(); si->map[si->cases[i].first] = i; edge(si->cases[i].second, B, c.getCaseSuccessor()); i++; }
			edge(si->def, B, s->getDefaultDest());
			emit(n); return; }
		case Instruction::Ret: {
			n.op = I_RET; auto *rv = cast<ReturnInst>(&I)->getReturnValue();
			if (rv) { n.a = opnd(rv); n.nslots = nslots(rv->getType()); } else n.nslots = 0;
			emit(n); return; }
		case Instruction::Alloca: {
			auto *A = cast<AllocaInst>(&I); n.op = I_ALLOCA; n.imm = DL->getTypeAllocSize(A->getAllocatedType()); n.a = opnd(A->getArraySize()); n.c = A->getAlign().value(); emit(n); return; }
		case Instruction::ExtractValue: {
			auto *E = cast<ExtractValueInst>(&I); unsigned off = slotoff(E->getAggregateOperand()->getType(), E->getIndices()); i32 a = opnd(E->getAggregateOperand());
			for (unsigned i = 0; i < ns; i++) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = sub(a, off + i); emit(m); }
			return; }
		case Instruction::InsertValue: {
			auto *E = cast<InsertValueInst>(&I); unsigned off = slotoff(E->getAggregateOperand()->getType(), E->getIndices()); i32 a = opnd(E->getAggregateOperand()), v = opnd(E->getInsertedValueOperand()); unsigned nv = nslots(E->getInsertedValueOperand()->getType());
			for (unsigned i = 0; i < ns; i++) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = (i >= off && i < off + nv) ? sub(v, i - off) : sub(a, i); emit(m); }
			return; }
		case Instruction::ExtractElement: {
			auto *ix = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ix) bad(I);
			n.op = I_MOVE; n.a = sub(opnd(I.getOperand(0)), ix->getZExtValue()); emit(n); return; }
		case Instruction::InsertElement: {
			auto *ix = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ix) bad(I);
			i32 a = opnd(I.getOperand(0)), v = opnd(I.getOperand(1));
			for (unsigned i = 0; i < ns; i++) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = i == ix->getZExtValue() ? v : sub(a, i); emit(m); }
			return; }
		case Instruction::ShuffleVector: {
			auto *S = cast<ShuffleVectorInst>(&I); i32 a = opnd(S->getOperand(0)), b = opnd(S->getOperand(1)); unsigned na = cast<FixedVectorType>(S->getOperand(0)->getType())->getNumElements();
			unsigned i = 0;
			for (int mk : S->getShuffleMask()) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = mk < 0 ? sub(a, 0) : (unsigned) mk < na ? sub(a, mk) : sub(b, mk - na); emit(m); i++; }
			return; }
		case Instruction::Freeze: {
			i32 a = opnd(I.getOperand(0));
			for (unsigned i = 0; i < ns; i++) { Inst m = n; m.op = I_MOVE; m.dst = n.dst + i; m.a = sub(a, i); emit(m); }
			return; }
		case Instruction::Unreachable: n.op = I_UNREACHABLE; emit(n); return;
		case Instruction::LandingPad: {
			auto *L = cast<LandingPadInst>(&I); auto *pi = new PadInfo; pi->cleanup = L->isCleanup();
			for (unsigned i = 0; i < L->getNumClauses(); i++) { if (L->isCatch(i)) pi->catches.push_back(opnd(L->getClause(i))); else pi->catches.push_back(INT32_MIN); }
			n.op = I_LANDINGPAD; n.p = pi; emit(n); return; }
		case Instruction::Resume: n.op = I_RESUME; n.a = opnd(I.getOperand(0)); emit(n); return;
		case Instruction::VAArg: bad(I);
		case Instruction::Fence: return;
		case Instruction::AtomicRMW: {
			auto *A = cast<AtomicRMWInst>(&I); n.op = I_ATOMICRMW; n.a = opnd(A->getPointerOperand()); n.b = opnd(A->getValOperand()); n.sub = A->getOperation(); n.w = bits(I.getType()); emit(n); return; }
		case Instruction::AtomicCmpXchg: {
			auto *A = cast<AtomicCmpXchgInst>(&I); n.op = I_CMPXCHG; n.a = opnd(A->getPointerOperand()); n.b = opnd(A->getCompareOperand()); n.c = opnd(A->getNewValOperand()); n.w = bits(A->getCompareOperand()->getType()); emit(n); return; }
		case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), n, B); return;
		default: bad(I);
		}
	}
	unsigned slotoff(Type *T, ArrayRef<unsigned> idx) {
		unsigned off = 0;
		for (unsigned ix : idx) {
			if (auto *S = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) off += nslots(S->getElementType(i)); T = S->getElementType(ix); }
			else { auto *A = cast<ArrayType>(T); off += ix * nslots(A->getElementType()); T = A->getElementType(); }
		}
		return off;
	}
	void call(const CallBase &I, Inst n, const BasicBlock *B);
};

// ---------------------------------------------------------------- builtins
enum Bi { B_NONE, B_IGNORE, B_MEMCPY, B_MEMSET, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEWALIGN, B_OVF, B_MINMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSH, B_FABS, B_FMATH1, B_FMINMAX, B_FMULADD, B_COPYSIGN,
	B_EXPECT, B_OBJSIZE, B_ISCONST, B_STACKSAVE, B_STACKRESTORE, B_VASTART, B_VAEND, B_VACOPY, B_TRAP, B_TYPEID, B_ASSUME, B_SAT, B_ISFPCLASS, B_PTRMASK,
	B_SYMRANGE, B_SYMASSUME, B_SYMASSERT, B_SYMCOVER, B_SYMFIND, B_SYMFIX, B_SYMFAIL, B_SYMEXITMODE, B_SYMNATIVE, B_SYMDONE, B_SYMDEBUG, B_SYMCONC, B_SYMISSYM, B_SYMSTEPS, B_SYMMERGE,
	B_EXIT, B_ABORT, B_ASSERTFAIL, B_CXATHROW, B_CXAALLOC, B_CXAFREE, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_CXAATEXIT, B_TERMINATE, B_STDTHROW, B_TIME, B_GUARDACQ, B_GUARDREL, B_PUREVIRT, B_CURRENTEXC, B_STRLEN };

static bool startswith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static int findBuiltin(const std::string &n, Inst &in) {
	if (startswith(n, "llvm.")) {
		struct { const char *p; int b; int sub; } t[] = {
			{"llvm.memcpy.", B_MEMCPY, 0}, {"llvm.memmove.", B_MEMCPY, 1}, {"llvm.memset.", B_MEMSET, 0},
			{"llvm.lifetime", B_IGNORE, 0}, {"llvm.dbg", B_IGNORE, 0}, {"llvm.assume", B_IGNORE, 0}, {"llvm.experimental.noalias", B_IGNORE, 0}, {"llvm.invariant", B_IGNORE, 0}, {"llvm.donothing", B_IGNORE, 0}, {"llvm.prefetch", B_IGNORE, 0}, {"llvm.var.annotation", B_IGNORE, 0},
			{"llvm.uadd.with", B_OVF, 0}, {"llvm.sadd.with", B_OVF, 1}, {"llvm.usub.with", B_OVF, 2}, {"llvm.ssub.with", B_OVF, 3}, {"llvm.umul.with", B_OVF, 4}, {"llvm.smul.with", B_OVF, 5},
			{"llvm.umax", B_MINMAX, 0}, {"llvm.umin", B_MINMAX, 1}, {"llvm.smax", B_MINMAX, 2}, {"llvm.smin", B_MINMAX, 3},
			{"llvm.abs", B_ABS, 0}, {"llvm.ctlz", B_CTLZ, 0}, {"llvm.cttz", B_CTTZ, 0}, {"llvm.ctpop", B_CTPOP, 0}, {"llvm.bswap", B_BSWAP, 0}, {"llvm.fshl", B_FSH, 0}, {"llvm.fshr", B_FSH, 1},
			{"llvm.fabs", B_FABS, 0}, {"llvm.sqrt", B_FMATH1, 0}, {"llvm.floor", B_FMATH1, 1}, {"llvm.ceil", B_FMATH1, 2}, {"llvm.trunc.", B_FMATH1, 3}, {"llvm.round.", B_FMATH1, 4}, {"llvm.rint", B_FMATH1, 5}, {"llvm.nearbyint", B_FMATH1, 5}, {"llvm.sin.", B_FMATH1, 6}, {"llvm.cos.", B_FMATH1, 7}, {"llvm.exp.", B_FMATH1, 8}, {"llvm.log.", B_FMATH1, 9}, {"llvm.pow.", B_FMATH1, 10}, {"llvm.log10.", B_FMATH1, 11}, {"llvm.log2.", B_FMATH1, 12}, {"llvm.exp2.", B_FMATH1, 13},
			{"llvm.minnum", B_FMINMAX, 0}, {"llvm.maxnum", B_FMINMAX, 1}, {"llvm.fmuladd", B_FMULADD, 0}, {"llvm.fma", B_FMULADD, 1}, {"llvm.copysign", B_COPYSIGN, 0},
			{"llvm.expect", B_EXPECT, 0}, {"llvm.objectsize", B_OBJSIZE, 0}, {"llvm.is.constant", B_ISCONST, 0}, {"llvm.stacksave", B_STACKSAVE, 0}, {"llvm.stackrestore", B_STACKRESTORE, 0},
			{"llvm.va_start", B_VASTART, 0}, {"llvm.va_end", B_VAEND, 0}, {"llvm.va_copy", B_VACOPY, 0}, {"llvm.trap", B_TRAP, 0}, {"llvm.eh.typeid.for", B_TYPEID, 0},
			{"llvm.usub.sat", B_SAT, 0}, {"llvm.uadd.sat", B_SAT, 1}, {"llvm.is.fpclass", B_ISFPCLASS, 0}, {"llvm.launder", B_EXPECT, 0}, {"llvm.strip.invariant", B_EXPECT, 0}, {"llvm.threadlocal.address", B_EXPECT, 0},
		};
		for (auto &e : t) if (startswith(n, e.p)) { in.sub = e.sub; return e.b; }
		return B_NONE;
	}
	static const std::map<std::string, std::pair<int,int>> t = {
		{"malloc", {B_MALLOC,0}}, {"_Znwm", {B_MALLOC,1}}, {"_Znam", {B_MALLOC,1}}, {"_ZnwmRKSt9nothrow_t", {B_MALLOC,1}}, {"_ZnamRKSt9nothrow_t", {B_MALLOC,1}},
		{"_ZnwmSt11align_val_t", {B_NEWALIGN,0}}, {"_ZnamSt11align_val_t", {B_NEWALIGN,0}}, {"aligned_alloc", {B_NEWALIGN,1}},
		{"calloc", {B_CALLOC,0}}, {"realloc", {B_REALLOC,0}}, {"free", {B_FREE,0}}, {"_ZdlPv", {B_FREE,0}}, {"_ZdaPv", {B_FREE,0}}, {"_ZdlPvm", {B_FREE,0}}, {"_ZdaPvm", {B_FREE,0}},
		{"_ZdlPvSt11align_val_t", {B_FREE,0}}, {"_ZdlPvmSt11align_val_t", {B_FREE,0}}, {"_ZdaPvSt11align_val_t", {B_FREE,0}},
		{"memcpy", {B_MEMCPY,2}}, {"memmove", {B_MEMCPY,3}}, {"memset", {B_MEMSET,2}},
		{"sym_range_", {B_SYMRANGE,0}}, {"sym_assume", {B_SYMASSUME,0}}, {"sym_assert", {B_SYMASSERT,0}}, {"sym_cover", {B_SYMCOVER,0}}, {"sym_finding_", {B_SYMFIND,0}}, {"sym_fix_", {B_SYMFIX,0}}, {"sym_fail", {B_SYMFAIL,0}}, {"sym_exit_ok", {B_SYMEXITMODE,0}}, {"sym_native", {B_SYMNATIVE,0}}, {"sym_done", {B_SYMDONE,0}}, {"sym_debug", {B_SYMDEBUG,0}}, {"sym_conc", {B_SYMCONC,0}}, {"sym_issym", {B_SYMISSYM,0}}, {"sym_steps", {B_SYMSTEPS,0}}, {"sym_ite", {B_SYMMERGE,0}},
		{"exit", {B_EXIT,0}}, {"_exit", {B_EXIT,0}}, {"quick_exit", {B_EXIT,0}}, {"abort", {B_ABORT,0}}, {"__assert_fail", {B_ASSERTFAIL,0}}, {"__assert_perror_fail", {B_ASSERTFAIL,0}}, {"__cxa_pure_virtual", {B_PUREVIRT,0}},
		{"__cxa_throw", {B_CXATHROW,0}}, {"__cxa_allocate_exception", {B_CXAALLOC,0}}, {"__cxa_free_exception", {B_CXAFREE,0}}, {"__cxa_begin_catch", {B_CXABEGIN,0}}, {"__cxa_end_catch", {B_CXAEND,0}}, {"__cxa_rethrow", {B_CXARETHROW,0}}, {"__cxa_atexit", {B_CXAATEXIT,0}}, {"atexit", {B_CXAATEXIT,0}}, {"_ZSt9terminatev", {B_TERMINATE,0}},
		{"gettimeofday", {B_TIME,0}}, {"time", {B_TIME,1}}, {"clock", {B_TIME,2}}, {"getrusage", {B_TIME,3}}, {"clock_gettime", {B_TIME,4}}, {"clock_getcpuclockid", {B_TIME,5}},
		{"__cxa_guard_acquire", {B_GUARDACQ,0}}, {"__cxa_guard_release", {B_GUARDREL,0}}, {"__cxa_guard_abort", {B_IGNORE,0}}, {"__cxa_get_globals", {B_TRAP,0}},
		{"floor", {B_FMATH1,1}}, {"ceil", {B_FMATH1,2}}, {"sqrt", {B_FMATH1,0}}, {"trunc", {B_FMATH1,3}}, {"round", {B_FMATH1,4}}, {"rint", {B_FMATH1,5}}, {"fabs", {B_FABS,0}}, {"fmax", {B_FMINMAX,1}}, {"fmin", {B_FMINMAX,0}}, {"sin", {B_FMATH1,6}}, {"cos", {B_FMATH1,7}}, {"exp", {B_FMATH1,8}}, {"log", {B_FMATH1,9}}, {"pow", {B_FMATH1,10}}, {"log10", {B_FMATH1,11}}, {"log2", {B_FMATH1,12}}, {"exp2", {B_FMATH1,13}}, {"atan2", {B_FMATH1,14}}, {"atan", {B_FMATH1,15}}, {"acos", {B_FMATH1,16}}, {"asin", {B_FMATH1,17}}, {"fmod", {B_FMATH1,18}}, {"tan", {B_FMATH1,19}}, {"cbrt", {B_FMATH1,20}}, {"hypot", {B_FMATH1,21}}, {"ldexp", {B_FMATH1,22}}, {"sqrtf", {B_FMATH1,0}}, {"floorf", {B_FMATH1,1}}, {"ceilf", {B_FMATH1,2}},
		{"_ZNSt18condition_variable10notify_allEv", {B_IGNORE,0}}, {"_ZSt20__throw_length_errorPKc", {B_STDTHROW,0}}, {"_ZSt24__throw_out_of_range_fmtPKcz", {B_STDTHROW,1}}, {"_ZSt20__throw_out_of_rangePKc", {B_STDTHROW,1}}, {"_ZSt19__throw_logic_errorPKc", {B_STDTHROW,2}}, {"_ZSt17__throw_bad_allocv", {B_STDTHROW,3}}, {"_ZSt28__throw_bad_array_new_lengthv", {B_STDTHROW,4}}, {"_ZSt25__throw_bad_function_callv", {B_STDTHROW,5}}, {"__cxa_throw_bad_array_new_length", {B_STDTHROW,4}}, {"_ZSt24__throw_invalid_argumentPKc", {B_STDTHROW,6}},
	};
	auto it = t.find(n);
	if (it == t.end()) return B_NONE;
	in.sub = it->second.second;
	return it->second.first;
}

void Compiler::call(const CallBase &I, Inst n, const BasicBlock *B) {
	auto *ci = new CallInfo; n.op = I_CALL; n.p = ci;
	const Value *cv = I.getCalledOperand()->stripPointerCasts();
	if (I.isInlineAsm()) {
		auto *IA = cast<InlineAsm>(I.getCalledOperand());
		if (IA->getAsmString().empty()) { if (n.dst >= 0 && I.arg_size() == 1) { n.op = I_MOVE; n.a = opnd(I.getArgOperand(0)); emit(n); } return; }
		bad(I);
	}
	if (auto *A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
	ci->callee = const_cast<Function*>(dyn_cast<Function>(cv));
	if (ci->callee) ci->name = ci->callee->getName().str(); else ci->calleeop = opnd(I.getCalledOperand());
	if (ci->callee && startswith(ci->name, "llvm.dbg")) return;
	if (ci->callee && (startswith(ci->name, "llvm.lifetime") || startswith(ci->name, "llvm.experimental.noalias") || ci->name == "llvm.assume")) return;
	for (unsigned i = 0; i < I.arg_size(); i++) {
		const Value *a = I.getArgOperand(i);
		if (a->getType()->isMetadataTy()) { ci->args.push_back(0); ci->argfp.push_back(0); ci->argbits.push_back(0); ci->byval.push_back(0); continue; }
		Flat f; flatten(a->getType(), f);
		i32 o = opnd(a);
		for (unsigned j = 0; j < f.size(); j++) { ci->args.push_back(sub(o, j)); ci->argfp.push_back(f[j].fp); ci->argbits.push_back(f[j].bits); ci->byval.push_back(I.isByValArgument(i) ? DL->getTypeAllocSize(I.getParamByValType(i)) : 0); }
	}
	flatten(I.getType(), ci->ret);
	ci->fret = I.getType()->isFloatingPointTy(); ci->retbits = ci->ret.size() ? ci->ret[0].bits : 0;
	ci->vararg = I.getFunctionType()->isVarArg();
	{ unsigned nf = 0; for (unsigned i = 0; i < I.getFunctionType()->getNumParams(); i++) nf += std::max(1u, nslots(I.getFunctionType()->getParamType(i))); ci->nfixed = nf; }
	if (auto *V = dyn_cast<InvokeInst>(&I)) { ci->isinvoke = true; edge(ci->normal, B, V->getNormalDest()); edge(ci->unwind, B, V->getUnwindDest()); }
	if (ci->callee) {
		bool defd = !ci->callee->isDeclaration();
		int b = findBuiltin(ci->name, n);
		if (b != B_NONE && !(defd && !startswith(ci->name, "sym_") && b != B_MALLOC && b != B_FREE)) ci->builtin = b;
	}
	n.w = I.arg_size() ? (I.getArgOperand(0)->getType()->isMetadataTy() ? 0 : (ci->argbits.size() ? ci->argbits[0] : 0)) : 0;
	emit(n);
}

static FnCode *codeFor(Function *F) {
	auto it = fncode.find(F);
	if (it != fncode.end()) return it->second;
	auto *fc = new FnCode; fc->F = F; fc->id = allfns.size(); allfns.push_back(fc);
	fncode[F] = fc;
	return fc;
}
static void compile(FnCode *fc) { if (!fc->compiled) { Compiler c; c.fc = fc; c.run(); } }

#include "interp.inc"
