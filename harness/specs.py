COMMON = [
 "clang 18 -O2 lowers the sources faithfully; behaviour the C++ standard leaves undefined (other than memory errors, traps and failed assertions, which are checked) is what that lowering makes of it",
 "Z3 4.8.12 decides QF_BV; every satisfiable answer is re-checked by evaluating the query under the model",
 "allocation never fails; time advances one millisecond per clock call; terminal output is dropped",
]
def H(name, src, **k): return dict(name=name, src=src, **k)
U = ["utils/*.cc", "utils/hash.c"]
SPECS = {}
SPECS["T01"] = dict(harnesses=[
  H("hist", "t01_binheap.cc", defs=dict(BIG=0, STEPS=3, MAXN=4, KLO=0, KHI=15), thorough=dict(time=800, defs=dict(STEPS=5, MAXN=5)), cover=["push","pop","update","pushupdate","append","clear","reinit","drained"], srcs=U, bounds="every sequence of 3 (thorough 5) operations of 7 kinds over at most 4 (5) elements, priorities 0..15 (more than the number of elements, and the heap only compares them)"),
  H("big", "t01_binheap.cc", defs=dict(BIG=24, STEPS=1, MAXN=1, KLO=-5, KHI=120), cover=["push","pop","update","pushupdate","drained"], srcs=U, bounds="24 fixed priorities, then any operation at any position with any priority, then drain"),
])
SRCH = U + ["search/search.cc", "rdb/*.cc"]
def G(name, alg, args, srcs=SRCH, cover=("found",), **k):
    d = dict(ALG=alg, ARGS=",".join('"%s"' % a for a in args.split()))
    d.update(k.pop("defs"))
    if d.get("GCOST") == "double": d.setdefault("CFRAC", 1)
    if "SHAPE" in d: d["SHAPE"] = '"%s"' % d["SHAPE"]
    b = "%s on graphs of %d states, %s; costs %s..%s, estimates 0..%s%s, %s; %s" % (args, d["NN"], "any set of %s edges" % ("two-way" if d.get("SYMM") else "directed") if "SHAPE" not in d else "edges " + d["SHAPE"],
        d.get("CMIN", 1), d["CMAX"], d["HMAX"], " halves" if d.get("CFRAC") else "", ["any estimate", "admissible estimates", "consistent estimates"][d.get("HKIND", 1)], "any goals" if d.get("GOALS") else "one goal")
    k.setdefault("bounds", b)
    return H(name, "search.cc", defs=d, srcs=srcs, cover=list(cover), **k)
def DBL(nn, **k):
    d = dict(NN=nn, CMAX=4, HMAX=7, GCOST="double"); d.update(k); return d
def INT(nn, **k):
    d = dict(NN=nn, CMAX=2, HMAX=4, CONC=1); d.update(k); return d
SPECS["S01"] = dict(harnesses=[
  G("int4", 0, "astar", defs=INT(4, SYMM=1, OPT=1), cover=["none","found"]),
  G("dbl4", 0, "astar", defs=DBL(4, SYMM=1, OPT=1, GOALS=1, DSTR=1), cover=["none","found"]),
  G("dbl4d", 0, "astar", defs=DBL(4, REV=0, OPT=1), cover=["none","found","reopened"]),
  G("dbl6f", 0, "astar", defs=DBL(6, OPT=1, SHAPE="abacbdcdcebddfef"), cover=["found","reopened"]),
  G("dbl5b", 0, "astar", defs=DBL(5, OPT=1, CMAX=6, HMAX=9, SHAPE="abacbddbcdbe"), cover=["found","reopened"]),
  G("dbl5", 0, "astar", defs=DBL(5, OPT=1, SYMM=1), cover=["found","reopened"], only="thorough", time=700),
])
SPECS["S02"] = dict(harnesses=[
  G("int4", 1, "idastar", defs=INT(4, SYMM=1, OPT=1, PRE=1, CONC=0)),
  G("dbl4", 1, "idastar", defs=DBL(4, SYMM=1, OPT=1, PRE=1, CMAX=3, HMAX=4)),
  G("dbl4d", 1, "idastar", defs=DBL(4, REV=0, OPT=1, PRE=1, CMAX=2, HMAX=3), only="thorough"),
])
SPECS["S03"] = dict(harnesses=[
  G("w15", 2, "wastar -wt 1.5", defs=DBL(4, SYMM=1, WT8=12, GOALS=1, DSTR=1), cover=["none","found","reopened"]),
  G("w1", 2, "wastar -wt 1", defs=DBL(4, SYMM=1, OPT=1), cover=["none","found","reopened"]),
  G("w2drop", 2, "wastar -wt 2 -dropdups", defs=DBL(4, SYMM=1, ONCE=1), cover=["none","found"]),
  G("w3d", 2, "wastar -wt 3", defs=DBL(4, REV=0, WT8=24), cover=["none","found","reopened"]),
  G("w2f", 2, "wastar -wt 2", defs=DBL(6, WT8=16, SHAPE="abacbdcdcebddfef"), cover=["found","reopened"]),
  G("w1b", 2, "wastar -wt 1", defs=DBL(5, OPT=1, CMAX=6, HMAX=9, SHAPE="abacbddbcdbe"), cover=["found","reopened"]),
  G("w2int", 2, "wastar -wt 2", defs=INT(4, CONC=0, SYMM=1, WT8=16), cover=["none","found"]),
])
SPECS["S04"] = dict(harnesses=[
  G("greedy", 3, "greedy", defs=DBL(4, SYMM=1, HKIND=0, GOALS=1, DSTR=1), cover=["none","found","reopened"]),
  G("gdrop", 3, "greedy -dropdups", defs=DBL(4, REV=0, HKIND=0, ONCE=1), cover=["none","found"]),
  G("speedy", 4, "speedy", defs=DBL(4, SYMM=1, HKIND=0, SPLITD=1), cover=["none","found"]),
  G("speedyint", 4, "speedy -dropdups", defs=INT(4, SYMM=1, HKIND=0, ONCE=1, CMAX=1), cover=["none","found"]),
  G("greedyint", 3, "greedy", defs=INT(4, SYMM=1, HKIND=0), cover=["none","found"]),
  G("greedy5", 3, "greedy", defs=DBL(5, SYMM=1, HKIND=0), cover=["none","found","reopened"]),
])
SPECS["S06"] = dict(harnesses=[
  G("w3", 5, "arastar -wt0 3 -dwt 1", defs=DBL(4, SYMM=1, OPT=1, HKIND=2), cover=["none","found","improved"]),
  G("w2", 5, "arastar -wt0 2 -dwt 0.75", defs=DBL(3, REV=0, OPT=1, HKIND=2, DSTR=1, GOALS=1), cover=["none","found"]),
  G("w3late", 5, "arastar -wt0 3 -dwt 2", defs=DBL(5, OPT=1, HKIND=2, CMAX=13, HMAX=6, SHAPE="abac*1cb*1bebdde*4"), cover=["found","improved"]),
  G("w3b", 5, "arastar -wt0 3 -dwt 2", defs=DBL(5, OPT=1, HKIND=2, CMAX=6, HMAX=9, SHAPE="abacbddbcdbe"), cover=["found","improved"]),
  G("nora", 12, "arastarnora -wt0 3 -dwt 1 -lambda 1", defs=DBL(4, SYMM=1, HKIND=2, HMAX=4, CMAX=3), cover=["none","found","improved"]),
  G("mon", 13, "arastarmon -wt0 3 -dwt 1 -p profile", defs=DBL(4, SYMM=1, HKIND=2, HMAX=4, CMAX=3), cover=["none","found","improved"]),
  G("w2d", 5, "arastar -wt0 2 -dwt 0.75", defs=DBL(4, REV=0, OPT=1, HKIND=2), cover=["none","found","improved"], only="thorough", time=800),
])
SPECS["S07"] = dict(harnesses=[
  G("w1", 6, "beam -width 1", defs=DBL(4, SYMM=1, HKIND=0, COMPLETE=0), cover=["none","found"]),
  G("w2", 6, "beam -width 2", defs=DBL(4, SYMM=1, HKIND=0, COMPLETE=0, GOALS=1), cover=["none","found"]),
  G("w2drop", 6, "beam -width 2 -dropdups", defs=DBL(4, REV=0, HKIND=0, COMPLETE=0), cover=["none","found"]),
  G("w9", 6, "beam -width 9", defs=DBL(4, SYMM=1, HKIND=0, DSTR=1), cover=["none","found"]),
  G("w2six", 6, "beam -width 2", defs=DBL(6, SHAPE="abacadbecededfefebecedeada", HKIND=0, COMPLETE=0, HMAX=5), cover=["found"]),
  G("w3five", 6, "beam -width 3", defs=DBL(5, SYMM=1, HKIND=0, COMPLETE=0), cover=["none","found"], only="thorough", time=800),
  G("int1", 6, "beam -width 1", defs=INT(4, SYMM=1, HKIND=0, COMPLETE=0, CMAX=2, HMAX=1), cover=["none","found"]),
])
SPECS["S08"] = dict(harnesses=[
  G("wf", 7, "bugsy -wf 1 -wt 0", defs=DBL(4, SYMM=1, OPT=1, HKIND=2, DCONST=1), cover=["none","found"]),
  G("wt", 7, "bugsy -wf 1 -wt 1", defs=DBL(3, SYMM=1, SPLITD=1, HMAX=4, DMAX=3, CMAX=3), cover=["none","found"]),
  G("wtd", 7, "bugsy -wf 1 -wt 1", defs=DBL(3, REV=0, SPLITD=1), cover=["none","found"], only="thorough", time=800),
  G("hhat", 7, "bugsy -wf 1 -wt 1 -hhat -dhat -expdelay -end", defs=DBL(3, SYMM=1, HMAX=3, CMAX=2), cover=["none","found"]),
  G("noresort", 7, "bugsy -wf 1 -wt 2 -noresort -dropdups -end", defs=DBL(4, SYMM=1, HKIND=2, DCONST=1), cover=["none","found"]),
  G("slim", 8, "bugsy-slim -wf 1 -wt 1", defs=DBL(4, SYMM=1, HKIND=2, DCONST=1, ONCE=1), cover=["none","found"]),
])
SPECS["S09"] = dict(harnesses=[
  G("lss1", 9, "lsslrtastar2 -lookahead 1", opt=dict(fselfork=1), defs=DBL(4, SYMM=1, PRE=2, HKIND=0, HMAX=4, CMAX=3), cover=["found"]),
  G("lss2", 9, "lsslrtastar2 -lookahead 2", opt=dict(fselfork=1), defs=DBL(4, SYMM=1, PRE=2, HKIND=0), cover=["found"]),
  G("lss3one", 9, "lsslrtastar2 -lookahead 3 -onestep", opt=dict(fselfork=1), defs=DBL(4, SYMM=1, PRE=2, HKIND=0, HMAX=3, CMAX=2), cover=["found"]),
  G("fhat2", 10, "fhatlrtastar -lookahead 2", opt=dict(fselfork=1), defs=DBL(4, SYMM=1, PRE=2, HKIND=0, HMAX=2, CMAX=2), cover=["found"]),
  G("rta1", 11, "rtastar -d 1", defs=DBL(4, SYMM=1, PRE=2, HKIND=0), cover=["found"]),
  G("rta0", 11, "rtastar -d 0", defs=DBL(4, SYMM=1, PRE=2, HKIND=0), cover=["found"]),
  G("rta2", 11, "rtastar -d 2", defs=DBL(4, SYMM=1, PRE=2, HKIND=0, HMAX=3, CMAX=2), cover=["found"]),
])
SPECS["T02"] = dict(harnesses=[
  H("intpq", "t02_pq.cc", defs=dict(KIND=0, STEPS=4, MAXN=8, MAXNEW=4, KHI=4, THI=0), thorough=dict(time=800, defs=dict(STEPS=5)), cover=["push","pop","rekey","clear","rm","drained"], srcs=SRCH, bounds="every sequence of 4 (thorough 5) operations on an integer queue of initial size 0..3, keys 0..4"),
  H("intpqbig", "t02_pq.cc", defs=dict(KIND=0, STEPS=2, MAXN=12, MAXNEW=2, KHI=5, THI=0, KEYS="0,3,5,1023,1024,2500", PRELOAD="5,0,5,0,1023,0,3,0,5,0"), cover=["push","pop","rekey","clear","rm","drained"], srcs=SRCH, bounds="a queue of 5 elements, then every sequence of 2 operations with keys around the size it starts with"),
  H("bkt", "t02_pq.cc", defs=dict(KIND=1, STEPS=3, MAXN=8, MAXNEW=3, KHI=2, THI=2), thorough=dict(time=800, defs=dict(STEPS=4)), cover=["push","pop","rekey","clear","drained"], srcs=SRCH, bounds="every sequence of 3 (thorough 4) operations on the two-level bucket queue, keys 0..2 each"),
  H("bktbig", "t02_pq.cc", defs=dict(KIND=1, STEPS=2, MAXN=12, MAXNEW=2, KHI=3, THI=3, KEYS="0,99,100,230", TIES="0,99,100,101", PRELOAD="99,2,99,0,5,100,99,2,5,100,250,7"), cover=["push","pop","rekey","clear","drained"], srcs=SRCH, bounds="a bucket queue of 6 elements, then every sequence of 2 operations with both keys around the 100 buckets it starts with"),
  H("heap", "t02_pq.cc", defs=dict(KIND=2, STEPS=3, MAXN=8, MAXNEW=3, KHI=9, THI=9), thorough=dict(time=800, defs=dict(STEPS=4)), cover=["push","pop","rekey","clear","drained"], srcs=SRCH, bounds="every sequence of 3 (thorough 4) operations on the heap open list, keys 0..9 each"),
])
SPECS["T03"] = dict(harnesses=[
  H("small", "t03_table.cc", defs=dict(KIND=3, STEPS=4, NKEYS=4, PRELOAD=0, HHI=3, SZLO=1, SZHI=3), thorough=dict(time=800, defs=dict(STEPS=5)), cover=["add","rm","rmnone","absent","clear"], srcs=SRCH, bounds="every sequence of 4 (thorough 5) operations on up to 4 states, initial sizes 1..3, every hash function into 0..3"),
  H("grow", "t03_table.cc", defs=dict(KIND=3, STEPS=1, NKEYS=6, PRELOAD=5, HHI=3, SZLO=1, SZHI=7), cover=["add","rm","absent","clear"], srcs=SRCH, bounds="5 states added at initial sizes 1..7, then any operation, every hash function into 0..3"),
])
SPECS["T04"] = dict(harnesses=[
  H("small", "t03_table.cc", defs=dict(KIND=4, STEPS=4, NKEYS=4, PRELOAD=0, HHI=3, SZLO=1, SZHI=3), thorough=dict(time=800, defs=dict(STEPS=5)), cover=["add","rm","rmnone","absent","clear"], srcs=SRCH, bounds="every sequence of 4 (thorough 5) operations on up to 4 keys, initial sizes 1..3, every hash function into 0..3"),
  H("grow", "t03_table.cc", defs=dict(KIND=4, STEPS=1, NKEYS=6, PRELOAD=5, HHI=3, SZLO=1, SZHI=7), cover=["add","rm","absent","clear"], srcs=SRCH, bounds="5 keys added at initial sizes 1..7, then any operation, every hash function into 0..3"),
])
SPECS["T05"] = dict(harnesses=[
  H("any", "t05_djset.cc", defs=dict(N=4, STEPS=3), cover=["clear","end"], thorough=dict(time=800, defs=dict(STEPS=4)), bounds="every sequence of 3 (thorough 4) joins over 4 elements, with or without finds in between"),
  H("deep", "t05_djset.cc", defs=dict(N=10, STEPS=2, PRE="0,1,2,3,4,5,6,7,0,2,4,6,0,4"), cover=["clear","end"], bounds="a tree of 8 elements of rank 3 and two single elements, then every pair of joins"),
])
SPECS["T08"] = dict(harnesses=[
  H("hist", "t08_pool.cc", defs=dict(OBJW=3, BLK=3, STEPS=6, MAXN=8), thorough=dict(time=800, defs=dict(STEPS=7)), cover=["construct","get","destruct","put","end"], bounds="every sequence of 6 (thorough 7) allocations and releases with blocks of 1..3 objects"),
  H("tiny", "t08_pool.cc", defs=dict(OBJW=1, BLK=2, STEPS=5, MAXN=8), cover=["construct","get","destruct","put","end"], bounds="the same for 16-byte objects, 5 steps, blocks of 1..2"),
])
def U01(name, ty, lo, hi, cover, ops=4, **k):
  return H(name, "u01_safeops.cc", defs=dict(TYPE='"%s"' % ty if 0 else ty, BLO=lo, BHI=hi, OPS=ops, SMALL=k.pop("small", 0), NEAR=int(name == "s64m")), cover=cover, bounds="type %s, %s first operand, second operand %s..%s, %s" % (ty.replace("_"," "), "every" if name != "s64m" else "within 6 of 0, the ends of the range or its quotients by the second operand as", lo, hi, "add, sub, mul, div" if ops == 4 else "add, sub"), **k)
ADDS = ["add","add-error","sub","sub-error"]; ALLS = ADDS + ["mul","mul-error","div","div-error"]
SPECS["U01"] = dict(harnesses=[
  U01("s8", "int8_t", -128, 127, ALLS), U01("u8", "uint8_t", 0, 255, ALLS), U01("s16", "int16_t", -32768, 32767, ALLS), U01("u16", "uint16_t", 0, 65535, ALLS),
  U01("s32", "int32_t", "(-2147483647L-1)", "2147483647L", ADDS, 2), U01("s32m", "int32_t", -6, 6, ALLS, small=1), U01("u32", "uint32_t", "0", "4294967295L", ALLS),
  U01("s64", "int64_t", "(-9223372036854775807L-1)", "9223372036854775807L", ADDS, 2), U01("u64", "uint64_t", "(-9223372036854775807L-1)", "9223372036854775807L", ADDS, 2),
  U01("s64m", "int64_t", -6, 6, ALLS, small=1), U01("u64m", "uint64_t", 0, 6, ALLS, small=1),
])
def U02(sz, n, pair, **k): return H("r%d_%d%s" % (sz, n, "p" if pair else ""), "u02_rank.cc", srcs=U, defs=dict(SZ=sz, NT=n, PAIR=pair), cover=["ranked"], bounds="every %s of %d out of %d tiles" % ("pair of arrangements" if pair else "arrangement", n, sz), **k)
SPECS["U02"] = dict(harnesses=[U02(4, 4, 0), U02(3, 3, 1), U02(4, 2, 1), U02(1, 1, 0), U02(2, 2, 1), U02(5, 3, 0), U02(5, 5, 0), U02(8, 2, 0), U02(9, 3, 0), U02(7, 2, 0), U02(16, 2, 0), U02(16, 3, 0, only="thorough", time=400), U02(6, 6, 0, only="thorough", time=800), U02(9, 4, 0, only="thorough", time=800)])
SPECS["U03"] = dict(harnesses=[
  H("b64", "u03_encode.cc", srcs=U, opt={"ite-max": 300}, defs=dict(KIND=0, LLO=0, LHI=6), thorough=dict(defs=dict(LHI=12)), cover=["base64"], bounds="every string of up to 6 (thorough 12) bytes"),
  H("rle", "u03_encode.cc", srcs=U, defs=dict(KIND=1, LLO=0, LHI=7), thorough=dict(defs=dict(LHI=9), time=800), cover=["runlen","shorter"], bounds="every string of up to 7 (thorough 9) bytes"),
  H("rlelong", "u03_encode.cc", srcs=U, defs=dict(KIND=4, SEGS=2, TAIL=2), thorough=dict(defs=dict(SEGS=3, TAIL=2), time=800), cover=["long"], bounds="two (thorough three) stretches of equal or of differing bytes, 0..256 long around the limits, then any two bytes"),
  H("a85", "u03_encode.cc", srcs=U, opt={"ite-max": 300}, defs=dict(KIND=2, LLO=0, LHI=5), thorough=dict(defs=dict(LHI=9), time=800), cover=["ascii85","z"], bounds="every string of up to 5 (thorough 9) bytes"),
  H("gridctl", "u03_encode.cc", srcs=U + ["gridnav/gridnav.cc","gridnav/gridmap.cc"], opt={"ite-max": 300}, defs=dict(KIND=3, LLO=0, LHI=4), cover=["controls"], bounds="every sequence of up to 4 grid controls 0..127"),
  H("platctl", "u03_encode.cc", srcs=U + ["plat2d/*.cc","structs/*.cc","visnav/visgraph.cc","visnav/polymap.cc","visnav/grid2poly.cc","graphics/image.cc"], opt={"ite-max": 300}, defs=dict(KIND=3, LLO=0, LHI=4), cover=["controls"], bounds="every sequence of up to 4 platformer controls 0..127"),
])
SPECS["U04"] = dict(harnesses=[
  H("path", "u04_paths.cc", srcs=U, defs=dict(KIND=0, LEN=6, ALPHA='"a./"'), thorough=dict(defs=dict(LEN=9), time=800), cover=["empty","plain","path"], bounds="every path of up to 6 (thorough 9) of the letters a . /"),
  H("pathbytes", "u04_paths.cc", srcs=U, defs=dict(KIND=0, LEN=5), thorough=dict(defs=dict(LEN=7), time=800), cover=["empty","plain","path"], bounds="every path of up to 5 (thorough 7) bytes, every byte but 0, symbolic"),
  H("prefix", "u04_paths.cc", srcs=U, defs=dict(KIND=1, LEN=4, LEN2=3, ALPHA='"ab"'), cover=["prefix","noprefix"], bounds="every string of up to 4 and prefix of up to 3 letters"),
  H("words", "u04_paths.cc", srcs=U, defs=dict(KIND=2, LEN=6, ALPHA='"a \\t\\""'), thorough=dict(defs=dict(LEN=8), time=800), cover=["words","quoted","unclosed"], bounds="every line of up to 6 (thorough 8) letters, blanks, tabs and quotes"),
  H("bytes", "u04_paths.cc", srcs=U, defs=dict(KIND=2, LEN=6), thorough=dict(defs=dict(LEN=9), time=800), cover=["words","quoted","unclosed"], bounds="every line of up to 6 (thorough 9) bytes, every byte but 0, symbolic"),
  H("prefixbytes", "u04_paths.cc", srcs=U, defs=dict(KIND=1, LEN=8, LEN2=6), cover=["prefix","noprefix"], bounds="every string of up to 8 bytes and prefix of up to 6 bytes, symbolic"),
  H("tokenbytes", "u04_paths.cc", srcs=U, defs=dict(KIND=3, LEN=6), thorough=dict(defs=dict(LEN=9), time=800), cover=["words","quoted","unclosed"], bounds="the lines of up to 6 (thorough 9) bytes, token by token"),
  H("token", "u04_paths.cc", srcs=U, defs=dict(KIND=3, LEN=6, ALPHA='"a \\t\\""'), thorough=dict(defs=dict(LEN=8), time=800), cover=["words","quoted","unclosed"], bounds="the same, token by token"),
])
SPECS["U05"] = dict(harnesses=[
  H("pair", "u05_datafile.cc", srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc"], defs=dict(KIND=0, KLO=1, KHI=20, VLO=215, VHI=260), cover=["pair"], bounds="every key length 1..20 with every value length 215..260 (the buffer holds 256)"),
  H("short", "u05_datafile.cc", srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc"], defs=dict(KIND=0, KLO=0, KHI=3, VLO=0, VHI=600), cover=["pair"], bounds="key lengths 0..3, value lengths 0..600"),
  H("longkey", "u05_datafile.cc", srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc"], defs=dict(KIND=0, KLO=225, KHI=270, VLO=0, VHI=12), cover=["pair","longkey"], bounds="key lengths 225..270, value lengths 0..12"),
  H("rows", "u05_datafile.cc", srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc"], defs=dict(KIND=1, KLO=50, KHI=260, VLO=0, VHI=24), cover=["row","header"], bounds="row names of 50..260 letters, 1..4 columns"),
  H("contents", "u05_datafile.cc", srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc"], defs=dict(KIND=2), cover=["contents"], bounds="every key of up to 2 and value of up to 3 bytes 1..126 without quotes and line ends, with other lines around, with and without echo and final newline"),
])
SPECS["U06"] = dict(harnesses=[H("all", "u06_math.cc", srcs=U, defs=dict(BASES=40), thorough=dict(defs=dict(BASES=2000)), cover=["ilog2","ipow","fallfact"], bounds="every 32-bit argument of ilog2; powers with exponents 0..64 whose value fits (every base for exponents up to 2, the least and greatest 40 (thorough 2000) bases beyond); falling factorials of every 32-bit x for n up to 1, of x up to 24 and the greatest 40 (thorough 2000) x for n up to 20 whose value fits")])
SPECS["U07"] = dict(harnesses=[
  H("int", "u07_rand.cc", srcs=U, defs=dict(KIND=0, MAXW=8), cover=["integer"], bounds="every seed, every least value within +-2^62, ranges of 1..9 values, two draws"),
  H("wide", "u07_rand.cc", srcs=U, defs=dict(KIND=0, WIDTHS="255,999,1023,65535,4294967295L,1L<<40,(1L<<62)"), cover=["integer"], bounds="the same for seven greater widths up to 2^62"),
  H("ends", "u07_rand.cc", srcs=U, defs=dict(KIND=3), cover=["integer"], bounds="seeds whose first draw is one of 20 outputs near the ends of the 64-bit range, seven widths, every least value within +-2^62"),
  H("same", "u07_rand.cc", srcs=U, defs=dict(KIND=1), cover=["same"], bounds="every seed, four draws"),
  H("hash", "u07_rand.cc", srcs=U, defs=dict(KIND=2, LEN=13), thorough=dict(defs=dict(LEN=25), time=800), cover=["hash"], bounds="every string of up to 13 (thorough 25) bytes at each of four alignments"),
])
SPECS["T06"] = dict(harnesses=[
  H("two", "t06_stn.cc", srcs=["structs/stn.cc"], defs=dict(NV=2, STEPS=2, VMAX=20, GROW=0), cover=["added","refused","undo","on"], bounds="2 nodes and the origin: every sequence of 2 additions (any nodes, lower and/or upper bound within +-20) and undos"),
  H("three", "t06_stn.cc", srcs=["structs/stn.cc"], defs=dict(NV=2, STEPS=3, VMAX=20, GROW=0), only="thorough", time=800, cover=["added","refused","undo","on"], bounds="the same, 3 operations"),
  H("grow", "t06_stn.cc", srcs=["structs/stn.cc"], defs=dict(NV=2, STEPS=3, VMAX=9, GROW=1), cover=["added","refused","undo","grow"], bounds="one node, growing to two at some point: every sequence of 3 operations"),
])
SPECS["T07"] = dict(harnesses=[
  H("plane", "t07_kdtree.cc", srcs=[], defs=dict(KD=2, NP=3, GRID=5, QUERIES=1), thorough=dict(defs=dict(NP=4, GRID=3), time=800), cover=["nearest","empty"], bounds="up to 3 (thorough 4) points with coordinates 0..5 and any query -1..6"),
  H("line", "t07_kdtree.cc", srcs=[], defs=dict(KD=1, NP=4, GRID=9, QUERIES=1), cover=["nearest","empty"], bounds="up to 4 points on a line, coordinates 0..9"),
  H("space", "t07_kdtree.cc", srcs=[], defs=dict(KD=3, NP=3, GRID=2, QUERIES=1), cover=["nearest","empty"], bounds="up to 3 points in space with coordinates 0..2"),
])

_RT = dict(PRE=2, HKIND=0)
ALGS = [("astar",0,"astar",dict(NN=4)),("wastar",2,"wastar -wt 2",dict(NN=4)),("greedy",3,"greedy",dict(HKIND=0,NN=4)),("speedy",4,"speedy -dropdups",dict(HKIND=0,NN=4)),("idastar",1,"idastar",dict(PRE=2)),
 ("arastar",5,"arastar -wt0 3 -dwt 1",dict(NN=4,CMAX=2,HMAX=2)),("nora",12,"arastarnora -wt0 3 -dwt 1 -lambda 1",dict(CMAX=2,HMAX=2)),("mon",13,"arastarmon -wt0 3 -dwt 1 -p profile",dict(CMAX=2,HMAX=2)),("beam",6,"beam -width 2",dict(HKIND=0,NN=4)),("bugsy",7,"bugsy -wf 1 -wt 1",{}),("slim",8,"bugsy-slim -wf 1 -wt 1",{}),
 ("lss",9,"lsslrtastar2 -lookahead 2",_RT),("lss1",9,"lsslrtastar2 -lookahead 3 -onestep",_RT),("fhat",10,"fhatlrtastar -lookahead 2",dict(PRE=2,HKIND=0,CMAX=2,HMAX=3)),("rta",11,"rtastar -d 1",_RT),("rta2",11,"rtastar -d 2",_RT)]
def LIMS(name, alg, args, **k):
  d = DBL(3, MODE=1, LIMX=6, LIMG=9, SYMM=1, HMAX=4, CMAX=3); d.update(k.pop("defs", {})); return G(name, alg, args, defs=d, cover=k.pop("cover", ["unreached","stopped"]), **k)
SPECS["S10"] = dict(harnesses=[LIMS(n, a, c, defs=e, opt=dict(fselfork=1) if a >= 9 else {}) for n, a, c, e in ALGS])
def RST(name, alg, args, **k):
  d = DBL(3, MODE=2, SYMM=1, HMAX=4, CMAX=3); d.update(k.pop("defs", {})); return G(name, alg, args, defs=d, cover=k.pop("cover", ["again","other"]), **k)
SPECS["S11"] = dict(harnesses=[RST(n, a, c, defs=e, opt=dict(fselfork=1) if a >= 9 else {}) for n, a, c, e in ALGS] + [RST("astarint",0,"astar",defs=dict(GCOST="int",CFRAC=0,CONC=1,NN=4,CMAX=1,HMAX=2)), RST("speedyint",4,"speedy",defs=dict(GCOST="int",CFRAC=0,CONC=1,NN=4,CMAX=1,HKIND=0))])
def ANY(name, alg, args, **k):
  d = DBL(4, COMPLETE=0, INPLACE=0, HMAX=4, CMAX=3, SYMM=0); d.update(k.pop("defs", {}))
  if alg in (1, 7, 8, 9, 10, 11, 12, 13): d.update(NN=3)
  return G(name, alg, args, defs=d, **k)
SPECS["S05"] = dict(harnesses=[ANY(n, a, c, defs=e, opt=dict(fselfork=1) if a >= 9 else {}) for n, a, c, e in ALGS] + [
  G(n + "5", a, c, defs=dict(DBL(5, COMPLETE=0, HMAX=2, CMAX=2, SHAPE="abbaacbdcddbdeda"), **e), opt=dict(fselfork=1) if a >= 9 else {}) for n, a, c, e in [("idastar",1,"idastar",{}),("bugsy",7,"bugsy -wf 1 -wt 1",dict(DCONST=1)),("slim",8,"bugsy-slim -wf 1 -wt 1",dict(DCONST=1)),
  ("lss",9,"lsslrtastar2 -lookahead 2",dict(HKIND=0)),("fhat",10,"fhatlrtastar -lookahead 2",dict(HKIND=0)),("rta",11,"rtastar -d 1",dict(HKIND=0)),("rta2",11,"rtastar -d 2",dict(HKIND=0)),
  ("wastar",2,"wastar -wt 2 -dropdups",dict(HMAX=6,CMAX=4)),("beam",6,"beam -width 1",dict(HKIND=0,HMAX=6,CMAX=4)),("arastar",5,"arastar -wt0 4 -dwt 1.5",{})]])
def TL(name, prop, w, h, moves, cover, **k):
  return H(name, "m_tiles.cc", srcs=["utils/rand.cc","utils/fatal.cc","utils/str.cc","utils/time.cc","utils/hash.c"], defs=dict(PROP=prop, NGOALS=k.pop("goals", 3), WIDTH=w, HEIGHT=h, MOVES=moves), cover=cover, bounds="every placement of the tiles (repeated ones included) on the %dx%d board, %d goal arrangement(s), %s" % (w, h, k.pop("ng", 3), "every sequence of %d moves" % moves if prop < 3 else "with or without a move, against every other state"), **k)
SPECS["M01"] = dict(harnesses=[TL("b4x4", 1, 4, 4, 2, ["moved"]), TL("b3x3", 1, 3, 3, 3, ["moved"]), TL("b2x8", 1, 2, 8, 2, ["moved"]), TL("b8x2", 1, 8, 2, 2, ["moved"])])
SPECS["M02"] = dict(harnesses=[TL("b4x4", 2, 4, 4, 1, ["moved","goal"], goals=2), TL("b3x3", 2, 3, 3, 1, ["moved","goal"]), TL("b3x3d", 2, 3, 3, 2, ["moved","goal"], only="thorough", time=600), TL("b2x8", 2, 2, 8, 1, ["moved","goal"], goals=1), TL("b8x2", 2, 8, 2, 1, ["moved","goal"], goals=1)])
SPECS["M03"] = dict(harnesses=[TL("tiles4x4", 3, 4, 4, 0, ["equal","different"]), TL("tiles3x3", 3, 3, 3, 0, ["equal","different"])])
UM = ["utils/rand.cc","utils/fatal.cc","utils/str.cc","utils/time.cc","utils/hash.c"]
def PK(name, prop, n, moves, cover, **k): return H(name, "m_pancake.cc", srcs=UM, defs=dict(PROP=prop, NCAKES=n, MOVES=moves), cover=cover, bounds="every stack of %d cakes, %s" % (n, "every sequence of %d flips" % moves if prop == 5 else "against every other sequence of sizes"), **k)
SPECS["M05"] = dict(harnesses=[PK("n%d" % n, 5, n, mv, ["flipped","goal"]) for n, mv in [(2, 3), (3, 3), (5, 3), (6, 2), (7, 2)]] + [PK("n8", 5, 8, 2, ["flipped","goal"], only="thorough", time=700)])
SPECS["M03"]["harnesses"] += [PK("pancake6", 3, 6, 0, ["equal","different"])]
def PD(name, w, h, pat, db, pair, **k): return H(name, "m_pdb.cc", srcs=["utils/rank.cc","utils/math.cc"] + UM, defs=dict(WIDTH=w, HEIGHT=h, PAT=pat, PDB=db, PAIR=pair), cover=["entry"], bounds="every %s of %d tiles on the %dx%d board" % ("pair of arrangements" if pair else "arrangement", pat, w, h), **k)
SPECS["M04"] = dict(harnesses=[PD("c3x3p2", 3, 3, 2, "CompactPdb", 1), PD("c3x3p3", 3, 3, 3, "CompactPdb", 0), PD("c4x4p2", 4, 4, 2, "CompactPdb", 0), PD("c2x3p2", 2, 3, 2, "CompactPdb", 1), PD("s3x3p3", 3, 3, 3, "SparsePdb", 1), PD("s4x4p3", 4, 4, 3, "SparsePdb", 1), PD("s2x3p4", 2, 3, 4, "SparsePdb", 1), PD("s4x4p5", 4, 4, 5, "SparsePdb", 1), PD("s4x4p6", 4, 4, 6, "SparsePdb", 1), PD("c4x4p3", 4, 4, 3, "CompactPdb", 0)])
_MOD = ["four-way", "eight-way", "octile"]
def GR(name, prop, model, life, wmin, wmax, hmin, hmax, pin=0, terrain=0, cover=[], **k):
  return H(name, "m_grid.cc", srcs=["gridnav/gridmap.cc","gridnav/gridnav.cc"] + U, defs=dict(PROP=prop, MODEL=model, LIFE=life, WMIN=wmin, WMAX=wmax, HMIN=hmin, HMAX=hmax, PIN=pin, TERRAIN=terrain), cover=cover,
    bounds="%s moves, %s costs, maps of %d..%d by %d..%d cells; " % (_MOD[model], "life" if life else "unit", wmin, wmax, hmin, hmax) + (("every placement of %s and every place" % ("free, blocked, tree, swamp and water cells" if terrain else "blocked cells")) if prop == 6 else "every place, goal and move"), **k)
SPECS["M06"] = dict(harnesses=[GR("fourunit",6,0,0,1,3,1,3,cover=["cell","straight"]), GR("fourlife",6,0,1,1,3,1,4,cover=["cell","straight"]), GR("eightunit",6,1,0,1,3,1,3,cover=["cell","straight","diagonal"]), GR("eightlife",6,1,1,1,3,1,4,cover=["cell","straight","diagonal"]), GR("octile",6,2,0,1,3,1,3,terrain=1,cover=["cell","straight","diagonal"]), GR("fourterrain",6,0,0,3,3,3,3,terrain=1,cover=["cell","straight"])])
SPECS["M07"] = dict(harnesses=[GR("fourunit",7,0,0,1,7,1,7,pin=1,cover=["goal","move"]), GR("fourlife",7,0,1,1,5,1,6,pin=1,cover=["goal","move"]), GR("eightunit",7,1,0,5,5,5,5,pin=2,cover=["goal","move"]), GR("octile",7,2,0,4,4,6,6,pin=2,cover=["goal","move"]), GR("eightlife",7,1,1,1,6,1,4,pin=2,cover=["goal","move"])])
def RD(name, kind, what, defs={}, srcs=U, **k):
    return H(name, "m_read.cc", defs=dict(KIND=kind, **defs), srcs=srcs, cover=["good", "bad", "read"], bounds=what, **k)
SPECS["M08"] = dict(harnesses=[
  RD("tiles", 0, "2x2 boards: every one-digit width, height, starting and goal position; truncated at every position", dict(WIDTH=2, HEIGHT=2)),
  RD("tiles3", 0, "3x1 boards, as above", dict(WIDTH=3, HEIGHT=1)),
  RD("pancake", 1, "4 cakes: every one-digit count and cake number, one of them negative; truncated", dict(NCAKES=4)),
  RD("ruml", 2, "maps of 0..2 x 0..2 cells: every byte in every cell and row end, every first letter of the cost and movement words; truncated"),
  RD("octile", 3, "maps of 0..2 x 0..2 cells: every byte in any one cell (the others free or trees) and in every row end; truncated"),
  RD("seed", 4, "maps of 0..2 x 0..2 cells, probabilities 0 and 1, every first letter of the cost and movement words"),
  RD("vacuum", 5, "maps of -1..2 x -1..2 cells: every byte in every cell and row end; at most one start"),
  RD("traffic", 6, "one-digit sizes 0..4, starts and goals 0..3, up to 2 obstacles, truncated or followed by any byte"),
])
SPECS["M09"] = dict(harnesses=[
  H("walk", "m_vacuum.cc", defs=dict(KIND=0, W=5, CELLS=5, STEPS=4), thorough=dict(time=800, defs=dict(CELLS=6, STEPS=5)), srcs=U, cover=["suck","step"], bounds="every map of up to 5 (thorough 6) cells in any rectangle of free, wall, dirt and charger cells, every start, every walk of 4 (thorough 5) actions, all operators of every state on it"),
  H("estimate", "m_vacuum.cc", defs=dict(KIND=1, W=3, CELLS=9), thorough=dict(time=800, defs=dict(W=4)), srcs=U, cover=["dirty","clean"], bounds="open 3x3 (thorough 4x4) maps with every start and every 0..3 dirty cells of which any are already clean again, against every walk of up to 4 (6) moves, the walk symbolic"),
])
SPECS["M10"] = dict(harnesses=[
  H("track", "m_traffic.cc", defs=dict(KIND=0, WMAX=4, TMAX=9, OBS=0), thorough=dict(time=800, defs=dict(WMAX=6, TMAX=16)), srcs=U, cover=["track"], bounds="maps of 1..4 x 1..4 (thorough 6x6) cells, every start and unit velocity of an obstacle, times 0..9 (16), against a step-by-step simulation"),
  H("inside", "m_traffic.cc", defs=dict(KIND=1, WMAX=5, TMAX=0, OBS=0), srcs=U, cover=["inside"], bounds="maps of 1..5 x 1..5 cells, every start, velocities -9..9, times 0..1000"),
  H("step", "m_traffic.cc", defs=dict(KIND=2, WMAX=2, TMAX=2, OBS=2), thorough=dict(time=800, defs=dict(WMAX=3, TMAX=4)), srcs=U, cover=["hit","free"], bounds="maps of 1..2 x 1..2 (thorough 3x3) cells, every start, position and time 0..2 (4), up to 2 obstacles of every start and unit velocity"),
  H("late", "m_traffic.cc", defs=dict(KIND=2, WMAX=2, TMAX=7, OBS=1), srcs=U, cover=["hit","free"], bounds="maps of 1..2 x 1..2 cells, one obstacle, times up to 7"),
  H("step1", "m_traffic.cc", defs=dict(KIND=2, WMAX=3, TMAX=2, OBS=1), thorough=dict(time=800, defs=dict(WMAX=4, TMAX=5)), srcs=U, cover=["hit","free"], bounds="maps of 1..3 x 1..3 (thorough 4x4) cells, one obstacle, as above"),
])
SPECS["M11"] = dict(harnesses=[
  H("act", "m_drobot.cc", defs=dict(KIND=0, NB=3, CR=1, DEPTH=1), thorough=dict(time=850, defs=dict(DEPTH=2)), srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/datafile.cc"], cover=["push","pop","load","unload","move"], bounds="2 locations with 1..2 and 1 cranes and 1..2 piles each, 3 boxes in every arrangement, every goal of every box (symbolic), every action (thorough: every two actions)"),
  H("nocrane", "m_drobot.cc", defs=dict(KIND=0, NB=2, CR=0, CRHI=0, DEPTH=1), srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/datafile.cc"], cover=["move","push"], bounds="one location without a crane, 2 boxes, otherwise as above"),
  H("read", "m_drobot.cc", defs=dict(KIND=1, NB=3, DEPTH=3), srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/datafile.cc"], cover=["push","pop","load","unload","move"], bounds="instance texts with 2 locations, 4 piles and 3 boxes in every order and 4 splits, every walk of 3 actions from the instance read"),
  H("estimate", "m_drobot.cc", defs=dict(KIND=2, NB=2, LOCS=2, STEPS=6), thorough=dict(time=850, defs=dict(STEPS=8)), srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/datafile.cc"], cover=["goal"], bounds="2 locations, 2 boxes in every arrangement with every goal, 3 road maps, every walk of up to 6 (thorough 8) actions to a goal"),
  H("estimate3", "m_drobot.cc", defs=dict(KIND=2, NB=1, LOCS=3, STEPS=6), srcs=["utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/datafile.cc"], cover=["goal"], bounds="3 locations, one box, as above (the estimate's shortest paths go through other locations)"),
])
SPECS["M12"] = dict(harnesses=[
  H("apply", "m_segments.cc", defs=dict(KIND=0, ANG=2, SEGS=2, READ=0), thorough=dict(time=800, defs=dict(ANG=4)), srcs=U, cover=["placed","displaced","moved"], bounds="2 segments, 2 or 4 (thorough up to 8) angles, the moved segment at every point of 3x3, the other in two poses, the gripper in three places, every goal (symbolic), every operator"),
  H("board", "m_segments.cc", defs=dict(KIND=1, ANG=2, SEGS=1, READ=0), srcs=U, cover=["edge","room"], bounds="boards of 3..5 x 3..5, 4 angles, one segment in every pose inside"),
  H("read", "m_segments.cc", defs=dict(KIND=1, ANG=2, SEGS=1, READ=1), srcs=U, cover=["edge","room"], bounds="the same boards read from a file"),
  H("two", "m_segments.cc", defs=dict(KIND=1, ANG=2, SEGS=2, READ=0), srcs=U, cover=["edge","blocked"], bounds="the same boards with two segments in every pair of poses"),
])
PL = ["plat2d/tile.cc","plat2d/lvl.cc","plat2d/body.cc","plat2d/player.cc","utils/str.cc","utils/fatal.cc","utils/time.cc","utils/hash.c","utils/geom2d.cc","utils/datafile.cc","utils/encode.cc","utils/fs.cc","utils/rand.cc"]
PL1 = [p for p in PL if p not in ("plat2d/tile.cc", "plat2d/lvl.cc", "utils/hash.c")]
SPECS["M13"] = dict(harnesses=[
  H("frame", "m_plat.cc", defs=dict(KIND=0, W0=4, H0=4, XLO=48, XHI=75, NDY=2, NY=2, NOPS=3, NBLK=2), thorough=dict(time=800, defs=dict(NDY=5, NY=3, NOPS=6, NBLK=4)), srcs=PL, cover=["frame"], bounds="one frame on a 4x4 walled level with at most one solid tile inside, from every quarter pixel across half of it, two heights, standing, starting to fall and jumping, three controls (thorough: more of each)"),
  H("level", "m_plat.cc", defs=dict(KIND=1, MAXW=5, MAXH=4, STEPS=2), thorough=dict(time=800, defs=dict(MAXH=5, STEPS=3)), srcs=PL1, cover=["start","goal","pruned","back","ident"], bounds="levels of 3..5 x 3..4 with every start and goal, one solid or water tile (then also a start in water), read from text; 0, 4 or 11 frames of one control followed by 2 (thorough 3) of any"),
])
NA = {
 "M14": "line and segment predicates are computed from slopes and intercepts in floating point (division, infinities, square roots, atan2); the executor decides doubles exactly only while they are sums and products of small dyadic values, and Z3's floating-point theory does not decide a single slope/intercept intersection of symbolic points within the time of a check",
 "R01": "pathfor and pathattrs live in the file system (stat, opendir, mkdir, key files, file names from std::map and std::list of strings); what has to be decided is the state of a directory tree that the kernel keeps, and none of that is code of the repository the executor could encode",
}
