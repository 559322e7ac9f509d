"""Properties -> jobs."""
import json, os, re

COMMON_ASSUMPTIONS = [
    "GLib and libc are replaced by the models in /verif/models (heap, strings, byte objects, arrays, objects, signals, event loop); allocation never fails",
    "x86_64, release flags (-DDEBUG only where the job says so); signed overflow wraps and is not itself an alarm",
]
PROPS = {}
NOT_APPLICABLE = {}

def known(verif):
    p = os.path.join(verif, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def job(name, file, func, unwind, srcs=(), defs=None, **kw):
    return dict(name=name, file=file, func=func, unwind=unwind, srcs=list(srcs), defs=defs or {}, **kw)

def prop(id, jobs, bounds="", **kw):
    PROPS[id] = dict(jobs=jobs, bounds=bounds, **kw)

DP = ["datapack"]
def dp(name, func, unwind, **defs):
    d = dict(MAXLEN=12, MINLEN=0, MAXVAL=2, MAXVAL2=1, NTAGS=2, MAXTAG2=0)
    d.update(defs)
    return job(name, "datapack", func, unwind, DP, d)

prop("C01", lambda t: [dp("signed", "h_signed_roundtrip", 13), dp("encode2", "h_signed_encode2", 13)],
     "All 64-bit integers, all explicit sizes 1..10; loops unwound completely.")
prop("C02", lambda t: [dp("unsigned", "h_unsigned_roundtrip", 13), dp("encode2", "h_unsigned_encode2", 13)],
     "All 64-bit integers, all explicit sizes 1..10; loops unwound completely.")
prop("C03", lambda t: [dp("signed", "h_decode_signed", 15), dp("unsigned", "h_decode_unsigned", 15)],
     "All byte strings of 0..12 bytes (an encoding has at most 10).")
prop("C04", lambda t: [dp("size", "h_tlv_size", 13), dp("long", "h_tlv_long", 300, SIZES="127,128,129,255,256")] +
     [dp(f"roundtrip{v}", "h_tlv_roundtrip", 18, MAXVAL=v) for v in ([2] if t == "quick" else [2, 6])] +
     [dp(f"sequence{v}{w}", "h_tlv_sequence", 25, MAXVAL=v, MAXVAL2=w, MAXTAG2=m) for v, w, m in ([(2, 1, 0)] if t == "quick" else [(2, 1, 0), (1, 1, 300), (2, 2, 'INT_MAX')])],
     "One entry: all tags 1..INT_MAX, payloads up to 2 bytes (thorough: 6); payloads of 127, 128, 129, 255 and 256 bytes with one- and two-byte tags. Two entries: first tag one of 6 boundary values, second too (thorough: any up to INT_MAX), payloads up to 2 and 1 bytes. Announced sizes: every tag and every 32-bit length.")
prop("C05", lambda t: [dp(f"decode{a}", "h_tlv_decode", b + 3, MINLEN=a, MAXLEN=b) for a, b in [(0, 8), (9, 12), (13, 14), (15, 16), (17, 18)] + ([] if t == "quick" else [(19, 20), (21, 22), (23, 24)])],
     "All byte strings up to 18 bytes (thorough: 24), every 64-bit length field included.")
prop("C06", lambda t: [dp(f"tlvs{k}.{a}", "h_tlvs_decode", b + 3, NTAGS=k, MINLEN=a, MAXLEN=b)
     for k in ((0, 1, 2) if t == "quick" else (0, 1, 2, 3)) for a, b in ([(0, 4)] if t == "quick" else [(0, 4), (5, 6), (7, 7), (8, 8)])] +
     [dp("many", "h_tlvs_many", 72), dp("seq", "h_tlvs_seq", 14, ENTRIES=2 if t == "quick" else 4)],
     "All blocks up to 4 bytes (thorough: 8) with 0..2 (thorough: 3) distinct expected tags, both flag values, with and without output; 2 (thorough: 4) entries with any one-byte tags and 0 or 1 bytes of data; one entry with every one-byte tag up to 36 against a list of 34 tags.")

M = ["misc"]
def mi(name, func, unwind, srcs=M, cost=1, **defs):
    d = dict(MAXLEN=4, MINLEN=0, BASE=10, TAIL=2, TYPES=15, HEADS='""', XSIZES="0")
    d.update(defs)
    return job(name, "misc", func, unwind, srcs, d, cost=cost)

prop("C07", lambda t: (lambda n: [mi("bin2hex", "h_bin2hex", 2*n+4, MAXLEN=n), mi("hex2bin", "h_hex2bin", 2*n+4, MAXLEN=2*n), mi("hex2bytes", "h_hex2bytes", 2*n+4, MAXLEN=2*n)])(6 if t == "quick" else 10),
     "All byte strings up to 6 bytes and all texts up to 12 characters (thorough: 10 and 20), both cases, explicit and implicit length.")
prop("C08", lambda t: [mi("hexdump", "h_hexdump", 25)],
     "All contents; every length 0..17 and every length from 24 to 2^32-1.")
LIMS = { # base -> (types: 1 int, 2 uint, 4 int64, 8 uint64; texts that miss the last character)
    10: [(1, ["214748364", "-214748364", "+214748364"]), (2, ["429496729", "-429496729"]), (4, ["922337203685477580", "-922337203685477580"]), (8, ["1844674407370955161", "-1844674407370955161"]), (8, ["922337203685477580"])],
    16: [(1, ["7ffffff", "-0x8000000"]), (2, ["0xfffffff"]), (4, ["0x7ffffffffffffff", "-800000000000000"]), (8, ["FFFFFFFFFFFFFFF"])],
}
def c09(t):
    n = 3 if t == "quick" else 4
    jobs = [mi(f"any{b}.t{ty}", "h_parse", n + 5, MAXLEN=n, BASE=b, TYPES=ty, cost=5) for b in ((0, 8, 10, 16, 36) if t == "quick" else (0, 2, 8, 10, 16, 36)) for ty in (5, 10)]
    for b, l in LIMS.items():
        for k, (ty, heads) in enumerate(l):
            for tail in (1,) if t == "quick" else (1, 2, 3):
                jobs.append(mi(f"lim{b}.{k}.t{ty}.{tail}", "h_parse_limits", 30, BASE=b, TYPES=ty, TAIL=tail, HEADS=",".join('"%s"' % h for h in heads)))
    return jobs + [mi("null", "h_parse_null", 3)]
prop("C09", c09, "All strings up to 3 characters (thorough: 4) in bases 0, 8, 10, 16 and 36 (thorough: also 2); strings made of boundary prefixes of the 32- and 64-bit limits followed by any 1 (thorough: 3) characters.",
     assumptions=["Text containing a vertical tab is only required not to be accepted with a minus as unsigned (GLib functions disagree on whether it is whitespace)"])
prop("C10", lambda t: [mi("equal", "h_equal", 8, MAXLEN=5 if t == "quick" else 8), mi("null", "h_equal_null", 8)],
     "All pairs of blocks, byte objects and ranges up to 5 bytes (thorough: 8), absent and empty ones included.")
prop("C11", lambda t: [mi("concat", "h_concat", 10, MAXLEN=2 if t == "quick" else 3), mi("xor", "h_xor", 24, XSIZES="0,1,7,8,9,17" if t == "quick" else "0,1,2,3,7,8,9,15,16,17,23")],
     "Concatenation of 1..3 operands of 0..2 (thorough: 3) bytes, exclusive or of all pairs of sizes 0,1,7,8,9,17 (thorough: more); all contents.")
prop("C12", lambda t: [mi("data", "h_data", 20, MAXLEN=9 if t == "quick" else 17), mi("variant", "h_variant", 20, MAXLEN=9 if t == "quick" else 17), mi("views", "h_views", 20, MAXLEN=9 if t == "quick" else 17)],
     "All contents and lengths up to 9 (thorough: 17), absent and empty sources included.")

def sv(name, func, unwind=12, **defs):
    d = dict(MAXN=3)
    d.update(defs)
    return job(name, "strv", func, unwind, ["strv", "misc"], d)
prop("C13", lambda t: [sv("read", "h_read", MAXN=3 if t == "quick" else 4)],
     "All pairs of vectors of up to 3 (thorough: 4) strings of up to 2 arbitrary characters, absent ones included; every 32-bit index.")
prop("C14", lambda t: (lambda n: [sv("add", "h_add", MAXN=n), sv("addv", "h_addv", MAXN=n), sv("remove_at", "h_remove_at", MAXN=n),
        sv("dups", "h_remove_dups", MAXN=1), sv("remove_pat", "h_remove_pattern", 3 + 2**(n + 1), PATN=n + 1),
        sv("dups_pat", "h_dups_pattern", 2 + 3**n, PATN=n + 1, PATTERNS=3**n)])(4 if t == "quick" else 5),
     "Any contents (strings of up to 2 arbitrary characters), vectors of up to 4 elements; removals of equal strings: every pattern of equal and different elements in vectors of 5, thorough: one more.")
prop("C15", lambda t: (lambda n: [sv("sort", "h_sort", MAXN=n), sv("bsearch", "h_bsearch", MAXN=n + 1), sv("strip", "h_strip", SLEN=4 if t == "quick" else 5)])(4 if t == "quick" else 5),
     "Vectors of up to 4 (binary search: 5) strings of up to 2 arbitrary characters; stripping: up to 2 strings of up to 4 characters; thorough: one more.",
     assumptions=["qsort() and bsearch() of libc are replaced by an insertion sort and a textbook binary search"])
def rg(name, func, unwind=16, cost=1, **defs):
    d = dict(ALLOC=3, STARTLO=0, STARTHI=max(0, defs.get("ALLOC", 3) - 1), MAXLO=-1, MAXHI=-1, FREE=0, RES=0, AFTERLO=0, AFTERHI=0)
    d.update(defs)
    return job(name, "ring", func, unwind, ["ring"], d, cost=cost)
RING_OPS = ["put", "put_front", "get", "get_last", "drop", "drop_last", "clear", "compact", "flatten", "reserve", "set_max"]
def ring(t, ops, al, free, lo, hi):
    jobs = []
    for op in ops:
        for a in al:
            for s in range(max(a, 1)):
                for m in range(-1, a + 1) if t == "thorough" else sorted({-1, a} if op in ("drop", "drop_last", "reserve", "set_max") else {-1, a - 1, a}):
                    jobs.append(rg(f"{op}.{a}.{s}.{m}", "h_" + op, ALLOC=a, STARTLO=s, STARTHI=s, MAXLO=m, MAXHI=m, FREE=free, AFTERLO=lo, AFTERHI=hi, cost=a))
    return jobs
def c17(t):
    return ring(t, RING_OPS, (0, 1, 3) if t == "quick" else (0, 1, 2, 3, 4, 5), 0, 0, 1) + [rg(f"limited{r}", "h_limited", RES=r, cost=9) for r in (0, 2)]
prop("C17", c17, "Every layout (allocated size 0, 1, 3; thorough: 0..5; every start and fill; every limit up to that size or none), any one operation with any argument, followed by either of two fixed sequences of observations, insertions at both ends, flattening and removals (one that grows the buffer and one that goes around its end); arbitrary element pointers.")
def c18(t):
    ops = ("drop", "drop_last", "clear", "set_max", "get", "put", "compact")
    return ring(t, ops, (1, 4) if t == "quick" else (0, 1, 2, 3, 4, 5), 1, 2 if t == "quick" else 0, 2) + [rg("set_free", "h_set_free", ALLOC=3)]
prop("C18", c18, "Every layout (allocated size 1, 4; thorough: 0..5; every start, fill and limit) with a free function, any discarding operation with any count (thorough: followed by insertions and removals), then release of the last reference.")

def ob(name, func, unwind=16, cost=1, **defs):
    return job(name, "objv", func, unwind, ["objv", "misc"], defs, cost=cost)
prop("C16", lambda t: (lambda n, e: [ob(f, "h_" + f, MAXN=n, **e) for f in ("add", "insert", "remove_at", "append")] +
        [ob(f, "h_" + f, MAXN=n) for f in ("read", "remove", "last_ref")] + [ob("equal", "h_equal", MAXN=2), ob("new", "h_new")])(*((3, dict(DISTINCT=1)) if t == "quick" else (4, dict()))),
     "All vectors of up to 3 (thorough: 4) elements drawn from two objects (additions and removals by position: distinct objects, thorough: also from two), absent vectors included, any one operation with any object (present, absent, none) and any position.")

def hi(name, func, unwind=10, cost=1, flags=(), **defs):
    d = dict(CAPACITY=3, STEPS=4, STEPVALUES="1", INTERVAL=100, DLO=-1, DHI=3, ILO=2, IHI=2, D1LO=1, D1HI=1, OP=0, BITS=4, REGIONS="{0,0,0,0}", S3LO=0, S3HI=2)
    d.update(defs)
    return job(name, "history", func, unwind, ["history"], d, cost=cost, flags=list(flags) + ["--max-field-sensitivity-array-size", "256"])
def c19(t):
    if t == "quick":
        c = [(1, 0, 1, 2), (2, 0, 1, 2), (2, 0, 2, 2), (2, 1, 1, 2), (2, 3, 1, 2), (3, 0, 1, 2)]
        s, w = [(1, 2)], (1, 2, 3)
    else:
        c = [(c, op, d, iv) for c in (1, 2, 3, 4) for op in range(5) for d in range(-1, 4) for iv in (1, 2, 3)]
        s, w = [(1, 3), (2, 2), (2, 3), (3, 3)], (1, 2, 3, 4, 5, 8)
    return ([hi(f"contents{c}.{op}.{d}.{iv}", "h_contents", CAPACITY=c, OP=op, D1LO=d, D1HI=d, ILO=iv, IHI=iv, DHI=iv + 1, cost=c) for c, op, d, iv in c] +
        [hi(f"symbolic{c}.{s}", "h_symbolic", CAPACITY=c, STEPS=s, flags=["--slice-formula"], cost=c) for c, s in s] +
        [hi(f"wrap{c}", "h_wrap", 2 * c + 3, CAPACITY=c, STEPS=2 * c + 1) for c in w] + [hi("invalid", "h_invalid")])
prop("C19", c19, "Histories of 1..3 (thorough: 4) samples: additions at clock steps of -1..3 (thorough: first step too, -1..3) around an interval of 2 (thorough: 1, 2, 3) with a query, clear or another addition in between; up to 7 (thorough: 17) additions, then expiry of every number of them; two additions (thorough: three) with any clock readings and any interval up to 2^61.",
     assumptions=["Clock readings and intervals are below 2^61 in magnitude"])
def c20(t):
    sv = dict(STEPVALUES="1,3", INTERVAL=5)
    if t == "quick":
        a = [(2, 0, 2, 2, "0,0,0,0", 3), (3, 0, 1, 1, "0,0,0,0", 3), (3, 1, 2, 2, "1,2,1,2", 3), (4, 0, 1, 1, "0,0,0,0", 3), (4, 1, 1, 1, "1,1,2,2", 3)]
    else:
        a = [(c, i, 0, 2, r, 5) for c in (2, 3, 4) for i, r in enumerate(("0,0,0,0", "1,2,1,2", "1,1,1,1", "2,2,2,1", "2,2,0,0"))]
    return [hi(f"average{c}.{i}", "h_average", CAPACITY=c, S3LO=lo, S3HI=hi_, REGIONS="{%s}" % r, BITS=b, cost=c, **sv) for c, i, lo, hi_, r, b in a] + [
        hi("pair1", "h_pair", STEPVALUES="1"), hi("pair5", "h_pair", STEPVALUES="5"), hi("pairlong", "h_pair", STEPVALUES="(G_GINT64_CONSTANT(1)<<31),(G_GINT64_CONSTANT(1)<<33)")] + ([] if t == "quick" else [hi("pairbig", "h_pair", STEPVALUES="1000003,(G_GINT64_CONSTANT(1)<<30)")])
prop("C20", c20, "Any two values at clock steps 1, 5, 2^31 and 2^33 (thorough: also 1000003 and 2^30); up to four samples at clock steps 0, 1 and 3 with an interval of 5, values from a block of 8 (thorough: 32) values around zero or at either end of the integer range.",
     assumptions=["The product of a value and the covered interval fits 62 bits"])

def it(name, func, unwind=12, cost=1, **defs):
    d = dict(MAXN=3, KIND=0, XVALUE="(-7)")
    d.update(defs)
    return job(name, "ints", func, unwind, ["ints", "intarray", "misc"], d, cost=cost)
prop("C21", lambda t: (lambda n: [it("slice", "h_slice", MAXN=n), it("owner", "h_owner", 20, MAXN=n), it("nothing", "h_nothing")] + [it(f"release{k}", "h_release", KIND=k, MAXN=n - 1) for k in range(5)])(3 if t == "quick" else 4),
     "Arrays of up to 3 (thorough: 4) numbers of every kind of ownership with any contents; any 32-bit offset and count of a slice; array, slice and slice of the slice released in every order and in every way.")
prop("C22", lambda t: [it("pairs", "h_pairs", 20, MAXN=4 if t == "quick" else 5), it("triples", "h_triples", MAXN=3 if t == "quick" else 4), it("find", "h_find", MAXN=6 if t == "quick" else 9)],
     "All pairs of arrays of up to 4 (thorough: 5) numbers, all triples of up to 3 (thorough: 4), absent ones included; searches in arrays of up to 6 (thorough: 9).")
prop("C23", lambda t: (lambda n: [it(f, "h_" + f, MAXN=n) for f in ("append", "set_count", "remove_range", "remove_far", "remove_index", "remove_value", "array_find", "handover", "array_nothing")])(4 if t == "quick" else 5),
     "Any contents of up to 4 (thorough: 5) elements, every position, counts up to 3 beyond the size and near the type limit, every pattern of matching elements in removals by value.")
prop("C24", lambda t: [it("sort", "h_sort", MAXN=4 if t == "quick" else 6)], "All arrays of up to 4 (thorough: 6) numbers over the full range, both directions.",
     assumptions=["g_array_sort() is replaced by an insertion sort that uses the given comparison function"])

def ip(name, func, unwind=12, cost=1, **defs):
    d = dict(STEPS=2, OP1=0, CONTEXT=0)
    d.update(defs)
    return job(name, "idlepool", func, unwind, ["idlepool", "misc"], d, cost=cost)
prop("C25", lambda t: [ip(f"pool{o}.{c}", "h_pool", OP1=o, CONTEXT=c, STEPS=2 if t == "quick" and c else 3, cost=3) for o in range(7) for c in (0, 1)] +
        [ip("adders", "h_adders"), ip("nothing", "h_adders_nothing")],
     "Every sequence of 3 operations (in a non-default main context: 2; thorough: 3) of any of 7 kinds (adding objects, byte arrays, variants, pointers with destroy notification, draining, running the loop, releasing references); every kind of adder with present and absent items.")
prop("C26", lambda t: [ip(f"shared{o}", "h_shared", OP1=o, STEPS=3 if t == "quick" else 4, cost=3) for o in range(6)] +
        [ip("threads", "h_threads"), ip("default", "h_default"), ip("unshared", "h_unshared")],
     "Every sequence of 3 (thorough: 4) operations of 6 kinds on a shared pool seen through two owners; pools of two threads and two variables.")
def iq(name, func, unwind=14, cost=1, **defs):
    d = dict(N=2, KIND0=0)
    d.update(defs)
    return job(name, "idlequeue", func, unwind, ["idlequeue", "misc"], d, cost=cost)
prop("C27", lambda t: [iq(f"run{k}", "h_run", KIND0=k, N=3 if t == "quick" else 4) for k in range(7)] + [iq("plain", "h_plain")], "Queues of up to 3 (thorough: 4) calls of every kind, whose actions add, cancel or drop other calls, the queue or nothing, followed by full runs of the loop.")
prop("C28", lambda t: [iq(f"free{k}", "h_free", KIND0=k) for k in range(5)] + [iq(f"tags{k}", "h_tags", KIND0=k, N=2 if t == "quick" else 3) for k in range(6)] +
     [iq("any_tags", "h_any_tags"), iq("none", "h_none")], "Two calls of any kind with cancellation by tag (any 64-bit tags), of everything and by the end of the queue, from outside and from within a running call; thorough: three.")
def wr(name, func, unwind=20, cost=1, **defs):
    return job(name, "weakref", func, unwind, ["weakref"], defs, cost=cost)
prop("C29", lambda t: [wr("history", "h_weakref", STEPS=3 if t == "quick" else 4), wr("nothing", "h_nothing")],
     "Every history of 3 (thorough: 4) operations out of setting (either of two objects, none), the end of either object, taking and dropping own references, starting with or without an object.")
def lg(name, func, unwind=40, cost=1, srcs=("log", "misc"), out=200, silent=0, flags=(), **defs):
    d = dict(LENGTHS="0", SLEN=3, VF_OUT_SIZE=out, MAXTEXT=out)
    d.update(defs)
    return job(name, "log", func, unwind, list(srcs), d, cost=cost, mdefs=dict(VF_OUT_SIZE=out, **(dict(VF_NO_OUTPUT=1) if silent else {})), flags=["--max-field-sensitivity-array-size", str(max(600, out)), *flags])
prop("C30", lambda t: [lg("delivery", "h_delivery", MAXCHAIN=4 if t == "quick" else 5)], "Paths of up to 4 (thorough: 5) modules, ending with nothing or with the default module, with any levels and flags, any level of the message, every combination of own and global functions.")
prop("C31", lambda t: [lg(f"stdio{k}", "h_stdio", 70 if k == 2 else 40, cost=3, TIMESTAMP=k, LENGTHS="2") for k in range(5)] +
    [lg("long", "h_stdio", 720, out=800, TIMESTAMP=1, LONG=1, LENGTHS="512" if t == "quick" else "0,1,510,511,512,513,700", cost=9),
     lg("syslog", "h_syslog", LENGTHS="2"), lg("glib", "h_glib", LENGTHS="0,2")], "Texts of 2 characters (first and last ones arbitrary, thorough and long ones: lengths around the size of the internal buffer), every level, absent, empty and present names, thread ids, 5 kinds of time stamp settings, all built-in destinations.")
prop("C32", lambda t: [lg("option", "h_option", SLEN=4 if t == "quick" else 5), lg("long", "h_option_long")], "All strings of up to 4 (thorough: 5) characters with and without a module part; 15 longer options cut at every length, with any last character of the full ones; three modules.")
prop("C33", lambda t: [lg(f"type{k}", "h_type", INIT=k, BITS=2 if t == "quick" else 4, cost=2) for k in range(5)] + [lg("unknown", "h_type_unknown", cost=4), *[lg(f"format{k}", "h_format", FIRST=k) for k in range(5)], lg("env", "h_env", WHICH=-1, ENVIRONMENT=1)] +
     [lg(f"env{k}.{n}", "h_env", WHICH=k, ENVIRONMENT=1, SLEN=n, silent=1) for k in range(3) for n in ((1, 2) if t == "quick" else (1, 2, 3))], "Every built-in and a custom initial type, every type name in several mixtures of cases, unknown names differing in any one character, every sequence of three time stamp formats out of five (the default one by name included); every environment value of 1 and 2 (thorough: 3) characters.")
prop("C34", lambda t: [lg("dump", "h_dump", 80, LENGTHS="0,1,9,16,17"), lg("lines", "h_dump", 80, LENGTHS="32,33" if t == "quick" else "31,32,33,40,48,49"), lg("huge", "h_dump_huge", 80, HUGE_DUMP=1)], "Sizes 0, 1, 9, 16, 17, 32, 33 (thorough: up to 49) with any contents, with and without a prefix, enabled and disabled levels, blocks and byte objects; the first two lines of dumps of 2 GiB and more.")
prop("C43", lambda t: [lg(f"description{n}", "h_description", 540, MINN=n, MAXN=n) for n in range(-1, 3 if t == "quick" else 4)], "No list, and lists of up to 2 (thorough: 3) modules with names of 1 to 4 characters, all but the first arbitrary.")
def ino(name, func, unwind=40, cost=1, **defs):
    d = dict(OP0=0, OP1=0, STEPS=2)
    d.update(defs)
    return job(name, "inotify", func, unwind, ["inotify", "misc"], d, cost=cost, mdefs=dict(VF_DEFINES_FD=1), flags=["--max-field-sensitivity-array-size", "512"])
prop("C35", lambda t: [ino(f"events{a}", "h_events", 80, ACTION=a, BATCHES=1 if t == "quick" else 2) for a in range(8)] +
     [ino(f"cut{a}", "h_events", 120, ACTION=a, CUTS=1 if t == "quick" else 3, CUTLO=1) for a in ((3,) if t == "quick" else range(8))] + [ino("longest", "h_longest", 300), ino("same_path", "h_same_path")],
     "Batches of two (thorough: two batches of two) events for either of two watches, for one that is gone or the overflow marker, with any masks, cookies and 16-byte names, absent and longest names included, optionally followed by an event that is cut off; three handlers, one of which removes itself or another one, or destroys or drops either watch.",
     assumptions=["Apart from the cut off event, the kernel delivers complete events"])
def c36(t):
    a = [(a, b) for a in (0, 7) for b in range(12)] + [(a, b) for a in (5, 6, 9) for b in (0, 1)] if t == "quick" else [(a, b) for a in range(12) for b in range(12)]
    return [ino(f"life{a}.{b}", "h_lifetimes", OP0=a, OP1=b, STEPS=2 if t == "quick" else 3) for a, b in a] + [ino("nothing", "h_nothing"), ino("same_path", "h_same_path_gone")]
prop("C36", c36, "Every history of 3 (thorough: 4) operations out of creating two watches in both ways, failing creation at either kernel call, destruction, taking and releasing references, hang-up and read errors of the channel (quick: first two operations from a subset), then release of everything and a fresh start.")
def tn(name, func, unwind=40, cost=1, **defs):
    d = dict(FIRST=0, OP0=5, OP1=0, STEPS=2)
    d.update(defs)
    return job(name, "timenotify", func, unwind, ["timenotify", "misc"], d, cost=cost, mdefs=dict(VF_DEFINES_FD=1))
prop("C37", lambda t: [tn(f"life{f}.{a}.{b}", "h_timenotify", FIRST=f, OP0=a, OP1=b, STEPS=2 if t == "quick" else 3)
     for f, a in ([(0, 5), (0, 6), (0, 7), (0, 4), (1, 5)] if t == "quick" else [(f, a) for f in (0, 1, 2) for a in range(3, 12)]) for b in ((0, 3, 5, 8, 10, 11) if t == "quick" else range(12))] + [tn("nothing", "h_nothing")],
     "Every history of 4 (thorough: 5) operations out of getting (with either kernel call allowed to fail), taking and releasing references, adding three kinds of handlers (removing itself or another one, releasing everything), removing, clock changes and hang-up (quick: the first ones from a subset), then a clock change, release of everything and a fresh start.")
def he(name, func, unwind=24, srcs=("misc", "version"), **defs):
    return job(name, "helpers", func, unwind, list(srcs), defs, flags=["--max-field-sensitivity-array-size", "512"])
def published():
    text = open(os.path.join(os.environ.get("VF_REPO", "/repo"), "include/gutil_version.h")).read()
    return " ".join("X(%s,%s,%s)" % m for m in re.findall(r"^\s*#\s*define\s+GUTIL_VERSION_(\d+)_(\d+)_(\d+)\b", text, re.M))
prop("C38", lambda t: [he("disconnect", "h_disconnect", MAXIDS=3 if t == "quick" else 4), he("longer", "h_disconnect", MAXIDS=6, MINCOUNT=4, MASKS="0x14,0x2d,0x3f") if t == "quick" else he("longer", "h_disconnect", MAXIDS=9, MINCOUNT=5, MASKS="0x54,0xad,0x169,0x1ff"), he("sources", "h_sources"), he("object", "h_object")],
     "Lists of up to 3 (thorough: 4) handler identifiers with every pattern of zero and non-zero ones and of up to 6 (thorough: 9) with three (thorough: four) patterns, and every count (negative ones included), present and absent objects and lists; any of three sources or none; up to 3 additional references.")
prop("C39", lambda t: [he("version", "h_version", VERSIONS=published()), he("align", "h_align")],
     "All versions within the field widths, all pairs of them; every constant defined by the header; all 32- and 64-bit sizes for which the result exists, all non-negative integers up to 2^31-16.")

def nu(name, srcs, **defs):
    return job("null_" + name, "null", "h_" + name, 24, ["ring", "history", "strv", "objv", "misc", "datapack"] + srcs, defs)
prop("C41", lambda t: [nu("ring", []), nu("history", []), nu("strv", []), nu("objv", []), nu("misc", []), nu("datapack", []),
     lg("dump", "h_dump", 80, LENGTHS="0,1"),
     mi("parse", "h_parse_null", 3), mi("equal", "h_equal_null", 8), it("ints", "h_nothing"), it("array", "h_array_nothing"), hi("history", "h_invalid"),
     ip("pool", "h_adders_nothing"), iq("queue", "h_none"), wr("weakref", "h_nothing"), ino("inotify", "h_nothing"), tn("timenotify", "h_nothing")],
     "One call of every function with every absent argument it tolerates; all values of the remaining arguments, including pointers that must not be followed.")

def c42(t):
    """Debug build of everything, release build of what has assertions."""
    thorough = t == "thorough"
    life = [(a, b) for a in (0, 7) for b in range(12)] if thorough else [(0, 0), (0, 1), (0, 2), (0, 5), (0, 7), (7, 2), (7, 7)]
    steps = 3 if thorough else 2
    jobs = []
    for rel in (0, 1):
        m = [rg(f"ring.{op}.{s}.{fr}", "h_" + op, ALLOC=3, STARTLO=s, STARTHI=s, MAXLO=-1, MAXHI=3 if thorough else -1, FREE=fr, AFTERLO=0 if thorough else 2, AFTERHI=2, cost=3)
                for op in (RING_OPS if thorough else ("put", "put_front", "get_last", "drop", "drop_last", "clear", "compact", "reserve"))
                for s, fr in ([(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)] if not rel or thorough else [(1, 1)])]
        m += [hi(f"history.contents{c}.{op}.{d}", "h_contents", CAPACITY=c, OP=op, D1LO=d, D1HI=d, ILO=2, IHI=2, DHI=3, cost=c) for c, op, d in ((1, 0, 1), (2, 0, 1), (2, 1, 1), (2, 3, 1))]
        m += [hi(f"history.wrap{c}", "h_wrap", 2 * c + 3, CAPACITY=c, STEPS=2 * c + 1) for c in (1, 2, 3)]
        m += [ip(f"idlepool.pool{o}.{c}", "h_pool", OP1=o, CONTEXT=c, STEPS=steps, cost=3) for o in range(7) for c in (0, 1) if not c or not rel]
        m += [ip(f"idlepool.shared{o}", "h_shared", OP1=o, STEPS=steps, cost=3) for o in range(6)] + [ip("idlepool.threads", "h_threads"), ip("idlepool.default", "h_default")]
        m += [iq(f"idlequeue.run{k}", "h_run", KIND0=k) for k in range(7)] + [iq(f"idlequeue.free{k}", "h_free", KIND0=k) for k in range(5)] + [iq("idlequeue.any_tags", "h_any_tags")]
        m += [wr("weakref.history", "h_weakref", STEPS=steps)]
        m += [ino(f"inotify.life{a}.{b}", "h_lifetimes", OP0=a, OP1=b) for a, b in life] + [ino(f"inotify.events{a}", "h_events", 80, ACTION=a, BATCHES=1) for a in (range(8) if thorough else (0, 3, 5))]
        m += [tn(f"timenotify.life{f}.{a}.{b}", "h_timenotify", FIRST=f, OP0=a, OP1=b) for f, a, b in [(0, 5, 0), (0, 5, 10), (0, 6, 5), (1, 5, 3)]]
        if not rel:
            m += [dp("datapack.signed", "h_signed_roundtrip", 13), dp("datapack.decode", "h_decode_signed", 15), dp("datapack.unsigned", "h_decode_unsigned", 15), dp("datapack.tlvs", "h_tlvs_decode", 7, NTAGS=1, MAXLEN=4), dp("datapack.seq", "h_tlvs_seq", 14, ENTRIES=2)]
            m += [mi("misc.bin2hex", "h_bin2hex", 10, MAXLEN=3), mi("misc.hex2bin", "h_hex2bin", 10, MAXLEN=4), mi("misc.hexdump", "h_hexdump", 25), mi("misc.concat", "h_concat", 10, MAXLEN=1), mi("misc.xor", "h_xor", 24, XSIZES="0,1,8,9"), mi("misc.data", "h_data", 12), mi("misc.views", "h_views", 12), mi("misc.equal", "h_equal", 8, MAXLEN=2), mi("misc.parse", "h_parse", 7, MAXLEN=2)]
            m += [sv("strv.add", "h_add", MAXN=2), sv("strv.remove_at", "h_remove_at", MAXN=2), sv("strv.sort", "h_sort", MAXN=2), sv("strv.read", "h_read", MAXN=1)]
            m += [ob("objv.read", "h_read", MAXN=2), ob("objv.remove", "h_remove", MAXN=2), ob("objv.append", "h_append", MAXN=2, DISTINCT=1), ob("objv.insert", "h_insert", MAXN=2, DISTINCT=1)]
            m += [it("ints." + f, "h_" + f, 20, MAXN=2) for f in ("owner", "slice", "append", "set_count", "remove_range", "remove_value", "handover", "sort")]
            m += [lg("log.delivery", "h_delivery", MAXCHAIN=2), lg("log.option", "h_option", SLEN=2), *[lg(f"log.format{k}", "h_format", FIRST=k) for k in (0, 2)], lg("log.dump", "h_dump", 80, LENGTHS="0,1,17")]
        jobs += [dict(j, name=("release." if rel else "debug.") + j["name"], debug=not rel) for j in m]
    return jobs
prop("C42", c42, "The histories of C17, C18, C19, C25, C26, C27, C28, C29, C35, C36 and C37 (quick: a subset of their first operations), compiled with -DDEBUG (every check plus every internal assertion) and without; small scenarios of all other modules with -DDEBUG.",
     assumptions=["The kernel delivers complete inotify events and reports clock changes as a read error, which is what the assertions say"])

CONC = ["ring", "history", "ints", "idlepool", "idlequeue", "weakref"]
CONC_SRCS = CONC + ["misc"]
CUT = ["gutil_idle_pool_drain", "gutil_idle_queue_cancel_all"]
def cc(k, a, b, keep):
    return job(f"{CONC[k]}.threads{a}{b}{keep}", "conc", "h_threads", 20, CONC_SRCS, dict(KIND=k, PROG1=a, PROG2=b, KEEP=keep),
               mdefs={"VF_CONC": 1}, kinds=["coop"], native=["conc_native"], cut=CUT, cost=(a + b) ** 2)
def cs(k, func, a, e):
    return job(f"{CONC[k]}.{func}{a}{e}", "conc", func, 40, CONC_SRCS, dict(KIND=k, PROG1=a, PROG_ENV=e, SWITCH=1, POINTS=(1, 3, 5)[a]), libinclude="vf_switch.h")
def c40(t):
    progs = [(0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)] + ([(1, 2, 0)] if t == "quick" else [(0, 2, 0), (0, 2, 1), (1, 2, 0), (1, 2, 1), (2, 2, 0), (2, 2, 1)])
    return ([cc(k, *p) for k in range(6) for p in progs] +
            [cs(k, "h_switch", a, e) for k in range(6) for a in range(3) for e in range(2 if t == "quick" else 3)] +
            [cs(2, "h_data", 1, e) for e in (0, 1, 9)] + [cs(2, "h_switch", a, 9) for a in range(3)])
prop("C40", c40, "Two threads, each with one reference of its own, which together take 0 to 3 (thorough: 4) further references and release all of theirs, a third reference being kept elsewhere or not; all interleavings of their memory accesses (sequentially consistent). What one of them reads of the object, with the other running from beginning to end before or after any atomic operation. Integer arrays copied, static, taken over and with a function that releases the data, handed over by one or both.",
     assumptions=["Sequential consistency; an atomic operation of GLib is one step", "Weak references refer to no object, pools and queues are empty while the threads run; should emptying them write pointers, that part (no items, no event source, decided under C25 and C28) is left out of the threads"])
