"""C11: printed instruction counts against an independent observer of the executed instructions and against kernels whose counts are known."""
import ctypes as ct, os, random, re
import numpy as np
import ocl
from ocl import Ctx, Lib, Local, C, CLError, sizes
from c10 import Gen, mkdata
from c21 import Capture

PROP = "C11"
RULE = ("histories of 1-5 launches in 1-2 contexts (with and without counting, 1-8 worker threads, jitter, uniform and non-uniform ranges, quick mode, optimised and not) of generated kernels: the report printed after each "
        "counted launch must list exactly the opcodes, calls by function and memory operations by address space with the byte totals that the monitor plugin observed for that launch, in the documented order and format, and "
        "nothing is printed otherwise; table kernels additionally have global/local/constant accesses and calls whose counts follow from their data; non-trivial = distinct kernel features, threads and launch position")
ASSUMPTIONS = ["instructions of the simulated program are those the simulator announces to plugins; table kernels tie these to the source"]
VARIANT = "rel"
CASE_TIMEOUT = 120


def cases(rng, tier):
    f = 1 if tier == "quick" else 25
    out = [dict(k="mix", seed=rng.randrange(1 << 30)) for _ in range(260 * f)]
    out += [dict(k="crowd", seed=rng.randrange(1 << 30)) for _ in range(6 * f)]
    out += [dict(k="table", seed=rng.randrange(1 << 30)) for _ in range(300 * f)]
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd = env, env["wd"]
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def run_case(w, c):
    return dict(mix=mix, table=table, crowd=crowd)[c["k"]](w, c)


def parse(text):
    """-> ([(kernel, [(count, name)])], problem)"""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"Instructions executed for kernel '(.*)':$", lines[i])
        if not m:
            if lines[i].strip() and not lines[i].startswith("item "):
                return out, "unexpected line %r" % lines[i]
            i += 1
            continue
        i += 1
        ent = []
        while i < len(lines):
            m2 = re.match(r"( *)(\d+) - (\S.*)$", lines[i])
            if not m2:
                break
            if len(m2.group(1)) + len(m2.group(2)) != max(16, len(m2.group(2))):
                return out, "count is not 16 characters wide: %r" % lines[i]
            ent.append((int(m2.group(2)), m2.group(3)))
            i += 1
        if i >= len(lines) or lines[i] != "":
            return out, "report is not followed by an empty line but %r" % (lines[i] if i < len(lines) else None)
        out.append((m.group(1), ent))
    return out, None


def observed(mon):
    exp = {}
    for k, (n, b) in mon.counts().items():
        if k.startswith("call llvm.dbg."):
            continue
        if k.startswith(("load ", "store ")):
            k = "%s (%d bytes)" % (k, b)
        elif k == "call ?":
            k = "call"
        elif k.startswith("call "):
            k += "()"
        exp[k] = n
    return exp


def judge(name, text, counted, exp, v, what):
    reps, bad = parse(text)
    if bad:
        v.append(("format", "%s: %s" % (what, bad)))
        return None
    if not counted:
        if reps:
            v.append(("unasked", "%s: counts printed without the option" % what))
        return None
    if len(reps) != 1 or reps[0][0] != name:
        v.append(("report", "%s: reports for %s instead of one for %r" % (what, [x[0] for x in reps], name)))
        return None
    ent = reps[0][1]
    got = {}
    for n, k in ent:
        if k in got:
            v.append(("twice", "%s: %r listed twice" % (what, k)))
        got[k] = n
    if ent != sorted(ent, key=lambda x: (-x[0], x[1])):
        v.append(("order", "%s: entries are not in order: %s" % (what, ent[:6])))
    if got != exp:
        d = ["%s: %s instead of %s" % (k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
        v.append(("counts:" + re.sub(r"\d+", "#", d[0].split(":")[0].split("(")[0]), "%s: %d entries differ: %s" % (what, len(d), "; ".join(d[:6]))))
    return got


def launch(w, X, K, name, gs, ls, off, counted, th, jit, v, what):
    L = w.L
    L.mon.mask("inst")
    L.mon.clear()
    L.mon.jitter(jit, 3)
    cap = Capture(w)
    try:
        X.launch(K, gs, ls, off)
    finally:
        text = cap.end()
        L.mon.jitter(0)
    return judge(name, text, counted, observed(L.mon), v, what)


def contexts(w, r):
    n = r.choice([1, 1, 2])
    out = []
    for i in range(n):
        counted = r.random() < (.85 if i == 0 else .5)
        env = {"NUM_THREADS": r.choice([1, 1, 2, 3, 4, 8])}
        if counted:
            env["INST_COUNTS"] = 1
        if r.random() < .2:
            env["DATA_RACES"] = 1
        if r.random() < .2:
            env["UNINITIALIZED"] = 1
        out.append((counted, env))
    return out


def mix(w, c):
    r = random.Random(c["seed"])
    v, nt, ev, n = [], set(), 0, 0
    cs = [(cn, env, Ctx(w.L, env)) for cn, env in contexts(w, r)]
    try:
        gens = []
        for _ in range(r.randint(1, 3)):
            g = Gen(r)
            g.name = "k%d" % len(gens)
            g.src = g.src.replace("kernel void k(", "kernel void %s(" % g.name)
            gens.append((g, mkdata(g, r)))
        built = {}
        for li in range(r.randint(1, 5)):
            ci = r.randrange(len(cs))
            counted, env, X = cs[ci]
            gi = r.randrange(len(gens))
            g, (inp, sel, ra, rb) = gens[gi]
            if (ci, gi) not in built:
                try:
                    built[ci, gi] = X.kernel(X.program(g.src, g.opts), g.name)
                except CLError as e:
                    return dict(machinery="c11: generated kernel does not build: %s\n%s" % (str(e)[:700], g.src))
            K = built[ci, gi]
            X.args(K, X.buffer(np.zeros(g.n, np.uint32)), X.buffer(inp), X.buffer(sel), X.buffer(np.zeros(g.n, np.uint32)), X.buffer(np.zeros(8, np.uint32)), X.buffer(np.zeros(4, np.uint32)), Local(400), Local(100),
                   X.buffer(inp, flags=C["CL_MEM_READ_ONLY"]), np.uint32(g.n), np.uint32(ra), np.uint32(rb))
            quick = r.random() < .1
            ocl.setenv(dict(env, PLUGINS=w.L.mon.path, LOG="/dev/null", **({"QUICK": 1} if quick else {})))
            jit = r.choice([0, 0, 6])
            what = "launch %d (%s, %s%s, %s)" % (li, env, g.g, g.ls, " ".join(g.feat))
            got = launch(w, X, K, g.name, tuple(g.g), tuple(g.ls), tuple(g.off) if g.off else None, counted, env["NUM_THREADS"], jit, v, what)
            n += sum((got or {}).values())
            ev += len(got or {})
            nt |= {"%s t%d l%d" % (f, env["NUM_THREADS"], li) for f in g.feat}
    finally:
        for x in cs:
            x[2].release()
        ocl.setenv({})
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=ev, stats={"instructions": n}, sample=dict(kind="mix", feats=[g.feat for g, _ in gens]))


TSRC = r'''
#define LD(T, SP, P) { volatile SP T *q = (volatile SP T *)(P); *q; }
#define ST(T, SP, P) { volatile SP T *q = (volatile SP T *)(P); *q = (T)1; }
typedef local int *lip;
typedef global int *gip;
constant int K[4] = {1, 2, 3, 4};
__attribute__((noinline)) int f1(int x) { return x + 1; }
__attribute__((noinline)) int f2(int x, global int *p) { volatile global int *q = p; return f1(x) + *q; }
__attribute__((noinline)) void f3(local int *p) { volatile local int *q = p; *q = 3; }
kernel void %s(global int *g, local int *l, constant int *cc, global const int *a, global const int *b, local float4 *lf) {
  size_t i = get_global_linear_id();
  for (int j = b[2 * i], e = b[2 * i + 1]; j < e; j++)
    switch (a[j]) {
%s
    }
}
'''
GLL = "size_t get_global_linear_id_() { return (get_global_id(0) - get_global_offset(0)) + get_global_size(0) * ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2))); }\n#define get_global_linear_id get_global_linear_id_\n"
# (statement, {entry: (count, bytes)})
OPS = []
for T, n in (("char", 1), ("short", 2), ("int", 4), ("long", 8), ("float4", 16), ("int2", 8), ("float", 4), ("ushort8", 16), ("double", 8), ("uchar16", 16), ("ulong16", 128), ("char2", 2)):
    for sp, p in (("global", "g"), ("local", "l"), ("constant", "cc")):
        OPS.append(("LD(%s, %s, %s)" % (T, sp, p), {"load " + sp: (1, n)}))
        if sp != "constant":
            OPS.append(("ST(%s, %s, %s)" % (T, sp, p), {"store " + sp: (1, n)}))
for T in ("lip", "gip"):                    # pointers stored in local memory
    OPS.append(("LD(%s, local, l)" % T, {"load local": (1, 8)}))
    OPS.append(("ST(%s, local, l)" % T, {"store local": (1, 8)}))
OPS += [
    ("f1(3);", {"call f1()": (1, 0)}),
    ("f2(3, g);", {"call f2()": (1, 0), "call f1()": (1, 0), "load global": (1, 4)}),
    ("f3(l);", {"call f3()": (1, 0), "store local": (1, 4)}),
    ("sin(1.0f + j);", {"call _Z3sinf()": (1, 0)}),
    ("cos((float2)(j));", {"call _Z3cosDv2_f()": (1, 0)}),
    ("atomic_inc(g);", {"call _Z10atomic_incPU3AS1Vi()": (1, 0)}),
    ("atomic_add(l, 2);", {"call _Z10atomic_addPU3AS3Vii()": (1, 0)}),
    ("max(j, 3);", {"call _Z3maxii()": (1, 0)}),
    ("mem_fence(CLK_LOCAL_MEM_FENCE);", {"call _Z9mem_fencej()": (1, 0)}),
    ("get_local_id(0);", {"call _Z12get_local_idj()": (1, 0)}),
    ("vload3(0, (global int *)g);", {"call _Z6vload3mPU3AS1Ki()": (1, 0)}),
    ("for (int m = 0; m < 7; m++) f1(m);", {"call f1()": (7, 0)}),
    ("((volatile constant int *)K)[j & 3];", {"load constant": (1, 4)}),
    ("{ int fl_ = 5 / (j + 1000); fl_ = fl_ % 3; }", {"sdiv": (1, 0), "srem": (1, 0)}),
    ("{ uint fu = 5u / (uint)(j + 1000); fu %= 3u; fu = fu >> (j & 3); }", {"udiv": (1, 0), "urem": (1, 0), "lshr": (1, 0)}),
    ("{ volatile float ff = j; ff = -ff; ff = fmod(ff, 2.0f); }", {"fneg": (1, 0), "sitofp": (1, 0), "call _Z4fmodff()": (1, 0)}),
    ("{ int4 v4 = (int4)(j); v4 = v4.wzyx; volatile int s = v4.y; }", None)]


def table(w, c):
    L = w.L
    r = random.Random(c["seed"])
    v, nt, ev, total = [], set(), 0, 0
    cs = [(cn, env, Ctx(L, env)) for cn, env in contexts(w, r)]
    try:
        for li in range(r.randint(1, 4)):
            counted, env, X = r.choice(cs)
            ops = r.sample([o for o in OPS if o[1] is not None], r.randint(2, 9))
            dim = r.choice([1, 1, 2, 3])
            while True:
                ls = [r.choice([1, 2, 3, 4]) for _ in range(dim)]
                ng = [r.choice([1, 2, 3, 5]) for _ in range(dim)]
                if np.prod(ls) * np.prod(ng) <= 120:
                    break
            g = [a * b for a, b in zip(ls, ng)]
            off = [r.choice([0, 5]) for _ in range(dim)] if r.random() < .3 else None
            n = int(np.prod(g))
            name = r.choice(["kern", "a_long_kernel_name_with_digits_42", "k"])
            src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n" + GLL + TSRC % (name, "\n".join("    case %d: %s break;" % (i, o[0]) for i, o in enumerate(ops)))
            a, b = [], []
            for i in range(n):
                s = len(a)
                a += [r.randrange(len(ops)) for _ in range(r.choice([0, 0, 1, 1, 2, 5, 9]))]
                b += [s, len(a)]
            try:
                K = X.kernel(X.program(src, "-cl-opt-disable"), name)
            except CLError as e:
                return dict(machinery="c11: table kernel does not build: %s\n%s" % (str(e)[:700], src))
            bufs = (X.buffer(size=256), Local(256), X.buffer(size=256), X.buffer(np.array(a or [0], np.int32)), X.buffer(np.array(b, np.int32)), Local(64))
            X.args(K, *bufs)
            exp = {"load global": [2 * n + len(a), 4 * (2 * n + len(a))]}
            for x in a:
                for k, (cn, by) in ops[x][1].items():
                    q = exp.setdefault(k, [0, 0])
                    q[0] += cn
                    q[1] += by
            what = "launch %d (%s, %s%s) of %s" % (li, env, g, ls, [o[0] for o in ops])
            jit = r.choice([0, 0, 6])
            got = launch(w, X, K, name, tuple(g), tuple(ls), tuple(off) if off else None, counted, env["NUM_THREADS"], jit, v, what)
            if got is None:
                continue
            total += sum(got.values())
            pred = {}
            for k, (cn, by) in exp.items():
                pred[k + (" (%d bytes)" % by if by else "")] = cn
            names = {x for o in OPS if o[1] for x in o[1]} | {"load local", "store global"}
            for k in set(pred) | {k for k in got if k.split(" (")[0] in names}:
                ev += 1
                if got.get(k) != pred.get(k) and k.split(" (")[0] not in ("sitofp",):
                    alt = [x for x in got if x.split(" (")[0] == k.split(" (")[0]]
                    v.append(("table:" + k.split(" (")[0], "%s: %s is reported %s times instead of %s (reported: %s)" % (what, k, got.get(k), pred.get(k), alt)))
                    break
            nt |= {"%s t%d l%d" % (o[0][:24], env["NUM_THREADS"], li) for o in ops}
    finally:
        for x in cs:
            x[2].release()
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=ev, stats={"instructions": total}, sample=dict(kind="table"))


CROWD = """__attribute__((noinline)) int f(int x) { return x * 3; }
kernel void crowd(global int *o) { volatile local int l; l = 1; o[get_global_id(0)] = f(l); }"""


def crowd(w, c):
    """many tiny groups finish at the same time on several threads"""
    L = w.L
    r = random.Random(c["seed"])
    v, th = [], r.choice([2, 4, 8, 8, 16])
    X = Ctx(L, {"NUM_THREADS": th, "INST_COUNTS": 1})
    try:
        K = X.kernel(X.program(CROWD, "-cl-opt-disable"), "crowd")
        n = r.choice([2000, 5000])
        o = X.buffer(size=4 * n)
        X.args(K, o)
        for li in range(2):
            m = n - 500 * li
            L.mon.mask()
            cap = Capture(w)
            try:
                X.launch(K, (m,), (1,))
            finally:
                text = cap.end()
            reps, bad = parse(text)
            got = {k: x for x, k in reps[0][1]} if len(reps) == 1 else {}
            exp = {"load local (%d bytes)" % (4 * m): m, "store local (%d bytes)" % (4 * m): m, "store global (%d bytes)" % (4 * m): m, "call f()": m, "call _Z13get_global_idj()": m}
            for k in exp:
                if got.get(k) != exp[k]:
                    v.append(("crowd", "%d groups on %d threads: %s is reported %s times instead of %d; %s %s" % (m, th, k, got.get(k), exp[k], bad or "", sorted(got))))
                    break
    finally:
        X.release()
    return dict(violations=v[:1], nontrivial=["crowd t%d %d" % (th, n)], evals=10, stats={"groups": n}, sample=dict(kind="crowd", threads=th))
