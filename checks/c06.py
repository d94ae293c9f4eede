"""C06: atomics.  Every atomic of a generated workload records the value it returned; an offline checker decides, per
address, whether the recorded history is a linearization of atomic read-modify-writes."""
import random
from collections import defaultdict
import numpy as np
import ocl
from ocl import Ctx, Lib, Local

PROP = "C06"
RULE = ("generated kernels whose work-items perform table-driven atomic operations (all atomic_/atom_ functions, int/uint/long/ulong/float xchg, "
        "global and local) on contended addresses under 1-8 threads with schedule jitter; an offline checker decides per address whether an order "
        "of the recorded operations exists in which each returns the previous value (degree balance, connectivity, and program order where values "
        "are unique); non-trivial = per-address histories with operations from more than one work-item")
ASSUMPTIONS = ["an operation not sampled under contention is covered by the sequential model only"]
CASE_TIMEOUT = 120
OPS = ["add", "sub", "xchg", "inc", "dec", "cmpxchg", "min", "max", "and", "or", "xor"]
PRE = "".join("#pragma OPENCL EXTENSION cl_khr_%s : enable\n" % e for e in (
    "global_int32_base_atomics", "global_int32_extended_atomics", "local_int32_base_atomics", "local_int32_extended_atomics", "int64_base_atomics", "int64_extended_atomics"))


def source(t, sp, fam, addrs):
    """table kernel: per item M rows (op, address, operand, compare)"""
    pre = {"int": "atomic_", "uint": "atomic_"}.get(t, "atom_") if fam == "atomic" else "atom_"
    s = PRE + "%s doop(volatile %s %s *p, uint op, %s x, %s y) {\n  switch (op) {\n" % (t, sp, t, t, t)
    for i, o in enumerate(OPS):
        call = "%s%s(p%s)" % (pre, o, "" if o in ("inc", "dec") else ", y, x" if o == "cmpxchg" else ", x")
        s += "  case %d: return %s;\n" % (i, call)
    s += "  }\n  return 0;\n}\n"
    loc = sp == "local"
    s += "kernel void k(global %s *g, global const uint *op, global const uint *ad, global const %s *x, global const %s *y, global %s *rec, uint M%s) {\n" % (
        t, t, t, t, ", local %s *l" % t if loc else "")
    s += "  size_t i = get_global_id(0);\n"
    if loc:
        s += "  size_t li = get_local_id(0), gr = get_group_id(0);\n  for (uint j = li; j < %d; j += get_local_size(0)) l[j] = g[gr*%d + j];\n  barrier(CLK_LOCAL_MEM_FENCE);\n" % (addrs, addrs)
    s += "  for (uint j = 0; j < M; j++) { size_t r = i*M + j; rec[r] = doop(&%s[ad[r]], op[r], x[r], y[r]); %s }\n" % (
        "l" if loc else "g", "if (j % 3 == 2) barrier(CLK_LOCAL_MEM_FENCE);" if loc else "")
    if loc:
        s += "  barrier(CLK_LOCAL_MEM_FENCE);\n  for (uint j = li; j < %d; j += get_local_size(0)) g[gr*%d + j] = l[j];\n" % (addrs, addrs)
    return s + "}\n"


# contended tight loop: one operation kind, large counts
HOT = PRE + r'''
kernel void hot(volatile global %(t)s *g, global %(t)s *rec, uint M) {
  size_t i = get_global_id(0);
  for (uint j = 0; j < M; j++) rec[i*M + j] = %(call)s;
}
'''
XF = r'''
kernel void xf(volatile global float *g, volatile local float *l, global float *rec, uint M) {
  size_t i = get_global_id(0), li = get_local_id(0);
  if (li == 0) l[0] = -1.0f - get_group_id(0)*1e6f;
  barrier(CLK_LOCAL_MEM_FENCE);
  for (uint j = 0; j < M; j++) { rec[2*(i*M + j)] = atomic_xchg(&g[0], (float)(i*M + j + 1)); rec[2*(i*M+j)+1] = atomic_xchg(&l[0], (float)(i*M + j + 1)); }
  barrier(CLK_LOCAL_MEM_FENCE);
  if (li == 0) rec[2*get_global_size(0)*M + get_group_id(0)] = l[0];
}
'''


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(220 if q else 3000):
        out.append(dict(k="table", t=rng.choice(["int", "uint", "long", "ulong"]), sp=rng.choice(["global", "global", "local"]), fam=rng.choice(["atomic", "atom"]),
                        threads=rng.choice([1, 2, 3, 4, 8]), jitter=rng.choice([0, 0, 2, 8, 24]), seed=rng.randrange(1 << 30)))
    for i in range(60 if q else 900):
        out.append(dict(k="hot", t=rng.choice(["int", "uint", "long", "ulong"]), op=OPS[i % len(OPS)], threads=rng.choice([4, 8, 8]), jitter=0, seed=rng.randrange(1 << 30)))
    for i in range(6 if q else 60):
        out.append(dict(k="float", threads=rng.choice([1, 8]), jitter=rng.choice([0, 8]), seed=rng.randrange(1 << 30)))
    rng.shuffle(out)
    return out


def setup_worker(env):
    return Lib(env["build"])


def apply(op, old, x, y, t):
    b = 64 if "long" in t else 32
    m = (1 << b) - 1
    s = (lambda v: v - (1 << b) if v >> (b - 1) and t[0] != "u" else v)
    return {"add": old + x, "sub": old - x, "xchg": x, "inc": old + 1, "dec": old - 1, "cmpxchg": x if old == y else old,
            "min": old if s(old) < s(x) else x, "max": old if s(old) > s(x) else x, "and": old & x, "or": old | x, "xor": old ^ x}[op] & m


def check_history(init, final, hist, t):
    """hist: list of (item, seq, op, x, y, old); -> None or a contradiction"""
    out, inn, adj = defaultdict(int), defaultdict(int), defaultdict(set)
    parent = {}

    def find(a):
        parent.setdefault(a, a)
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    byval = defaultdict(list)
    for h in hist:
        new = apply(h[2], h[5], h[3], h[4], t)
        out[h[5]] += 1
        inn[new] += 1
        a, b = find(h[5]), find(new)
        if a != b:
            parent[a] = b
        byval[h[5]].append((h, new))
    for v in set(out) | set(inn) | {init, final}:
        d = out[v] - inn[v]
        want = (v == init) - (v == final)
        if d != want:
            return "value %#x was returned %d times but produced %d times (initial %#x, final %#x)" % (v, out[v], inn[v] + (v == init), init, final)
    if len({find(v) for v in list(out) + [init]}) > 1:
        return "some operations returned values no operation on this address produced"
    # every value returned once: the order is unique and must respect each work-item's program order
    if all(n <= 1 for n in out.values()):
        cur, last = init, {}
        for _ in range(len(hist)):
            h, new = byval[cur][0]
            if last.get(h[0], -1) > h[1]:
                return "operations of work-item %d took effect out of program order" % h[0]
            last[h[0]] = h[1]
            cur = new
    return None


def run_table(X, L, c, v, nt, stats):
    r = random.Random(c["seed"])
    t, sp = c["t"], c["sp"]
    b = 64 if "long" in t else 32
    dt = "<u%d" % (b // 8)
    groups, ls, M, K = r.choice([1, 2, 4, 8]), r.choice([1, 2, 4, 7, 8]), r.choice([3, 9, 24]), r.choice([1, 2, 4])
    n = groups * ls
    prog = X.program(source(t, sp, c["fam"], K), r.choice(["", "-cl-opt-disable"]))
    k = X.kernel(prog, "k")
    m = (1 << b) - 1
    fam = r.choice(["mixed", "mixed", "arith", "minmax", "bits", "xchg", "cas"])
    ops = {"mixed": OPS, "arith": ["add", "sub", "inc", "dec"], "minmax": ["min", "max"], "bits": ["and", "or", "xor"], "xchg": ["xchg"], "cas": ["cmpxchg", "xchg", "inc"]}[fam]
    N = n * M
    op = np.array([OPS.index(r.choice(ops)) for _ in range(N)], np.uint32)
    ad = np.array([r.randrange(K) for _ in range(N)], np.uint32)

    def val():
        return r.choice([r.getrandbits(b), r.randrange(8), (1 << (b - 1)) + r.randrange(-4, 4), m - r.randrange(8)]) & m
    narrow = r.random() < .4
    x = np.array([r.randrange(4) if narrow else val() for _ in range(N)], dt)
    y = np.array([r.randrange(4) if narrow or r.random() < .4 else int(x[r.randrange(N)]) for _ in range(N)], dt)
    ng = groups if sp == "local" else 1
    init = np.array([r.randrange(4) if narrow else val() for _ in range(K * ng)], dt)
    pad = 8
    full = np.concatenate([init, np.full(pad, 0xA5, dt)])
    g, rec = X.buffer(full), X.buffer(np.zeros(N, dt))
    X.args(k, g, X.buffer(op), X.buffer(ad), X.buffer(x), X.buffer(y), rec, np.uint32(M), *([Local(K * b // 8)] if sp == "local" else []))
    L.mon.mask("log", "wgbegin", "aload", "astore")
    L.mon.clear()
    X.launch(k, [n], [ls])
    R = L.mon.recs()
    logs = [q for ty, q in L.mon.logs(R) if ty >= 2]
    if logs:
        v.append(("log", "atomic workload reported: %s" % logs[0][:300]))
    fin = X.read(g, len(full) * b // 8).view(dt)
    old = X.read(rec, N * b // 8).view(dt)
    if (fin[len(init):] != 0xA5).any():
        v.append(("neighbour", "%s %s atomics changed memory beside their operand" % (t, sp)))
    H = defaultdict(list)
    for i in range(N):
        it = i // M
        a = int(ad[i]) + (it // ls * K if sp == "local" else 0)
        H[a].append((it, i % M, OPS[op[i]], int(x[i]), int(y[i]), int(old[i])))
    for a, h in H.items():
        e = check_history(int(init[a]), int(fin[a]), h, t)
        if e:
            v.append(("history:%s:%s:%s" % (t, sp, "seq" if c["threads"] == 1 else "mt"), "%s %s family %s, %d threads, %d work-items: %s" % (t, sp, fam, c["threads"], len({q[0] for q in h}), e)))
        if len({q[0] for q in h}) > 1:
            nt.append("%s %s %s %d %d" % (t, sp, fam, c["seed"], a))
    for a in range(len(init)):
        if a not in H and fin[a] != init[a]:
            v.append(("untouched", "address without operations changed"))
    ntid = len(set(R["tid"][R["kind"] == ocl.KINDS.index("wgbegin")]))
    stats["operations"] += N
    stats["histories"] += len(H)
    stats["multithreaded_runs"] += ntid > 1
    A = R[R["kind"] == ocl.KINDS.index("aload")]["tid"]
    stats["thread_switches"] += int((A[1:] != A[:-1]).sum())
    return N


def run_hot(X, L, c, v, nt, stats):
    r = random.Random(c["seed"])
    t, o = c["t"], c["op"]
    b = 64 if "long" in t else 32
    dt = "<u%d" % (b // 8)
    m = (1 << b) - 1
    pre = "atom_" if b == 64 else r.choice(["atom_", "atomic_"])
    n, M = 16, 600
    ab = "i*M + j + 1"
    x, y = {"add": ("3", 0), "sub": ("5", 0), "xchg": ("(%s)(%s)" % (t, ab), 0), "inc": (None, 0), "dec": (None, 0),
            "cmpxchg": ("(%s)(%s)" % (t, ab), "rec[i*M+j-(j>0)]"), "min": ("(%s)(100000 - (%s))" % (t, ab), 0), "max": ("(%s)(%s)" % (t, ab), 0),
            "and": ("(%s)~((%s)1 << ((%s) %% %d))" % (t, t, ab, b), 0), "or": ("((%s)1 << ((%s) %% %d))" % (t, ab, b), 0), "xor": ("(%s)(%s)" % (t, ab), 0)}[o]
    call = "%s%s(g%s)" % (pre, o, "" if x is None else ", %s, %s" % (y, x) if o == "cmpxchg" else ", " + x)
    k = X.kernel(X.program(HOT % dict(t=t, call=call), "-cl-opt-disable" if r.random() < .3 else ""), "hot")
    init = {"min": 1 << 20, "and": m}.get(o, 0)
    g, rec = X.buffer(np.array([init, 0xA5], dt)), X.buffer(np.zeros(n * M, dt))
    X.args(k, g, rec, np.uint32(M))
    L.mon.mask("log", "wgbegin")
    L.mon.clear()
    X.launch(k, [n], [1])
    R = L.mon.recs()
    if [q for ty, q in L.mon.logs(R) if ty >= 2]:
        v.append(("log", "atomic workload reported"))
    fin = X.read(g, 2 * b // 8).view(dt)
    old = X.read(rec, n * M * b // 8).view(dt)
    h = []
    for i in range(n):
        for j in range(M):
            q = i * M + j + 1
            xv = {"add": 3, "sub": 5, "xchg": q, "inc": 0, "dec": 0, "cmpxchg": q, "min": 100000 - q, "max": q, "and": m & ~(1 << (q % b)), "or": 1 << (q % b), "xor": q}[o]
            yv = (int(old[i * M + j - 1]) if j else 0) if o == "cmpxchg" else 0   # the record slot still holds 0 before the first operation
            h.append((i, j, o, xv, yv, int(old[i * M + j])))
    e = check_history(init, int(fin[0]), h, t)
    if e:
        v.append(("history:%s:hot:%s" % (t, o), "%s%s on one %s by %d work-items, %d threads: %s" % (pre, o, t, n, c["threads"], e)))
    if fin[1] != 0xA5:
        v.append(("neighbour", "atomics changed memory beside their operand"))
    stats["operations"] += n * M
    stats["histories"] += 1
    tids = R["tid"][R["kind"] == ocl.KINDS.index("wgbegin")]
    stats["multithreaded_runs"] += len(set(tids)) > 1
    # how interleaved was it?  changes of work-item along the value order are visible for add-like operations
    if o in ("add", "inc", "sub", "dec"):
        order = sorted(h, key=lambda q: (q[5] if o in ("add", "inc") else (-q[5]) & m))
        stats["item_switches_observed"] += sum(order[i][0] != order[i - 1][0] for i in range(1, len(order)))
    nt.append("hot %s %s %d" % (t, o, c["seed"]))
    return n * M


def run_float(X, L, c, v, nt, stats):
    n, ls, M = 16, 4, 40
    k = X.kernel(X.program(XF), "xf")
    g, rec = X.buffer(np.array([-5], np.float32)), X.buffer(np.zeros(2 * n * M + n // ls, np.float32))
    X.args(k, g, Local(4), rec, np.uint32(M))
    L.mon.mask("log")
    L.mon.clear()
    X.launch(k, [n], [ls])
    f = X.read(rec, (2 * n * M + n // ls) * 4).view(np.float32)
    G = X.read(g, 4).view(np.float32)[0]
    seen = sorted([float(q) for q in f[0:2 * n * M:2]] + [float(G)])
    if seen != sorted([-5.0] + [float(i + 1) for i in range(n * M)]):
        v.append(("history:float:global", "atomic_xchg(float): a value was lost or duplicated"))
    loc = f[1:2 * n * M:2].reshape(n // ls, ls * M)
    for q in range(n // ls):
        seen = sorted([float(z) for z in loc[q]] + [float(f[2 * n * M + q])])
        if seen != sorted([float(np.float32(-1 - np.float32(q) * np.float32(1e6)))] + [float(i + 1) for i in range(q * ls * M, (q + 1) * ls * M)]):
            v.append(("history:float:local", "local atomic_xchg(float): a value was lost or duplicated"))
            break
    stats["operations"] += 2 * n * M
    nt.append("float %d" % c["seed"])
    return 2 * n * M


def run_case(L, c):
    v, nt = [], []
    stats = defaultdict(int)
    L.mon.jitter(c["jitter"], c["seed"])
    X = Ctx(L, {"NUM_THREADS": c["threads"]})
    try:
        n = dict(table=run_table, hot=run_hot, float=run_float)[c["k"]](X, L, c, v, nt, stats)
        return dict(violations=v, nontrivial=nt, evals=n, stats=dict(stats), sample=c)
    finally:
        X.release()
        L.mon.jitter(0)
