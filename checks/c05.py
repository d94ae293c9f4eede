"""C05: barriers and asynchronous copies.  Oracle: a lock-step interpreter of generated barrier-structured kernels (values), the
group-barrier events seen by the monitor, byte models of asynchronous copies, and the expected set of divergence diagnostics."""
import math, random, re
from collections import Counter, defaultdict
import numpy as np
import ocl
from ocl import Ctx, Lib, Local, unpack3

PROP = "C05"
RULE = ("generated kernels: (a) barrier-structured communication through local and global memory with loops, uniform branches and helper functions, "
        "values predicted by a lock-step interpreter and barrier events counted; (b) asynchronous copies of every element type, strided or not, with "
        "shared/chained events, bytes predicted exactly; (c) divergence of every kind, whose reports must name exactly the divergent groups; "
        "non-trivial = distinct kernels with more than one work-item per group")
ASSUMPTIONS = ["groups are laid out row-major in the record buffers", "the text of a divergence report is judged by kind, kernel, work-group and counts only"]
CASE_TIMEOUT = 120
M32 = 0xFFFFFFFF


def cases(rng, tier):
    q = tier == "quick"
    out = [dict(k="struct", seed=rng.randrange(1 << 30)) for _ in range(260 if q else 4000)]
    out += [dict(k="async", seed=rng.randrange(1 << 30)) for _ in range(260 if q else 4000)]
    out += [dict(k="div", which=w, seed=rng.randrange(1 << 30)) for w in DIV for _ in range(16 if q else 150)]
    rng.shuffle(out)
    return out


def setup_worker(env):
    return Lib(env["build"])


# ---------------------------------------------------------------- structured kernels
class Gen:
    def __init__(self, r, n):
        self.r, self.n = r, n                # n: size of the arrays (>= largest group)
        self.helpers = []
        self.std2 = False

    def perm(self):
        a = self.r.choice([x for x in range(1, 8)])
        return a, self.r.randrange(self.n)

    def fence(self, arr=None):
        r = self.r
        need = {"G": "CLK_GLOBAL_MEM_FENCE"}.get(arr, "CLK_LOCAL_MEM_FENCE")
        return r.choice(["CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE", need]) if arr else "CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE"

    def block(self, depth, state):
        """state: array -> 'clean' | 'r' | 'w' since the last barrier"""
        out = []
        r = self.r
        for _ in range(r.randint(1, 4 if depth else 6)):
            k = r.random()
            if k < .42:
                a = r.choice("ABG")
                if state[a] != "clean":
                    out.append(("bar", self.fence()))
                    for x in state:
                        state[x] = "clean"
                out.append(("w", a, r.randrange(self.n), r.randrange(1, 1000)))
                state[a] = "w"
            elif k < .80:
                a = r.choice("ABG")
                if state[a] == "w":
                    out.append(("bar", self.fence()))
                    for x in state:
                        state[x] = "clean"
                out.append(("r", a, r.randrange(1, 9), r.randrange(self.n), r.choice([1, 1, 2])))
                state[a] = "r"
            elif k < .87 and depth < 2:
                out.append(("bar", self.fence()))
                b = self.block(depth + 1, {x: "clean" for x in "ABG"})
                b.append(("bar", self.fence()))
                kind = r.choice(["const", "arg", "group"])
                out.append(("loop", kind, r.randint(1, 3), b))
                out.append(("bar", self.fence()))
                state.update({x: "clean" for x in "ABG"})
            elif k < .94 and depth < 2:
                out.append(("bar", self.fence()))
                b = self.block(depth + 1, {x: "clean" for x in "ABG"}) + [("bar", self.fence())]
                e = self.block(depth + 1, {x: "clean" for x in "ABG"}) + [("bar", self.fence())] if r.random() < .5 else []
                out.append(("if", r.choice(["group", "arg"]), r.randint(2, 3), b, e))
                state.update({x: "clean" for x in "ABG"})
            elif k < .98 and depth < 2:
                out.append(("bar", self.fence()))
                b = self.block(depth + 1, {x: "clean" for x in "ABG"}) + [("bar", self.fence())]
                out.append(("call", b))
                state.update({x: "clean" for x in "ABG"})
            else:
                out.append(("mem_fence",))
        return out

    def emit(self, body, ind=1, v="i"):
        s = ""
        pad = "  " * ind
        for st in body:
            if st[0] == "bar":
                f = "work_group_barrier" if self.std2 and self.r.random() < .5 else "barrier"
                s += pad + "%s(%s);\n" % (f, st[1])
            elif st[0] == "mem_fence":
                s += pad + self.r.choice(["mem_fence", "read_mem_fence", "write_mem_fence"]) + "(CLK_LOCAL_MEM_FENCE);\n"
            elif st[0] == "w":
                s += pad + "%s[(lid + %d) %% n] = acc * 7 + %d + lid;\n" % (st[1], st[2], st[3])
            elif st[0] == "r":
                s += pad + "acc = acc * 31 + %s[(lid * %d + %d) %% n]%s;\n" % (st[1], st[2], st[3], " + %s[n - 1 - lid]" % st[1] if st[4] == 2 else "")
            elif st[0] == "loop":
                v = "j%d" % ind
                s += pad + "for (uint %s = 0; %s < %s; %s++) {\n" % (v, v, {"const": "%d" % st[2], "arg": "arg %% 3 + %d" % (st[2] - 1), "group": "gid %% 3 + %d" % (st[2] - 1)}[st[1]], v)
                s += self.emit(st[3], ind + 1) + pad + "}\n"
            elif st[0] == "if":
                s += pad + "if (%s %% %d == 0) {\n%s%s}" % ("gid" if st[1] == "group" else "arg", st[2], self.emit(st[3], ind + 1), pad)
                s += " else {\n%s%s}\n" % (self.emit(st[4], ind + 1), pad) if st[4] else "\n"
            elif st[0] == "call":
                h = "h%d" % len(self.helpers)
                self.helpers.append(None)
                i = len(self.helpers) - 1
                self.helpers[i] = "%svoid %s(local uint *A, local uint *B, global uint *G, uint lid, uint gid, uint n, uint arg, private uint *pacc) {\n  uint acc = *pacc;\n%s  *pacc = acc;\n}\n" % (
                    self.r.choice(["", "__attribute__((noinline)) "]), h, self.emit(st[1], 1))
                s += pad + "%s(A, B, G, lid, gid, n, arg, &acc);\n" % h
        return s


class Interp:
    """all work-items of one group in lock step"""

    def __init__(self, n, size, gid, arg, init):
        self.n, self.gid, self.arg = n, gid, arg
        self.lid = np.arange(size, dtype=np.uint64)
        self.acc = ((self.lid * 3 + gid + 1) & M32).astype(np.uint64)
        self.m = {"A": init[0].astype(np.uint64), "B": init[1].astype(np.uint64), "G": init[2].astype(np.uint64)}
        self.bars = 0

    def run(self, body):
        for st in body:
            if st[0] == "bar":
                self.bars += 1
            elif st[0] == "w":
                self.m[st[1]][(self.lid + st[2]) % self.n] = (self.acc * 7 + st[3] + self.lid) & M32
            elif st[0] == "r":
                a = self.m[st[1]]
                x = self.acc * 31 + a[(self.lid * st[2] + st[3]) % self.n]
                if st[4] == 2:
                    x = x + a[self.n - 1 - self.lid.astype(np.int64)]
                self.acc = x & M32
            elif st[0] == "loop":
                for _ in range({"const": st[2], "arg": self.arg % 3 + st[2] - 1, "group": self.gid % 3 + st[2] - 1}[st[1]]):
                    self.run(st[3])
            elif st[0] == "if":
                self.run(st[3] if (self.gid if st[1] == "group" else self.arg) % st[2] == 0 else st[4])
            elif st[0] == "call":
                self.run(st[1])


def geometry(r, allow_nu):
    dim = r.choice([1, 1, 2, 3])
    while True:
        l = [r.choice([1, 2, 3, 4, 5, 8]) for _ in range(dim)]
        ng = [r.choice([1, 1, 2, 3]) for _ in range(dim)]
        if 1 < np.prod(l) <= 40 and np.prod(ng) <= 9:
            break
    g = [a * b for a, b in zip(l, ng)]
    if allow_nu:
        g = [max(1, x - r.choice([0, 0, 1, 2]) % y) for x, y in zip(g, l)]
        ng = [-(-x // y) for x, y in zip(g, l)]
    off = [r.choice([0, 0, 3]) for _ in range(dim)]
    groups = []
    f = lambda v, d: v[d] if d < dim else 1
    for z in range(f(ng, 2)):
        for y in range(f(ng, 1)):
            for x in range(f(ng, 0)):
                p = (x, y, z)
                groups.append((p, tuple(min(f(l, d), f(g, d) - p[d] * f(l, d)) for d in range(3))))
    return g, l, off, groups


LID = """  uint lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));
  uint gid = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2));
  uint lsz = get_local_size(0) * get_local_size(1) * get_local_size(2);
"""


def run_struct(X, L, r, v, nt, stats):
    std2 = r.random() < .3
    g, l, off, groups = geometry(r, std2 and r.random() < .6)
    n = int(np.prod(l)) + r.choice([0, 0, 1, 5])
    G = Gen(r, n)
    G.std2 = std2
    body = G.block(0, {x: "clean" for x in "ABG"})
    body.append(("bar", G.fence()))
    arg = r.randrange(6)
    # identical permutations are only injective for stride 1 writes: writes use (lid + c) % n
    src = "kernel void k(local uint *B, global uint *GG, global uint *out, uint n, uint arg) {\n  local uint A[%d];\n" % n + LID
    src += "  global uint *G = GG + gid * n;\n  uint acc = lid * 3 + gid + 1;\n"
    src += "  for (uint q = lid; q < n; q += lsz) { A[q] = q * 5 + 1; B[q] = q * 9 + 2; }\n  barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n"
    main = G.emit(body)
    src = "".join(reversed([h for h in G.helpers])) + src + main
    src += "  barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n  global uint *o = out + gid * (3*n);\n  for (uint q = lid; q < n; q += lsz) { o[n + q] = A[q]; o[2*n + q] = B[q]; }\n  o[lid] = acc;\n}\n"
    opts = r.choice(["", "-cl-opt-disable"]) + (" -cl-std=CL2.0" if std2 else "")
    prog = X.program(src, opts)
    k = X.kernel(prog, "k")
    ng = len(groups)
    ginit = np.arange(ng * n, dtype=np.uint32) * 11 + 7
    gb, ob = X.buffer(ginit), X.buffer(np.full(ng * 3 * n, 0xDEAD, np.uint32))
    X.args(k, Local(n * 4), gb, ob, np.uint32(n), np.uint32(arg))
    L.mon.mask("log", "barrier", "load", "store")
    L.mon.clear()
    X.launch(k, g, l, off)
    R = L.mon.recs()
    logs = [m for t, m in L.mon.logs(R) if t >= 2]
    if logs:
        v.append(("report:false", "well-synchronised kernel reported: %s\n%s" % (logs[0][:400], src)))
    O = X.read(ob, ng * 3 * n * 4).view(np.uint32).reshape(ng, 3, n)
    GO = X.read(gb, ng * n * 4).view(np.uint32).reshape(ng, n)
    q = np.arange(n)
    B = Counter(unpack3(x) for x in R["wg"][R["kind"] == ocl.KINDS.index("barrier")])
    for gi, (p, size) in enumerate(groups):
        sz = int(np.prod(size))
        I = Interp(n, sz, gi, arg, (q * 5 + 1, q * 9 + 2, ginit[gi * n:(gi + 1) * n].copy()))
        I.run(body)
        if O[gi, 0, :sz].tolist() != I.acc.tolist() or (O[gi, 0, sz:] != 0xDEAD).any():
            v.append(("values:acc", "group %s: work-items read %s, lock-step execution gives %s\n%s" % (p, O[gi, 0, :sz].tolist()[:8], I.acc.tolist()[:8], src)))
            break
        if O[gi, 1].tolist() != I.m["A"].tolist() or O[gi, 2].tolist() != I.m["B"].tolist() or GO[gi].tolist() != I.m["G"].tolist():
            v.append(("values:memory", "group %s: final memory differs from the lock-step execution\n%s" % (p, src)))
            break
        # the compiler may not remove or add barriers
        if B[p] != I.bars + 2:
            v.append(("barriers:count", "group %s passed %d barriers, the kernel executes %d" % (p, B[p], I.bars + 2)))
            break
        stats["barriers"] += I.bars + 2
    # per group: between two barrier events every access of the group belongs to the current episode -- count accesses per work-item per episode
    stats["accesses"] += int(np.isin(R["kind"], [ocl.KINDS.index("load"), ocl.KINDS.index("store")]).sum())
    stats["groups"] += ng
    nt.append(str(hash(src)))
    return ng


# ---------------------------------------------------------------- asynchronous copies
SC = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "float": 4, "double": 8}


def run_async(X, L, r, v, nt, stats):
    g, l, off, groups = geometry(r, False)
    ng = len(groups)
    lsz = int(np.prod(l))
    es0 = r.choice(sorted(SC))
    w = r.choice([1, 1, 2, 3, 4, 8, 16])
    ty = es0 + (str(w) if w > 1 else "")
    es = SC[es0] * (4 if w == 3 else w)
    NL, NG = 24, 30                       # elements of local memory / of each group's global slice
    ncop = r.randint(1, 4)
    trips = r.choice([1, 1, 2, 3])
    src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n"
    src += "kernel void k(global %s *GG, local uchar *lb, global uchar *out) {\n  local %s *l = (local %s*)lb;\n" % (ty, ty, ty) + LID
    src += "  global %s *g = GG + gid * %d;\n  for (uint q = lid; q < %d; q += lsz) lb[q] = (uchar)(q * 7 + gid);\n  barrier(CLK_LOCAL_MEM_FENCE);\n" % (ty, NG, NL * es)
    steps = []
    for t in range(trips if False else 1):
        pass
    ev = r.choice(["array", "chain", "each", "mixed"])
    src += "  for (uint t = 0; t < %d; t++) {\n    event_t e[%d];\n" % (trips, ncop)
    lsrc = set()
    ldst, gsrc, gdst = set(), set(), set()
    emitted = 0
    for _ in range(20):
        if emitted == ncop:
            break
        tol = r.random() < .5
        stride = r.choice([1, 1, 2, 3])
        num = r.randint(0 if r.random() < .1 else 1, 9)
        lo = r.randrange(NL - num + 1)
        span = max(0, (num - 1) * stride + 1) if num else 0
        go = r.randrange(NG - span - trips + 1)
        ls_, gs_ = set(range(lo, lo + num)), set()
        for t in range(trips):
            gs_ |= {go + t + i * stride for i in range(num)}
        # copies of one wait must not overlap conflictingly
        if tol:
            if ls_ & (lsrc | ldst) or gs_ & gdst:
                continue
            ldst |= ls_
            gsrc |= gs_
        else:
            if ls_ & ldst or gs_ & (gsrc | gdst):
                continue
            lsrc |= ls_
            gdst |= gs_
        strided = stride != 1 or r.random() < .3
        e0 = "0" if emitted == 0 or ev in ("array", "each") or (ev == "mixed" and r.random() < .5) else "e[%d]" % (emitted - 1)
        a, b = ("l + %d" % lo, "g + %d + t" % go) if tol else ("g + %d + t" % go, "l + %d" % lo)
        q = "global" if tol else "local"
        src += "    e[%d] = async_work_group_%s(%s, (const %s %s*)(%s), %d%s, %s);\n" % (
            emitted, "strided_copy" if strided else "copy", a, q, ty, b, num, ", %d" % stride if strided else "", e0)
        steps.append((tol, lo, go, num, stride, e0))
        emitted += 1
    if not emitted:
        return 0
    if r.random() < .25:
        src += "    barrier(CLK_LOCAL_MEM_FENCE);\n"
    # every distinct event must be waited on once
    heads = [i for i, s in enumerate(steps) if s[5] == "0"]
    if len(heads) == emitted:
        if ev == "each" or r.random() < .3:
            order = list(range(emitted))
            r.shuffle(order)
            src += "".join("    wait_group_events(1, &e[%d]);\n" % i for i in order)
        else:
            src += "    wait_group_events(%d, e);\n" % emitted
    else:
        src += "    event_t w[%d];\n" % len(heads) + "".join("    w[%d] = e[%d];\n" % (i, h) for i, h in enumerate(heads)) + "    wait_group_events(%d, w);\n" % len(heads)
    src += "    barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n  }\n"
    src += "  for (uint q = lid; q < %d; q += lsz) out[gid * %d + q] = lb[q];\n}\n" % (NL * es, NL * es)
    k = X.kernel(X.program(src, r.choice(["", "-cl-opt-disable"])), "k")
    gd = np.frombuffer(r.randbytes(ng * NG * es), np.uint8).copy()
    gb, ob, guard = X.buffer(gd), X.buffer(np.zeros(ng * NL * es, np.uint8)), X.buffer(np.full(64, 0x5A, np.uint8))
    X.args(k, gb, Local(NL * es), ob)
    L.mon.mask("log", "gload", "gstore", "barrier")
    L.mon.clear()
    X.launch(k, g, l, off)
    R = L.mon.recs()
    logs = [m for t, m in L.mon.logs(R) if t >= 2]
    if logs:
        v.append(("report:async-false", "valid asynchronous copies reported: %s\n%s" % (logs[0][:400], src)))
    GO = X.read(gb, len(gd)).reshape(ng, NG, es)
    LO = X.read(ob, ng * NL * es).reshape(ng, NL, es)
    gi0 = gd.reshape(ng, NG, es)
    for gi in range(ng):
        G = gi0[gi].copy()
        Lm = ((np.arange(NL * es) * 7 + gi) & 255).astype(np.uint8).reshape(NL, es)
        for t in range(trips):
            G1, L1 = G.copy(), Lm.copy()
            for tol, lo, go, num, stride, _ in steps:
                for i in range(num):
                    if tol:
                        L1[lo + i] = G[go + t + i * stride]
                    else:
                        G1[go + t + i * stride] = Lm[lo + i]
            G, Lm = G1, L1
        if not np.array_equal(G, GO[gi]) or not np.array_equal(Lm, LO[gi]):
            which = "global" if not np.array_equal(G, GO[gi]) else "local"
            v.append(("async:values:%s" % which, "group %d: %s memory differs from the specified copies (%s)\n%s" % (gi, which, ty, src)))
            break
    if (X.read(guard, 64) != 0x5A).any():
        v.append(("async:guard", "another buffer changed"))
    stats["async_elements"] += int((R["kind"] == ocl.KINDS.index("gstore")).sum())
    stats["async_copies"] += len(steps) * trips * ng
    nt.append("async " + str(hash(src)))
    return ng


# ---------------------------------------------------------------- divergence
# name: (kernel body using D = "this work-item diverges in this group", expected kind(s))
DIV = {
    "if": ("if (!D) { o[i] = 1; barrier(CLK_LOCAL_MEM_FENCE); }", ["barrier"]),
    "return": ("if (D) return; barrier(CLK_GLOBAL_MEM_FENCE); o[i] = 1;", ["barrier"]),
    "two": ("if (D) { o[i] = 5; barrier(CLK_LOCAL_MEM_FENCE); } else { barrier(CLK_LOCAL_MEM_FENCE); o[i] = 1; }", ["barrier"]),
    "fence": ("if (D) { o[i] = 5; barrier(CLK_LOCAL_MEM_FENCE); } else { o[i] = 1; barrier(CLK_GLOBAL_MEM_FENCE); }", ["barrier"]),
    "fencevar": ("o[i] = 1; barrier(D ? CLK_LOCAL_MEM_FENCE : CLK_GLOBAL_MEM_FENCE);", ["barrier"]),
    "loop": ("for (uint q = 0; q < (D ? 1 : 3); q++) { o[i] = q; barrier(CLK_LOCAL_MEM_FENCE); }", ["barrier"]),
    "asyncif": ("event_t e = 0; if (!D) e = async_work_group_copy(l, (const global uint*)g, 4, 0); barrier(CLK_LOCAL_MEM_FENCE); if (!D) wait_group_events(1, &e);", ["async copy", "barrier"]),
    "asyncdest": ("event_t e = async_work_group_copy(l + (D ? 4 : 0), (const global uint*)g, 4, 0); wait_group_events(1, &e); o[i] = 1;", ["async copy"]),
    "asyncsrc": ("event_t e = async_work_group_copy(l, (const global uint*)g + (D ? 4 : 0), 4, 0); wait_group_events(1, &e); o[i] = 1;", ["async copy"]),
    "asyncnum": ("event_t e = async_work_group_copy(l, (const global uint*)g, D ? 3 : 4, 0); wait_group_events(1, &e); o[i] = 1;", ["async copy"]),
    "asyncstride": ("event_t e = async_work_group_strided_copy(l, (const global uint*)g, 4, D ? 2 : 1, 0); wait_group_events(1, &e); o[i] = 1;", ["async copy"]),
    "asyncout": ("event_t e = async_work_group_copy(g + 40 * gid + (D ? 4 : 0), (const local uint*)l, 4, 0); wait_group_events(1, &e); o[i] = 1;", ["async copy"]),
    "events": ("event_t e[2]; e[0] = async_work_group_copy(l, (const global uint*)g, 4, 0); e[1] = async_work_group_copy(l + 4, (const global uint*)g, 4, 0);"
               " event_t f[2]; f[0] = e[D ? 1 : 0]; f[1] = e[D ? 0 : 1]; wait_group_events(2, f); o[i] = 1;", ["barrier"]),
    "nevents": ("event_t e[2]; e[0] = async_work_group_copy(l, (const global uint*)g, 4, 0); e[1] = async_work_group_copy(l + 4, (const global uint*)g, 4, 0);"
                " wait_group_events(D ? 1 : 2, e); o[i] = 1;", ["barrier"]),
    "waitif": ("event_t e = async_work_group_copy(l, (const global uint*)g, 4, 0); if (!D) { wait_group_events(1, &e); o[i] = 1; }", ["barrier"]),
    "nowait": ("event_t e = async_work_group_copy(l, (const global uint*)g, 4, 0); if (gid %% 2 != PAR) wait_group_events(1, &e); o[i] = 1;", ["finished"]),
    "badevent": ("event_t e = async_work_group_copy(l, (const global uint*)g, 4, 0); wait_group_events(1, &e); if (gid %% 2 == PAR) { size_t z = 77; wait_group_events(1, (event_t*)&z); } o[i] = 1;", ["invalid"]),
}


def run_div(X, L, which, r, v, nt, stats):
    while True:
        g, l, off, groups = geometry(r, False)
        if np.prod(l) >= 2:
            break
    lsz = int(np.prod(l))
    par = r.randrange(2)
    lim = r.randrange(1, lsz)               # work-items that diverge: lid < lim or lid >= lsz - lim
    low = r.random() < .5
    cond = "(gid %% 2 == PAR && %s)" % ("lid < %d" % lim if low else "lid >= %d" % (lsz - lim))
    body, kinds = DIV[which]
    src = "#define PAR %d\n#define D %s\n" % (par, cond.replace("%%", "%"))
    src += "kernel void divk(global uint *g, local uint *l, global uint *o) {\n" + LID
    src += "  size_t i = gid * lsz + lid;\n  l[lid % 8] = 0;\n  " + body.replace("%%", "%") + "\n}\n"
    X.L  # (library)
    ng = len(groups)
    k = X.kernel(X.program(src, r.choice(["-cl-opt-disable", ""]) if which not in ("two", "fence") else "-cl-opt-disable"), "divk")
    gb, ob, guard = X.buffer(np.zeros(40 * (ng + 1), np.uint32)), X.buffer(np.zeros(ng * lsz, np.uint32)), X.buffer(np.full(64, 0x5A, np.uint8))
    X.args(k, gb, Local(64), ob)
    L.mon.mask("log", "wiend", "wgend")
    L.mon.clear()
    X.launch(k, g, l, off)
    R = L.mon.recs()
    logs = [m for t, m in L.mon.logs(R) if t >= 2]
    want = {p for i, (p, s) in enumerate(groups) if i % 2 == par}
    got = defaultdict(list)
    for m in logs:
        for kk, rx in (("barrier", r"divergence detected \(barrier\)"), ("async copy", r"divergence detected \(async copy\)"), ("finished", r"finished without waiting"), ("invalid", r"Invalid wait event")):
            if re.search(rx, m):
                wg = re.search(r"[Ww]ork-group: *\((\d+),(\d+),(\d+)\)", m) or re.search(r"Group\((\d+),(\d+),(\d+)\)", m)
                got[kk].append(tuple(map(int, wg.groups())) if wg else None)
                if "Kernel:" in m and "divk" not in m:
                    v.append(("report:kernel", "divergence report names another kernel: %s" % m[:300]))
                o = re.search(r"Only (\d+) out of (\d+) work-items executed (barrier|copy)", m)
                if o and (int(o.group(2)) != lsz or int(o.group(1)) not in (lim, lsz - lim)):
                    v.append(("report:count", "%s: %s; %d of %d work-items diverge" % (which, o.group(0), lim, lsz)))
                break
        else:
            if not re.search("race", m):
                v.append(("report:other", "%s: unexpected report %s\n%s" % (which, m[:300], src)))
    for kk in kinds:
        rep = {x for x in got[kk] if x}
        if want and not got[kk]:
            v.append(("report:missed:%s" % which, "%s divergence not reported (%s)\n%s" % (which, kk, src)))
        elif rep and rep != want or (None not in got[kk] and rep != want):
            v.append(("report:groups:%s" % which, "%s: groups reported %s, divergent %s\n%s" % (which, sorted(rep), sorted(want), src)))
    for kk in got:
        if kk not in kinds and got[kk]:
            extra = {x for x in got[kk] if x}
            if extra - want:
                v.append(("report:false:%s" % which, "%s: groups %s wrongly reported for %s" % (which, sorted(extra - want), kk)))
    # the simulation continues: every work-item completes
    n = int((R["kind"] == ocl.KINDS.index("wiend")).sum())
    if n != ng * lsz:
        v.append(("continue:%s" % which, "%d of %d work-items completed after the divergence\n%s" % (n, ng * lsz, src)))
    if (X.read(guard, 64) != 0x5A).any():
        v.append(("guard", "another buffer changed"))
    stats["divergent_groups"] += len(want)
    stats["reports"] += len(logs)
    nt.append("%s %s %s %s" % (which, tuple(l), lim, len(groups)))
    return ng


def run_case(L, c):
    r = random.Random(c["seed"])
    v, nt, stats = [], [], defaultdict(int)
    th = r.choice([1, 1, 2, 4, 8])
    L.mon.jitter(r.choice([0, 0, 4, 16]) if th > 1 else 0, c["seed"])
    X = Ctx(L, {"NUM_THREADS": th})
    try:
        n = run_struct(X, L, r, v, nt, stats) if c["k"] == "struct" else run_async(X, L, r, v, nt, stats) if c["k"] == "async" else run_div(X, L, c["which"], r, v, nt, stats)
        return dict(violations=v, nontrivial=nt, evals=n, stats=dict(stats), sample=c)
    finally:
        X.release()
        L.mon.jitter(0)
