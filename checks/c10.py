"""C10: the same program under different analyses, numbers of worker threads and schedules; quick mode against the full run."""
import ctypes as ct, hashlib, importlib, os, random, re
import numpy as np
import ocl, foreign as fgn
from ocl import Ctx, Lib, Local, C, CLError, unpack3
from c21 import Capture

PROP = "C10"
RULE = ("generated kernels that compute, exchange data through local memory, use atomics, print, and on chosen work-items access invalid memory, use uninitialised values, race and diverge at barriers, run under 5-7 "
        "configurations (subsets of the analyses, uniform-writes, 1-8 worker threads, schedule jitter, repetition): buffers byte for byte, printed lines, memory diagnostics, and the messages of each analysis in every "
        "configuration that includes it must agree; in quick mode the first and last groups run (group events) with the outputs and messages they have in the full run and nothing else changes; kernels of other checks "
        "under random configurations must read back the same bytes; non-trivial = distinct feature set and configuration")
ASSUMPTIONS = ["messages about races between work-groups are compared by address and entities, in either order", "memory that nothing wrote is not compared"]
VARIANT = "rel"
CASE_TIMEOUT = 200
FOREIGN = {"c01": 40, "c02": 60, "c03": 60, "c05": 80, "c07": 60, "c12": 20, "c13": 20, "c14": 50}
AN = ["DATA_RACES", "INST_COUNTS", "UNINITIALIZED"]


def cases(rng, tier):
    f = 1 if tier == "quick" else 25
    out = [dict(k="mix", seed=rng.randrange(1 << 30)) for _ in range(330 * f)]
    out += [dict(k="quick", seed=rng.randrange(1 << 30)) for _ in range(330 * f)]
    for m, n in FOREIGN.items():
        cs = importlib.import_module(m).cases(rng, "quick")
        for c in rng.sample(cs, min(n * f, len(cs))):
            out.append(dict(k="foreign", mod=m, case=c, seed=rng.randrange(1 << 30)))
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd = env, env["wd"]
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def run_case(w, c):
    return dict(mix=mix, quick=quick, foreign=foreign)[c["k"]](w, c)


def config(r, kind=None):
    """-> (analyses, extra environment, threads, jitter)"""
    a = [x for x in AN if r.random() < .5] if kind is None else AN if kind == "all" else []
    e = {x: 1 for x in a}
    if kind is None and "DATA_RACES" in a and r.random() < .3:
        e["DATA_RACES"] = 1
    t = 1 if kind in ("all", "none") else r.choice([1, 2, 3, 4, 8])
    return a, e, t, r.choice([0, 0, 4, 12]) if t > 1 else 0


# ---- kernels

PRE = r'''
typedef struct { int a; float b; short c[3]; } S;
constant uint table[8] = {3, 1, 4, 1, 5, 9, 2, 6};
%(ni)suint mixf(uint a, uint b, int n) { uint x = a; for (int i = 0; i < n; i++) { x = x * 1664525u + table[(x >> 5) & 7]; if (x & 64) x ^= b >> (i & 15); else x += rotate(b, a & 31); } return x; }
%(ni)sfloat fl(float x, uint n) { float s = 0.25f; for (uint i = 0; i < n; i++) s = native_sin(s + x) * 1.5f + sqrt(fabs(x) + i); return s; }
'''


class Gen:
    def __init__(self, r, small=False):
        self.r = r
        self.dim = r.choice([1, 1, 2, 3])
        self.nu = r.random() < .25
        while True:
            self.ls = [r.choice([1, 2, 3, 4]) for _ in range(self.dim)]
            self.ng = [r.choice([1, 1, 2, 3, 4]) for _ in range(self.dim)]
            if 2 <= np.prod(self.ls) <= 16 and np.prod(self.ng) <= 16 and (not small or np.prod(self.ng) >= 1):
                break
        self.g = [a * b - (r.randrange(a) if self.nu else 0) for a, b in zip(self.ls, self.ng)]
        self.off = [r.choice([0, 0, 3, 100]) for _ in range(self.dim)] if r.random() < .3 else None
        self.n = int(np.prod(self.g))
        self.feat = []
        self.src = self.make()
        self.opts = r.choice(["", "-cl-opt-disable", "-O2"]) + (" -cl-std=CL2.0" if self.nu else "")

    def pick(self):
        """a selector value: few work-items misbehave"""
        return self.r.getrandbits(31) & self.r.choice([0x7fffffff, 0x7ffff000, 0x7ffff000, 0x7fffff0f])

    def make(self):
        r = self.r
        L = ["x += mixf(x, s, %d);" % r.randint(0, 6)]
        P = [("private", "uint p[9]; for (int j = 0; j < 9; j++) p[j] = x + j * s; x ^= p[(s >> 12) % 9];"),
             ("float", "x += convert_uint_sat(fl(as_float((x & 0x3fffff) | 0x3f800000), 3) * 1000.0f);"),
             ("vector", "uint4 q = (uint4)(x, s, (uint)i, 7); q = q.wzyx * q + (uint4)(1, 2, 3, 4); x += q.x ^ q.y ^ q.z ^ q.w; short8 h = convert_short8_sat((int8)((int)x)); x += h.s3;"),
             ("struct", "S st; st.a = (int)x; st.b = (float)(s & 255); for (int j = 0; j < 3; j++) st.c[j] = (short)(x >> j); S st2 = st; x += (uint)st2.a + (uint)st2.b + st2.c[s %% 3];"),
             ("switch", "switch (s & 7) { case 0: x += 3; break; case 1: x *= 5; case 2: x ^= 77; break; case 6: return_me = 1; break; default: x -= in[(i * 7 + 3) %% n]; }"),
             ("local", "l[li] = x; barrier(CLK_LOCAL_MEM_FENCE); x += l[(li + 1) %% lsz] * 3; barrier(CLK_LOCAL_MEM_FENCE);"),
             ("localreduce", "l[li] = x & 0xffff; barrier(CLK_LOCAL_MEM_FENCE); for (uint st = lsz; st > 1; ) { uint hf = (st + 1) / 2; if (li + hf < st) l[li] += l[li + hf]; barrier(CLK_LOCAL_MEM_FENCE); st = hf; } x ^= l[0]; barrier(CLK_LOCAL_MEM_FENCE);"),
             ("async", "event_t ev = async_work_group_copy(l, in, (size_t)%d, 0); wait_group_events(1, &ev); x += l[(li * 3) %% %d]; barrier(CLK_LOCAL_MEM_FENCE);" % (min(self.n, int(np.prod(self.ls))), min(self.n, int(np.prod(self.ls))))),
             ("atomic", "atomic_add(&ctr[s & 3], x & 1023); atomic_max(&ctr[4], x); atomic_inc(&lc);"),
             ("group", "x += get_group_id(0) * 17 + get_num_groups(0) + get_local_size(0) + get_global_size(0) * 31;"),
             ("half", "half *hp = (half *)hm; vstore_half((float)(x & 1023), 1, hp); x += (uint)vload_half(1, hp);"),
             ("printf", 'if (s & 256) printf("item %d value %u %s\\n", (int)i, x, "text");'),
             ("oobr", "if ((s & 15) == 15) junk[i] = in[n + 200 + (s >> 8) %% 5];"),
             ("oobw", "if ((s & 15) == 14) { out[n + 100 + (s >> 9) %% 3] = x; }"),
             ("oobl", "if ((s & 15) == 13) { l[1000] = x; junk[i] = l[2000]; }"),
             ("oobp", "uint pa[4] = {1, 2, 3, 4}; if ((s & 15) == 12) junk[i] = pa[4 + ((s >> 7) & 3)]; else x += pa[s & 3];"),
             ("null", "if ((s & 15) == 11) { global uint *np = (global uint *)(ulong)(s & 0); junk[i] = *(volatile global uint *)np; }"),
             ("ro", "if ((s & 15) == 10) ((global uint *)ro)[i] = x;"),
             ("uninit", "uint uv[3]; uv[0] = x; if ((s & 15) < 6 && (s & 15)) uv[1] = 0; if (s & 15) junk[i] = uv[1];"),
             ("unlocal", "if ((s & 15) == 9) junk[i] = lu[li];"),
             ("race", "if ((s & 15) == 7) rl = x;"),
             ("graceg", "if (i == (s & 1 ? ra : rb)) rg[0] = x;"),
             ("gracer", "if (i == ra) rg[1] = x; if (i == rb) junk[i] = rg[1];"),
             ("div0", "if ((s & 15) == 8) junk[i] = x + ((volatile global uint *)ctr)[7] * 0;")]
        k = r.randint(3, 9)
        for nm, t in r.sample(P, k):
            if nm == "half" and self.nu:
                continue  # OpenCL C 2.0 gives the pointer the generic address space
            self.feat.append(nm)
            t = t.replace("%%", "%")
            L.append("{ " + t + " }")
            if r.random() < .4:
                L.append("if (x & %d) x += mixf(s, x, %d);" % (1 << r.randrange(8), r.randint(1, 4)))
        hdr = ("kernel void k(global uint *out, global const uint *in, global const uint *sel, global uint *junk, volatile global uint *ctr, volatile global uint *rg, local uint *l, local uint *lu, global const uint *ro, uint n, uint ra, uint rb) {\n"
               "  local uint lc; local volatile uint rl; ushort hm[4]; int return_me = 0;\n"
               "  size_t li = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2)), lsz = get_local_size(0) * get_local_size(1) * get_local_size(2);\n"
               "  size_t i = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) * ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2)));\n"
               "  if (li == 0) { lc = 0; } barrier(CLK_LOCAL_MEM_FENCE);\n  uint s = sel[i], x = in[i];\n  ")
        return PRE % dict(ni=r.choice(["", "__attribute__((noinline)) "])) + hdr + "\n  ".join(L) + "\n  out[i] = x + return_me + hm[0] * 0;\n}\n".replace(" + hm[0] * 0", "")


def execute(w, g, data, env, threads, jitter, seed, mask=()):
    """-> (outputs, {class: sorted messages}, printed lines, counts)"""
    L = w.L
    X = Ctx(L, dict(env, NUM_THREADS=threads))
    try:
        inp, sel, ra, rb = data
        L.mon.jitter(0)
        try:
            K = X.kernel(X.program(g.src, g.opts), "k")
        except CLError as e:
            raise RuntimeError("generated kernel does not build: %s\n%s" % (str(e)[:700], g.src))
        n = g.n
        out, ctr = X.buffer(np.full(n, 0xdeadbeef, np.uint32)), X.buffer(np.zeros(8, np.uint32))
        ib = X.buffer(inp, flags=C["CL_MEM_READ_ONLY"])
        X.args(K, out, ib, X.buffer(sel), X.buffer(np.zeros(n, np.uint32)), ctr, X.buffer(np.zeros(4, np.uint32)), Local(400), Local(100), X.buffer(inp, flags=C["CL_MEM_READ_ONLY"]), np.uint32(n), np.uint32(ra), np.uint32(rb))
        L.mon.mask("log", *mask)
        L.mon.clear()
        L.mon.jitter(jitter, seed)
        cap = Capture(w)
        try:
            X.launch(K, tuple(g.g), tuple(g.ls), tuple(g.off) if g.off else None)
        finally:
            text = cap.end()
            L.mon.jitter(0)
        res = (X.read(out, n * 4).tobytes(), X.read(ctr, 32).tobytes(), X.read(ib, n * 4).tobytes())
        recs = L.mon.recs()
        msgs = {"M": [], "R": [], "U": []}
        for ty, m in L.mon.logs(recs):
            if ty < 2:
                continue
            # the numbers of local and private allocations follow the order of a map of pointers
            m = re.sub(r"(local|private) memory address 0x[0-9a-f]+([0-9a-f]{6})\b", r"\1 memory address \2", m)
            if "data race" in m:
                msgs["R"].append("\n".join(sorted(re.sub(r"(First|Second) entity: +", "", m).split("\n"))))
            elif re.match(r"Uninit|Controlflow|Instruction depends", m):
                msgs["U"].append(m)
            else:
                msgs["M"].append(m)
        for k in msgs:
            msgs[k].sort()
        lines = sorted(x for x in text.split("\n") if x.startswith("item "))
        cnt = [x for x in text.split("\n") if re.match(r" *[\d,.]+ - ", x)]
        return res, msgs, lines, cnt, recs
    finally:
        X.release()
        ocl.setenv({})


def mkdata(g, r):
    return (np.array([r.getrandbits(32) for _ in range(g.n)], np.uint32), np.array([g.pick() for _ in range(g.n)], np.uint32), r.randrange(g.n), r.randrange(g.n))


def diff(a, b):
    return "%s / %s" % ([x for x in a if x not in b][:2], [x for x in b if x not in a][:2])


def mix(w, c):
    r = random.Random(c["seed"])
    g = Gen(r)
    data = mkdata(g, r)
    cfgs = [config(r, "none"), config(r, "all")] + [config(r) for _ in range(3)] + [config(r, "all"), config(r, "none")][:r.randint(0, 2)]
    v, base, first = [], None, {}
    nt = set()
    ev = 0
    for a, env, t, j in cfgs:
        try:
            res, msgs, lines, cnt, _ = execute(w, g, data, env, t, j, c["seed"])
        except RuntimeError as e:
            return dict(machinery="c10 seed %d: %s" % (c["seed"], e))
        name = "%s, %d threads" % ("+".join(a) or "no analysis", t)
        ev += g.n
        cl = [("results", res), ("printed", lines), ("M", msgs["M"])]
        if "DATA_RACES" in a:
            cl.append(("R", msgs["R"]))
        elif msgs["R"]:
            v.append(("mix:unasked", "%s reports %s" % (name, msgs["R"][0])))
        if "UNINITIALIZED" in a:
            cl.append(("U", msgs["U"]))
        elif msgs["U"]:
            v.append(("mix:unasked", "%s reports %s" % (name, msgs["U"][0])))
        if "INST_COUNTS" in a:
            cl.append(("counts", cnt))
        elif cnt:
            v.append(("mix:unasked", "%s prints counts %s" % (name, cnt[:2])))
        for k, x in cl:
            if k not in first:
                first[k] = (x, name)
            elif first[k][0] != x:
                y, other = first[k]
                if k == "results":
                    q = [np.frombuffer(z, np.uint32) for z in (x[0], y[0])]
                    i = np.flatnonzero(q[0] != q[1])[:4]
                    d = "out%s %s instead of %s; counters %s instead of %s" % (list(i), list(q[0][i]), list(q[1][i]), list(np.frombuffer(x[1], np.uint32)), list(np.frombuffer(y[1], np.uint32)))
                else:
                    d = "%d instead of %d entries, only here/there: %s" % (len(x), len(y), diff(x, y))
                v.append(("mix:%s" % k, "%s differ between (%s) and (%s): %s\n%s%s" % (k, name, other, d, " ".join(g.feat), g.src)))
        nt.add("%s t%d%s" % (name, t, "j" if j else ""))
    return dict(violations=v[:4], nontrivial=sorted(nt | set(g.feat)), evals=ev, stats={"configurations": len(cfgs), "messages": sum(len(first[k][0]) for k in "MRU" if k in first)}, sample=dict(kind="mix", feats=g.feat, opts=g.opts))


def quick(w, c):
    r = random.Random(c["seed"])
    g = Gen(r)
    data = mkdata(g, r)
    v = []
    an = config(r)
    try:
        full = execute(w, g, data, an[1], an[2], an[3], c["seed"])
        b = config(r)
        q = execute(w, g, data, dict(an[1], QUICK=1), b[2], b[3], c["seed"], ("wgbegin", "wgend"))
    except RuntimeError as e:
        return dict(machinery="c10 seed %d: %s" % (c["seed"], e))
    ng = g.ng + [1] * (3 - g.dim)
    run = {(0, 0, 0), tuple(x - 1 for x in ng)}
    for k in ("wgbegin", "wgend"):
        gs = sorted(unpack3(x["wg"]) for x in q[4][q[4]["kind"] == ocl.KINDS.index(k)])
        if gs != sorted(run):
            v.append(("quick:groups", "quick mode has %s events for groups %s of %s instead of %s" % (k, gs, ng, sorted(run))))
    G = g.g + [1] * (3 - g.dim)
    LS = g.ls + [1] * (3 - g.dim)
    fo, qo = np.frombuffer(full[0][0], np.uint32), np.frombuffer(q[0][0], np.uint32)
    for i in range(g.n):
        p = (i % G[0], i // G[0] % G[1], i // G[0] // G[1])
        grp = tuple(a // b for a, b in zip(p, LS))
        want = int(fo[i]) if grp in run else 0xdeadbeef
        if int(qo[i]) != want:
            v.append(("quick:result", "quick mode: work-item %s of group %s leaves %#x instead of %#x (%s)\n%s" % (p, grp, int(qo[i]), want, " ".join(g.feat), g.src)))
            break

    def executed(m):
        gs = [tuple(map(int, x)) for x in re.findall(r"Group\((\d+),(\d+),(\d+)\)", m)]
        return all(x in run for x in gs)
    for k in ("M", "R", "U"):
        want = [m for m in full[1][k] if executed(m)]
        if q[1][k] != want:
            v.append(("quick:messages", "quick mode: %d messages of class %s instead of %d, only here/there: %s (%s)\n%s" % (len(q[1][k]), k, len(want), diff(q[1][k], want), " ".join(g.feat), g.src)))
    if any(x not in full[2] for x in q[2]):
        v.append(("quick:printed", "quick mode prints %s" % diff(q[2], full[2])))
    return dict(violations=v[:4], nontrivial=["quick %dD %s groups%d" % (g.dim, "nu" if g.nu else "", len(run))] + g.feat, evals=len(run), stats={"quick": 1}, sample=dict(kind="quick", geometry=[g.g, g.ls]))


# ---- kernels of other checks

def foreign(w, c):
    r = random.Random(c["seed"])
    outs = []
    v = []
    base = Ctx.read

    def read(self, mem, size, offset=0, dtype=np.uint8, q=None):
        x = base(self, mem, size, offset, dtype, q)
        cur.append((size, hashlib.md5(x.tobytes()).hexdigest()))
        return x
    cfgs = [config(r, "none"), config(r)]
    Ctx.read = read
    rs = []
    try:
        for a, env, t, j in cfgs:
            cur = []
            ocl.setenv(dict(env, NUM_THREADS=t))
            getattr(w, "mods", {}).pop(c["mod"], None)  # contexts kept by the other check belong to the previous configuration
            w.L.mon.jitter(j, c["seed"])
            cap = Capture(w)
            try:
                res, text = fgn.run(w, c["mod"], c["case"], env, t)
            finally:
                cap.end()
                w.L.mon.jitter(0)
            rs.append(res)
            outs.append(cur)
            for k, m in res.get("violations") or []:
                if re.search(r"race|[uU]ninit|Controlflow depends", k + m):
                    continue
                if a or t > 1:
                    v.append(("foreign:%s:%s" % (c["mod"], k), "with %s and %d threads: %s" % ("+".join(a), t, m)))
    finally:
        Ctx.read = base
        ocl.setenv({})
    name = "%s, %d threads" % ("+".join(cfgs[1][0]) or "no analysis", cfgs[1][2])
    if c["mod"] not in ("c07", "c01") and outs[0] != outs[1]:
        v.append(("foreign:%s:reads" % c["mod"], "%s: what the program reads differs with %s: read %d of %d" % (c["mod"], name, next((i for i, (x, y) in enumerate(zip(*outs)) if x != y), -1), len(outs[0]))))
    out = dict(violations=v[:4], nontrivial=["%s %s" % (c["mod"], name)], evals=len(outs[0]), stats={c["mod"]: 1}, sample=dict(kind="foreign", mod=c["mod"], config=name))
    for x in rs:
        if x.get("machinery"):
            out["machinery"] = x["machinery"]
    return out
