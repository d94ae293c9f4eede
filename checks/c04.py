"""C04: NDRange decomposition.  Monitor: work-group/work-item begin/complete events of
the plugin, plus ids recorded by the kernel, against a model of the index space."""
import ctypes as ct, itertools
import numpy as np
import ocl
from ocl import Ctx, Lib, C, unpack3

PROP = "C04"
RULE = ("random launches (1-3 dims, offsets, uniform/non-uniform/NULL local sizes, CL1.2/2.0/3.0 builds, 1-8 worker "
        "threads with schedule jitter, quick mode); non-trivial = distinct launch geometry with >1 work-item, "
        "counted by (dims,global,local,offset,std,quick)")
ASSUMPTIONS = ["the kernel under observation indexes its record buffer only by an atomically allocated slot"]
CASE_TIMEOUT = 90

NREC = 40
SRC = r'''
#define R(i, v) rec[slot*%d + (i)] = (ulong)(v)
void body(global uint *ctr, global ulong *rec, local ulong *lm, ulong magic) {
  uint slot = atomic_inc(ctr);
  int n = 0;
  for (uint d = 0; d < 4; d++) {
    R(n++, get_global_id(d)); R(n++, get_local_id(d)); R(n++, get_group_id(d));
    R(n++, get_global_size(d)); R(n++, get_local_size(d)); R(n++, get_num_groups(d));
    R(n++, get_global_offset(d));
#if __OPENCL_C_VERSION__ >= 200
    R(n++, get_enqueued_local_size(d));
#else
    R(n++, 0);
#endif
  }
  R(n++, get_work_dim());
#if __OPENCL_C_VERSION__ >= 200
  R(n++, get_global_linear_id()); R(n++, get_local_linear_id());
#else
  R(n++, 0); R(n++, 0);
#endif
  /* local memory isolation: the group's id is published by its first item */
  ulong g = magic + get_group_id(0) + 1000*get_group_id(1) + 1000000*get_group_id(2);
  if (get_local_id(0)==0 && get_local_id(1)==0 && get_local_id(2)==0) { lm[0] = g; lm[1] = 0; }
  barrier(CLK_LOCAL_MEM_FENCE);
  R(n++, lm[0] == g);
  ulong me = get_local_id(0) + get_local_size(0)*(get_local_id(1) + get_local_size(1)*get_local_id(2));
  lm[2+me] = g*4096 + me;
  barrier(CLK_LOCAL_MEM_FENCE);
  ulong tot = get_local_size(0)*get_local_size(1)*get_local_size(2);
  ulong ok = 1;
  for (ulong i = 0; i < tot; i++) ok &= lm[2+i] == g*4096 + i;
  R(n++, ok); R(n++, magic);
}
kernel void k(global uint *ctr, global ulong *rec, local ulong *lm, ulong magic) { body(ctr, rec, lm, magic); }
#ifdef REQD
kernel __attribute__((reqd_work_group_size(RX, RY, RZ)))
void kr(global uint *ctr, global ulong *rec, local ulong *lm, ulong magic) { body(ctr, rec, lm, magic); }
#endif
''' % NREC


def cases(rng, tier):
    n = 400 if tier == "quick" else 6000
    out = []
    for i in range(n):
        dim = rng.choice([1, 2, 2, 3, 3])
        cap = 2500 if rng.random() < 0.2 else 500
        std = rng.choice(["", "", "CL1.2", "CL2.0", "CL2.0", "CL3.0"])
        while True:
            g = [rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 31, 33, 64, 100, 256]) for _ in range(dim)]
            if np.prod(g) <= cap:
                break
        mode = rng.choice(["uniform", "nonuniform", "null"]) if std in ("CL2.0", "CL3.0") else rng.choice(["uniform", "uniform", "null"])
        l = None
        if mode == "uniform":
            l = [rng.choice([x for x in range(1, v + 1) if v % x == 0]) for v in g]
        elif mode == "nonuniform":
            l = [rng.randint(1, max(1, min(v + (rng.random() < .15), 20))) for v in g]
        if l and np.prod(l) > 256:
            l = [1] * dim
        off = None if rng.random() < .4 else [rng.choice([0, 0, 1, 2, 5, 16, 100, 1000003]) for _ in range(dim)]
        case = dict(g=g, l=l, off=off, std=std, threads=rng.choice([1, 1, 2, 3, 8]), quick=rng.random() < .12,
                    jitter=rng.choice([0, 0, 4, 16]), reqd=bool(l) and rng.random() < .2, seed=rng.randrange(1 << 30),
                    launches=rng.choice([1, 1, 2, 3]))
        out.append(case)
    # multiple launches and zero-sized ranges
    for i in range(16):
        dim = rng.choice([1, 2, 3])
        g = [4] * dim
        g[rng.randrange(dim)] = 0
        out.append(dict(g=g, l=rng.choice([None, [1] * dim]), off=None, std=rng.choice(["", "CL2.0"]), threads=rng.choice([1, 4]), quick=bool(i % 4 == 0),
                        jitter=0, reqd=False, seed=1, launches=1))
    return out


def setup_worker(env):
    return Lib(env["build"])


def run_case(L, c):
    dim, g = len(c["g"]), list(c["g"]) + [1] * (3 - len(c["g"]))
    off = (list(c["off"]) if c["off"] else [0] * dim) + [0] * (3 - dim)
    env = {"NUM_THREADS": c["threads"]}
    if c["quick"]:
        env["QUICK"] = 1
    v = []
    L.mon.mask("log", "wibegin", "wiend", "wgbegin", "wgend", "kbegin", "kend", "barrier")
    L.mon.jitter(c["jitter"], c["seed"])
    X = Ctx(L, env)
    total = int(np.prod(g))
    stats = dict(launches=0, workitems=0, groups=0, events=0, multithreaded=0)
    try:
        opts = ("-cl-std=" + c["std"]) if c["std"] else ""
        if c["reqd"]:
            r = list(c["l"]) + [1] * (3 - dim)
            opts += " -DREQD -DRX=%d -DRY=%d -DRZ=%d" % tuple(r)
        k = X.kernel(X.program(SRC, opts), "kr" if c["reqd"] else "k")
        cap = total + 64
        for li in range(c["launches"]):
            ctr = X.buffer(np.zeros(1, np.uint32))
            rec = X.buffer(np.full(cap * NREC, 0xEE, np.uint64))
            lsz = 256 if c["l"] is None else int(np.prod(c["l"]))
            X.args(k, ctr, rec, ocl.Local(8 * (lsz + 2)), np.uint64(1234567 + li))
            L.mon.clear()
            X.launch(k, c["g"], c["l"], c["off"])
            R = L.mon.recs()
            stats["launches"] += 1
            stats["events"] += len(R)
            logs = [m for t, m in L.mon.logs(R) if t >= 2]
            if logs:
                v.append(("log:unexpected", "%s: %s" % (c, logs[0][:300])))
            n = int(X.read(ctr, 4, dtype=np.uint32)[0])
            A = X.read(rec, cap * NREC * 8, dtype=np.uint64).reshape(cap, NREC)
            if (A[n:] != 0xEE).any():
                v.append(("record:extra", str(c)))
            A = A[:n]
            if c["l"] is not None:
                l = list(c["l"]) + [1] * (3 - dim)
            elif n:
                # implementation-chosen: take what the kernel says, which must be uniform for the build
                l = [int(x) for x in (A[0][[7, 15, 23]] if c["std"] in ("CL2.0", "CL3.0") else A[0][[4, 12, 20]])]
                if any(x == 0 for x in l) or (c["std"] not in ("CL2.0", "CL3.0") and any(a % b for a, b in zip(g, l))):
                    v.append(("localsize:chosen", "%s chosen %s" % (c, l)))
                    break
            else:
                l = [1, 1, 1]
            ng = [-(-a // b) for a, b in zip(g, l)]
            groups = [(x, y, z) for z in range(ng[2]) for y in range(ng[1]) for x in range(ng[0])]
            if c["quick"] and groups:
                groups = sorted({groups[0], groups[-1]})
            exp = {}
            gsizes = {}
            for gr in groups:
                ls = [min(l[d], g[d] - gr[d] * l[d]) for d in range(3)]
                gsizes[gr] = tuple(ls)
                for lz in range(ls[2]):
                    for ly in range(ls[1]):
                        for lx in range(ls[0]):
                            lid = (lx, ly, lz)
                            gid = tuple(gr[d] * l[d] + lid[d] + off[d] for d in range(3))
                            exp[gid] = (lid, gr, ls)
            seen = set()
            for row in A.tolist():
                gid = (row[0], row[8], row[16])
                if gid in seen:
                    v.append(("coverage:twice", "%s: work-item %s ran twice" % (c, gid)))
                    break
                seen.add(gid)
                e = exp.get(gid)
                if e is None:
                    v.append(("coverage:outside", "%s: work-item %s outside the range" % (c, gid)))
                    break
                lid, gr, ls = e
                bad = None
                for d in range(4):
                    s = row[d * 8:d * 8 + 8]
                    if d < 3:
                        w = [gid[d], lid[d], gr[d], g[d], ls[d], ng[d], off[d], l[d]]
                    else:
                        w = [0, 0, 0, 1, 1, 1, 0, 1]
                    if c["std"] not in ("CL2.0", "CL3.0"):
                        w[7] = 0
                    if s != w:
                        bad = "dim %d: got %s want %s" % (d, s, w)
                        break
                if not bad and row[32] != dim:
                    bad = "work_dim %d" % row[32]
                if not bad and c["std"] in ("CL2.0", "CL3.0"):
                    gl = ((gid[2] - off[2]) * g[1] + gid[1] - off[1]) * g[0] + gid[0] - off[0]
                    ll = (lid[2] * ls[1] + lid[1]) * ls[0] + lid[0]
                    if row[33] != gl or row[34] != ll:
                        bad = "linear ids %s want %d %d" % (row[33:35], gl, ll)
                if not bad and (row[35] != 1 or row[36] != 1):
                    bad = "local memory not private to the group"
                if not bad and row[37] != 1234567 + li:
                    bad = "argument of another launch seen"
                if bad:
                    v.append(("ids:" + bad.split(":")[0].split(" ")[0], "%s: %s %s" % (c, gid, bad)))
                    break
            if len(seen) != len(exp) and not v:
                v.append(("coverage:missing", "%s: %d of %d work-items ran" % (c, len(seen), len(exp))))
            # the monitor's view
            def cnt(kind):
                return R[R["kind"] == ocl.KINDS.index(kind)]
            wb, we, gb, ge = cnt("wibegin"), cnt("wiend"), cnt("wgbegin"), cnt("wgend")
            if len(cnt("kbegin")) != 1 or len(cnt("kend")) != 1:
                if total:
                    v.append(("events:kernel", "%s: kernel begin/end %d/%d" % (c, len(cnt("kbegin")), len(cnt("kend")))))
            want = sorted(exp)
            for nm, ev in (("wibegin", wb), ("wiend", we)):
                got = sorted(unpack3(x) for x in ev["wi"])
                if got != want and max(off) < (1 << 20):
                    v.append(("events:" + nm, "%s: %d events, %d work-items" % (c, len(got), len(want))))
            for nm, ev in (("wgbegin", gb), ("wgend", ge)):
                got = sorted(unpack3(x) for x in ev["wg"])
                if got != sorted(gsizes):
                    v.append(("events:" + nm, "%s: groups %s want %s" % (c, got[:9], sorted(gsizes)[:9])))
            for r in gb:
                if unpack3(r["a"]) != gsizes.get(unpack3(r["wg"])):
                    v.append(("events:wgsize", "%s: group %s size %s" % (c, unpack3(r["wg"]), unpack3(r["a"]))))
                    break
            stats["workitems"] += len(seen)
            stats["groups"] += len(gb)
            if len(set(R["tid"][R["kind"] == ocl.KINDS.index("wgbegin")])) > 1:
                stats["multithreaded"] += 1
    finally:
        X.release()
        L.mon.jitter(0)
    return dict(violations=v, stats=stats, evals=c["launches"],
                nontrivial=["%s" % ((c["g"], c["l"], c["off"], c["std"], c["quick"]),)] if total > 1 else False,
                sample=dict(case=c, workitems=stats["workitems"]))
