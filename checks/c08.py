"""C08: data-race detector.  Oracle: an independent happens-before decision over the accesses of table-driven kernels (every access of
every work-item is known in advance), compared with the reports at byte level in both directions."""
import random, re
from collections import defaultdict
import numpy as np
import ocl
from ocl import Ctx, Lib, Local

PROP = "C08"
RULE = ("table-driven kernels: every work-item performs known loads, stores (1-16 bytes, chosen values) and atomics on shared global and local bytes, "
        "with barriers of every fence kind and asynchronous copies between, over 1-3 dimensional uniform and non-uniform ranges with offsets and 1-8 threads; every report must "
        "be a true race of the named entities at the named byte, and every racy byte must be covered by a report; non-trivial = distinct (kernel, has races) with >1 work-item")
ASSUMPTIONS = ["a race is covered by a report of the same two entities at a lower address (reports are folded per pair)",
               "wait_group_events is treated as synchronising the group, as the simulator documents its barriers"]
CASE_TIMEOUT = 120
TY = ["uchar", "ushort", "uint", "ulong", "uint4"]
SZ = [1, 2, 4, 8, 16]
NB = 64                                     # bytes of each shared region

SRC = r'''
typedef struct { uint kind, size, off; uint pad; ulong val; ulong pad2; } op_t;
#define DO(SP, P) { volatile SP uchar *p = (P) + o.off; \
  if (o.kind == 0) switch (o.size) { case 0: s += *p; break; case 1: s += *(volatile SP ushort*)p; break; case 2: s += *(volatile SP uint*)p; break; \
     case 3: s += *(volatile SP ulong*)p; break; default: { uint4 t = *(volatile SP uint4*)p; s += t.x; } } \
  else if (o.kind == 1) switch (o.size) { case 0: *p = o.val; break; case 1: *(volatile SP ushort*)p = o.val; break; case 2: *(volatile SP uint*)p = o.val; break; \
     case 3: *(volatile SP ulong*)p = o.val; break; default: *(volatile SP uint4*)p = (uint4)((uint)o.val); } \
  else if (o.kind == 2) atomic_add((volatile SP uint*)p, (uint)o.val); \
  else if (o.kind == 3) atomic_xchg((volatile SP uint*)p, (uint)o.val); \
  else if (o.kind == 4) atomic_cmpxchg((volatile SP uint*)p, 0xFFFFFFF1u, 3u); }
%(attr)svoid step(global uchar *G, local uchar *L, global const op_t *ops, uint M, size_t base, ulong *ps) {
  ulong s = *ps;
  for (uint j = 0; j < M; j++) { op_t o = ops[base + j]; uint sp = o.kind >> 8; o.kind &= 255;
    if (o.kind == 9) continue;
    if (sp == 0) DO(global, G) else DO(local, L) }
  *ps = s;
}
kernel void racek(global uchar *G, local uchar *L, global const op_t *ops, global const uint *bars, uint M, uint E, global ulong *sink) {
  size_t li = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));
  size_t wi = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) * ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2)));
  size_t gi = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2));
  ulong s = 0;
  for (uint e = 0; e < E; e++) {
    step(G, L, ops, M, (wi * E + e) * M, &s);
    uint b = bars[gi * E + e];
    if (b == 1) barrier(CLK_LOCAL_MEM_FENCE);
    else if (b == 2) barrier(CLK_GLOBAL_MEM_FENCE);
    else if (b == 3) barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
    else if ((b & 15) == 4) { event_t ev = async_work_group_copy(L + ((b >> 4) & 63), (const global uchar*)G + ((b >> 10) & 63), b >> 16, 0); wait_group_events(1, &ev); }
    else if ((b & 15) == 5) { event_t ev = async_work_group_copy(G + ((b >> 4) & 63), (const local uchar*)L + ((b >> 10) & 63), b >> 16, 0); wait_group_events(1, &ev); }
    else mem_fence(CLK_GLOBAL_MEM_FENCE);
  }
  sink[wi] = s;
}
'''


def cases(rng, tier):
    return [dict(seed=rng.randrange(1 << 30)) for _ in range(2400 if tier == "quick" else 40000)]


def setup_worker(env):
    return Lib(env["build"])


HDR = re.compile(r"(Read-write|Write-write) data race at (\w+) memory address 0x([0-9a-f]+)")
ENT = re.compile(r"(First|Second) entity: +(?:Global\((\d+),(\d+),(\d+)\) Local\((\d+),(\d+),(\d+)\) )?Group\((\d+),(\d+),(\d+)\)")


def run_case(L, c):
    r = random.Random(c["seed"])
    v, stats = [], defaultdict(int)
    nu = r.random() < .3
    dim = r.choice([1, 1, 2, 2, 3])
    while True:
        l = [r.choice([1, 1, 2, 3, 4]) for _ in range(dim)]
        ng = [r.choice([1, 2, 2, 3]) for _ in range(dim)]
        g = [a * b for a, b in zip(l, ng)]
        if nu:
            g = [max(1, x - r.choice([0, 1]) % y) for x, y in zip(g, l)]
        if 1 < np.prod(g) <= 40:
            break
    off = [r.choice([0, 0, 0, 1, 5]) for _ in range(dim)]
    f3 = lambda x, d: list(x) + [d] * (3 - dim)
    g3, l3, o3 = f3(g, 1), f3(l, 1), f3(off, 0)
    n3 = [-(-a // b) for a, b in zip(g3, l3)]
    items = [(x, y, z) for z in range(g3[2]) for y in range(g3[1]) for x in range(g3[0])]
    grp = lambda p: tuple(p[d] // l3[d] for d in range(3))
    N, NG = len(items), int(np.prod(n3))
    gidx = lambda q: q[0] + n3[0] * (q[1] + n3[1] * q[2])
    allgroups = [(x, y, z) for z in range(n3[2]) for y in range(n3[1]) for x in range(n3[0])]
    E, M = r.randint(1, 3), r.randint(1, 3)
    uniform_opt = r.random() < .3
    th = r.choice([1, 1, 2, 4, 8])
    # what kind of traffic
    style = r.choice(["sparse", "sparse", "dense", "atomic", "private", "grouped", "uniform"])
    vals = [7] if style == "uniform" else [7, 7, 8, 0x0107, 0x01010101, 0, 0xFFFFFFFF00000007]
    loc_ok = r.random() < .7
    def traffic():
        ops = np.zeros((N, E, M), dtype=[("kind", "<u4"), ("size", "<u4"), ("off", "<u4"), ("pad", "<u4"), ("val", "<u8"), ("pad2", "<u8")])
        prog_ops = defaultdict(list)
        for i, p in enumerate(items):
            gi = gidx(grp(p))
            for e in range(E):
                for j in range(M):
                    if r.random() < (.75 if style in ("sparse", "uniform") else .25) and N > 3:
                        ops[i, e, j]["kind"] = 9
                        continue
                    sp = r.random() < .45 and loc_ok
                    sz = r.choice([0, 0, 1, 2, 2, 3, 4])
                    k = r.choice([0, 0, 1]) if style != "uniform" else r.choice([1, 1, 1, 0])
                    if style == "atomic" and r.random() < .85 or r.random() < .08:
                        k, sz = r.choice([2, 3, 4]), 2
                    if style == "private":     # disjoint bytes: race-free apart from rare intruders
                        sz = 0
                        off_ = i if r.random() < .97 else r.randrange(NB)
                        k = min(k, 1)
                    elif style == "grouped" and not sp:
                        sz = min(sz, 2)
                        off_ = (gi * 8 + r.randrange(8)) % NB if r.random() < .9 else r.randrange(NB)
                    else:
                        off_ = r.randrange(NB) if style != "dense" else r.randrange(8)
                    off_ = off_ // SZ[sz] * SZ[sz]
                    ops[i, e, j] = (k | sp << 8, sz, off_, 0, r.choice(vals), 0)
                    prog_ops[i, e].append((k, int(sp), sz, off_, int(ops[i, e, j]["val"])))
        bars = np.zeros((NG, E), np.uint32)
        for e in range(E):
            b = r.choice([0, 1, 2, 3, 3, 3, 4, 5])
            for gi in range(NG):
                bb = b if r.random() < .9 else r.choice([0, 1, 2, 3])
                if bb in (4, 5):
                    n = r.randint(1, 8)
                    bb |= r.randrange(NB - n) << 4 | r.randrange(NB - n) << 10 | n << 16
                bars[gi, e] = bb
        return ops, bars, prog_ops
    launches = r.choice([1, 1, 2, 3])
    ops, bars, prog_ops = traffic()
    L.mon.jitter(r.choice([0, 0, 8]) if th > 1 else 0, c["seed"])
    X = Ctx(L, {"NUM_THREADS": th, "DATA_RACES": 1, **({"UNIFORM_WRITES": 1} if uniform_opt else {})})
    try:
        attr = r.choice(["", "__attribute__((noinline)) "])
        k = X.kernel(X.program(SRC % dict(attr=attr), r.choice(["", "-cl-opt-disable"]) + (" -cl-std=CL2.0" if nu else "")).__int__() if False else
                     X.program((SRC % dict(attr=attr)).replace("ulong *ps", "private ulong *ps"), r.choice(["", "-cl-opt-disable"]) + (" -cl-std=CL2.0" if nu else "")), "racek")
        L.mon.mask("log", "alloc")
        L.mon.clear()
        gb = X.buffer(np.zeros(NB, np.uint8))
        A = L.mon.recs()
        base = int(A[A["kind"] == ocl.KINDS.index("alloc")][-1]["b"])
        bops, bbars = X.buffer(ops), X.buffer(bars)
        X.args(k, gb, Local(NB), bops, bbars, np.uint32(M), np.uint32(E), X.buffer(np.zeros(N, np.uint64)))
        for li in range(launches):
            X.write(gb, np.zeros(NB, np.uint8))
            if li:                       # other accesses than in the launch before
                style = r.choice(["sparse", "dense", "private", "grouped", "uniform"])
                ops, bars, prog_ops = traffic()
                X.write(bops, ops)
                X.write(bbars, bars)
            L.mon.mask("log")
            L.mon.clear()
            X.launch(k, g, l, off)
            logs = [m for t, m in L.mon.logs() if t >= 2]
            judge(v, stats, logs, items, grp, gidx, allgroups, prog_ops, bars, E, base, uniform_opt, o3, l3, c, li)
        key = "%s %d %s" % (style, c["seed"], stats["racy_bytes"] > 0)
        return dict(violations=v, nontrivial=[key], evals=launches * N, stats=dict(stats), sample=dict(c, style=style, g=g, l=l, off=off, threads=th))
    finally:
        X.release()
        L.mon.jitter(0)


def judge(v, stats, logs, items, grp, gidx, allgroups, prog_ops, bars, E, base, uniform_opt, o3, l3, c, li):
    # accesses per scope: ("local", group, episode) / ("global", group, episode); byte -> list of (entity, load?, store value or None, atomic)
    scopes = defaultdict(lambda: defaultdict(list))
    glob = defaultdict(list)
    bygroup = defaultdict(list)
    for i, p in enumerate(items):
        bygroup[grp(p)].append(i)
    for q in allgroups:
        el = eg = 0
        for e in range(E):
            for i in bygroup[q]:
                for k, sp, sz, off, val in prog_ops[i, e]:
                    n = SZ[sz]
                    if sz == 4:
                        data = (val & 0xFFFFFFFF).to_bytes(4, "little") * 4
                    else:
                        data = (val & ((1 << 8 * n) - 1)).to_bytes(n, "little")
                    for b in range(n):
                        recs = []
                        if k == 0:
                            recs.append((i, "l", None, False))
                        elif k == 1:
                            recs.append((i, "s", data[b], False))
                        else:
                            recs.append((i, "l", None, True))
                            if k != 4:
                                recs.append((i, "s", None, True))
                        for x in recs:
                            if sp:
                                scopes["local", q, el][off + b].append(x)
                            else:
                                scopes["global", q, eg][off + b].append(x)
                                glob[off + b].append((q,) + x)
            bb = int(bars[gidx(q), e])
            if bb & 15 in (4, 5):
                lo, go, n = (bb >> 4) & 63, (bb >> 10) & 63, bb >> 16
                if bb & 15 == 5:
                    lo, go = go, lo
                for j in range(n):
                    ld, st = (("s", "l") if bb & 15 == 4 else ("l", "s"))
                    scopes["local", q, el][lo + j].append((q, ld, None, False))
                    scopes["global", q, eg][go + j].append((q, st, None, False))
                    glob[go + j].append((q, q, st, None, False))
            if bb in (1, 3) or bb > 5:
                el += 1
            if bb in (2, 3) or bb > 5:
                eg += 1

    def conflict(a, b):
        """-> '', 'RW', 'WW', or 'ww' (a write pair whose written values are not known to differ)"""
        if a[0] == b[0] or (a[3] and b[3]) or (a[1] == "l" and b[1] == "l"):
            return ""
        if a[1] != b[1]:
            return "RW"
        if uniform_opt:
            return "WW"
        if a[2] is None or b[2] is None:
            return "ww"
        return "WW" if a[2] != b[2] else ""
    races = defaultdict(set)              # (space, scope, byte) -> {(entA, entB, kind)}
    for (sp, q, e), bytes_ in scopes.items():
        for b, acc in bytes_.items():
            for x in range(len(acc)):
                for y in range(x):
                    k = conflict(acc[x], acc[y])
                    if k:
                        races[sp, q, b].add((frozenset((acc[x][0], acc[y][0])), k))
    for b, acc in glob.items():
        for x in range(len(acc)):
            for y in range(x):
                if acc[x][0] != acc[y][0]:
                    k = conflict(acc[x][1:], acc[y][1:])
                    if k:
                        races["global", None, b].add((frozenset((acc[x][1], acc[y][1])), k))
    anyrace = defaultdict(set)
    for (sp, q, b), s in races.items():
        anyrace[sp, b] |= s
    reps = []
    index = {tuple(p[d] + o3[d] for d in range(3)): i for i, p in enumerate(items)}
    for m in logs:
        h = HDR.search(m)
        if not h:
            v.append(("report:other", "unexpected message: %s" % m[:300]))
            continue
        stats["reports"] += 1
        kind, sp, addr = h.group(1), h.group(2), int(h.group(3), 16)
        b = addr - base if sp == "global" else addr & 0xFFFFFFFFFFFF
        ents = []
        if "racek" not in m:
            v.append(("report:kernel", "report does not name the kernel: %s" % m[:200]))
        for e in ENT.finditer(m):
            n = [None if z is None else int(z) for z in e.groups()[1:]]
            gr = tuple(n[6:9])
            if n[0] is None:
                ents.append(gr if gr in bygroup else ("no such group", gr))
            else:
                i = index.get(tuple(n[0:3]))
                if i is None:
                    ents.append(("no such work-item", tuple(n[0:3])))
                else:
                    p = items[i]
                    if grp(p) != gr or tuple(p[d] % l3[d] for d in range(3)) != tuple(n[3:6]):
                        v.append(("report:entity", "report names Global%s Local%s Group%s, which do not agree (local size %s, offset %s)" % (n[0:3], n[3:6], gr, l3, o3)))
                    ents.append(i)
        if len(ents) != 2:
            v.append(("report:form", "entities not found in: %s" % m[:400]))
            continue
        s = anyrace.get((sp, b), ())
        want = ("RW",) if kind == "Read-write" else ("WW", "ww")
        if not any(pr == frozenset(ents) and k in want for pr, k in s):
            key = "report:entity" if any(isinstance(x, tuple) and len(x) == 2 for x in ents) or any(k in want for _, k in s) else "report:false"
            v.append((key, "%s %s byte %d entities %s is not a race; races there: %s; ranges: items %d groups %d local %s offset %s" % (kind, sp, b, ents, sorted(map(str, s))[:4], len(items), len(allgroups), l3, o3)))
        else:
            reps.append((sp, kind, b, frozenset(ents)))
    stats["racy_bytes"] += len(races)
    stats["race_free"] += not races
    stats["intra_racy"] += sum(1 for k in races if k[1] is not None)
    stats["inter_racy"] += sum(1 for k in races if k[1] is None)
    for (sp, q, b), s in races.items():
        for kind, kk in (("Read-write", "RW"), ("Write-write", "WW")):
            sure = {pr for pr, k in s if k == kk}
            prs = {pr for pr, k in s if k in (kk, kk.lower())}
            if sure and not any(rsp == sp and rk == kind and rb <= b and re_ in prs for rsp, rk, rb, re_ in reps):
                v.append(("missed:%s:%s:%s" % (sp, "intra" if q is not None else "inter", kk), "%s race at %s byte %d (%s) between %s not reported (%d reports); local %s groups %d offset %s uniform-writes %s launch %d" % (
                    kind, sp, b, "group %s" % (q,) if q is not None else "across groups", [sorted(map(str, p)) for p in list(sure)[:3]], len(logs), l3, len(allgroups), o3, uniform_opt, li)))
                return
