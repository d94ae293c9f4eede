"""C07: invalid memory accesses.  Oracle: exact multiset of expected diagnostics (kind, size, address
space, responsible work-item) computed from the layout, and full contents of every buffer."""
import ctypes as ct, random, re
from collections import Counter
import numpy as np
import ocl
from ocl import Ctx, Lib, C, Local

PROP = "C07"
RULE = ("random kernels of 4-10 accesses (scalar/vector/vload/vstore/atomic/struct copy/async copy) around the boundaries of global, "
        "constant, local and private allocations, null/dangling/wild pointers, read-only/write-only and mapped buffers, static array "
        "indices; expected diagnostics compared exactly; non-trivial = distinct (space,op,type,validity class) observed")
ASSUMPTIONS = ["accesses are naturally aligned", "sub-buffers are checked against their parent allocation, as the simulator documents"]

TY = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "float": 4, "double": 8}
NP_ = 256  # private array bytes: larger than any access, or a store could count as overwriting the whole array


def cases(rng, tier):
    n = 1500 if tier == "quick" else 30000
    return [dict(seed=rng.randrange(1 << 30), kind=rng.choice(["mix"] * 7 + ["array"] * 3 + ["async", "async", "dangling"])) for _ in range(n)]


def setup_worker(env):
    return Lib(env["build"])


ERR = re.compile(r"Invalid (read|write) of size (\d+) at (\w+) memory address 0x([0-9a-f]+)")
ENT = re.compile(r"Entity: +Global\((\d+),(\d+),(\d+)\) Local\((\d+),(\d+),(\d+)\) Group\((\d+),(\d+),(\d+)\)")


def parse(logs):
    out = []
    for t, m in logs:
        if t < 2:
            continue
        k = re.search(r"Kernel: +(\w+)", m)
        e = ENT.search(m)
        g = tuple(int(x) for x in e.groups()) if e else None
        x = ERR.search(m)
        if x:
            out.append(("oob", x.group(1), int(x.group(2)), x.group(3), int(x.group(4), 16), g, k and k.group(1)))
        else:
            out.append(("msg", m.split("\n")[0], g, k and k.group(1)))
    return out


def geometry(rng):
    dim = rng.choice([1, 1, 2, 3])
    l = [rng.choice([1, 2, 3]) for _ in range(dim)]
    n = [rng.choice([1, 2]) for _ in range(dim)]
    off = [rng.choice([0, 0, 5]) for _ in range(dim)]
    return dim, l, [a * b for a, b in zip(l, n)], off


def entity(w, l, g, off, dim):
    """flat index -> 9-tuple as printed"""
    l3, g3, o3 = (list(x) + [d] * (3 - dim) for x, d in ((l, 1), (g, 1), (off, 0)))
    x, y, z = w % g3[0], (w // g3[0]) % g3[1], w // (g3[0] * g3[1])
    p = (x, y, z)
    return tuple(p[i] + o3[i] for i in range(3)) + tuple(p[i] % l3[i] for i in range(3)) + tuple(p[i] // l3[i] for i in range(3))


WI = ("size_t me = (get_global_id(0)-get_global_offset(0)) + get_global_size(0)*((get_global_id(1)-get_global_offset(1)) + "
      "get_global_size(1)*(get_global_id(2)-get_global_offset(2)));")


def run_mix(L, c, rng):
    v, nt = [], []
    dim, l, g, off = geometry(rng)
    ws = int(np.prod(g))
    sizes = dict(g0=rng.choice([4, 16, 24, 64, 100, 256]), g1=rng.choice([8, 16, 40, 128]), c0=rng.choice([16, 64]),
                 l0=rng.choice([8, 32, 64]), l1=rng.choice([16, 128]), p0=NP_, ls=48)
    flags1 = rng.choice([0, C["CL_MEM_READ_ONLY"], C["CL_MEM_WRITE_ONLY"]])
    null1 = rng.random() < .15
    X = Ctx(L, {"NUM_THREADS": rng.choice([1, 4])})
    try:
        acc, body = [], []
        for i in range(rng.randint(4, 10)):
            base = rng.choice(["g0", "g0", "g1", "c0", "l0", "l1", "p0", "ls"])
            space = {"g": "global", "c": "constant", "l": "local", "p": "private"}[base[0]]
            t = rng.choice(list(TY))
            op = rng.choice(["load", "store", "load", "store", "vload", "vstore", "atomic", "struct"])
            if base == "c0":
                op = rng.choice(["load", "vload"])
            if op == "atomic" and base == "p0":
                op = "load"
            w = rng.choice([1, 1, 2, 3, 4, 8, 16])
            e = TY[t]
            if op in ("load", "store"):
                size, al = e * (4 if w == 3 else w), e * (4 if w == 3 else w)
                ct_ = t + (str(w) if w > 1 else "")
            elif op in ("vload", "vstore"):
                w = rng.choice([2, 3, 4, 8, 16])
                size, al, ct_ = e * w, e, t
            elif op == "atomic":
                t = rng.choice(["int", "uint", "long", "ulong"])
                size = al = TY[t]
                ct_ = t
            else:
                w = rng.choice([3, 5, 9, 13])
                size, al, ct_ = 4 * w, 4, "S%d" % w
            n = 0 if (base == "g1" and null1) else sizes[base]
            cls = rng.choice(["first", "last", "edge", "straddle", "past", "before", "far", "farneg", "in", "in", "in"])
            o = {"first": 0, "last": n - size, "edge": n, "straddle": n - size + al, "past": n + al * rng.randint(1, 9),
                 "before": -al, "far": rng.choice([1 << 20, 1 << 31, 1 << 33]) // 128 * 128 if base[0] not in "pl" else (1 << 12),
                 "farneg": -(1 << 12), "in": rng.randint(0, max(0, n - size))}[cls]
            o = o // al * al
            if base == "g1" and null1:
                o = rng.choice([0, 0, 64, 4096]) // al * al
            valid = n > 0 and 0 <= o and o + size <= n
            acc.append(dict(i=i, base=base, space=space, op=op, t=t, w=w, size=size, off=o, valid=valid, who=rng.randrange(ws), al=al))
            sp = "__private" if space == "private" else space
            P = "((%s %s*)((%s uchar*)%s + offs[%d]))" % (sp, ct_, sp, base, i)
            O = "((global uchar*)out + %d)" % (i * 128)
            if op == "load":
                st = "*(global %s*)%s = *%s;" % (ct_, O, P)
            elif op == "store":
                st = "*%s = (%s)(%d);" % (P, ct_, 1 + (i * 7) % 100)
            elif op == "vload":
                st = "vstore%d(vload%d(0, %s), 0, (global %s*)%s);" % (w, w, P, t, O)
            elif op == "vstore":
                st = "vstore%d((%s%d)(%d), 0, %s);" % (w, t, w, 1 + (i * 7) % 100, P)
            elif op == "atomic":
                fn = ("atom_" if e == 8 or t in ("long", "ulong") else "atomic_") + "add"
                st = "*(global %s*)%s = %s((volatile %s %s*)%s, (%s)%d);" % (t, O, fn, sp, t, P, t, i + 3)
            else:
                st = "*(global %s*)%s = *%s;" % (ct_, O, P)
            acc[-1]["val"] = 1 + (i * 7) % 100
            acc[-1]["add"] = i + 3
            body.append("  if (me == %d) { %s }" % (acc[-1]["who"], st))
        src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable\n"
        src += "".join("typedef struct { int a[%d]; } S%d;\n" % (x, x) for x in (3, 5, 9, 13))
        src += ("kernel void acc(global uchar *g0, global uchar *g1, constant uchar *c0, local uchar *l0, local uchar *l1, "
                "global ulong16 *out, global const long *offs, global ulong *bases) {\n"
                "  local uchar ls[48] __attribute__((aligned(128)));\n  uchar p0[%d] __attribute__((aligned(128)));\n"
                "  for (int i = 0; i < %d; i++) p0[i] = (uchar)(i * 5 + offs[0]);\n"
                "  if (get_local_id(0)+get_local_id(1)+get_local_id(2) == 0) {\n"
                "    for (int i = 0; i < 48; i++) ls[i] = i; for (int i = 0; i < %d; i++) l0[i] = i; for (int i = 0; i < %d; i++) l1[i] = i; }\n"
                "  barrier(CLK_LOCAL_MEM_FENCE);\n  %s\n"
                "  if (me == 0) { bases[0] = (ulong)g0; bases[1] = (ulong)g1; bases[2] = (ulong)c0; bases[3] = (ulong)l0; bases[4] = (ulong)l1; bases[5] = (ulong)ls; }\n"
                "%s\n  { ulong sum = 0; for (int i = 0; i < %d; i++) sum += p0[i]; if (sum == 0xFFFFFFFF) bases[7] = sum; }\n}\n" % (NP_, NP_, sizes["l0"], sizes["l1"], WI, "\n".join(body), NP_))
        data = {k: np.frombuffer(rng.randbytes(sizes[k]), np.uint8).copy() for k in ("g0", "g1", "c0")}
        guard = [X.buffer(np.full(64, 0xA5, np.uint8)) for _ in range(2)]
        mem = {"g0": X.buffer(data["g0"]), "c0": X.buffer(data["c0"])}
        mem["g1"] = None if null1 else X.buffer(data["g1"], flags=flags1)
        guard.append(X.buffer(np.full(64, 0xA5, np.uint8)))
        out = X.buffer(np.zeros(128 * 10, np.uint8))
        offs = X.buffer(np.array([a["off"] for a in acc], np.int64))
        bases = X.buffer(np.zeros(8, np.uint64))
        k = X.kernel(X.program(src, rng.choice(["", "-cl-opt-disable"])), "acc")
        X.args(k, mem["g0"], mem["g1"], mem["c0"], Local(sizes["l0"]), Local(sizes["l1"]), out, offs, bases)
        # host mappings
        maps = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            o = rng.randrange(sizes["g0"])
            s = rng.randint(1, sizes["g0"] - o)
            fl = rng.choice([C["CL_MAP_READ"], C["CL_MAP_WRITE"], C["CL_MAP_READ"] | C["CL_MAP_WRITE"], C["CL_MAP_WRITE_INVALIDATE_REGION"]])
            e = ct.c_int32()
            p = L.clEnqueueMapBuffer(X.q, mem["g0"], 1, fl, o, s, 0, None, None, ct.byref(e))
            if e.value:
                v.append(("map:error", "clEnqueueMapBuffer -> %d" % e.value))
                continue
            if rng.random() < .25:
                L.clEnqueueUnmapMemObject(X.q, mem["g0"], p, 0, None, None)
                if any(m[3] == p for m in maps):  # same address mapped twice: either region may be the one left
                    maps = None
                    break
            else:
                if any(m[3] == p for m in maps):
                    maps = None
                    break
                maps.append((o, o + s, fl != C["CL_MAP_READ"], p))
        if maps is None:
            return v, nt, 0, None
        L.mon.mask("log")
        L.mon.clear()
        X.launch(k, g, l, off)
        obs = parse(L.mon.logs())
        B = X.read(bases, 64, dtype=np.uint64)
        base_addr = dict(zip(("g0", "g1", "c0", "l0", "l1", "ls"), [int(x) for x in B]))
        exp = Counter()
        written = {"g0": np.zeros(sizes["g0"], int), "g1": np.zeros(sizes["g1"], int)}
        model = {"g0": data["g0"].copy(), "g1": data["g1"].copy()}
        for a in acc:
            ent = entity(a["who"], l, g, off, dim)
            rw = {"load": ["read"], "vload": ["read"], "store": ["write"], "vstore": ["write"], "atomic": ["read", "write"], "struct": ["read"]}[a["op"]]
            cls = "valid" if a["valid"] else "invalid"
            nt.append("%s %s %s%d %s %s" % (a["base"], a["op"], a["t"], a["w"], cls, a["off"] < 0))
            for r in rw:
                if not a["valid"]:
                    addr = (base_addr[a["base"]] + a["off"]) & ((1 << 64) - 1) if a["base"] in base_addr else None
                    sp = ("global", "constant") if a["space"] == "constant" else (a["space"],)
                    exp[("oob", r, a["size"], sp[0], addr, ent, "acc", a["op"] == "struct")] += 1
                    continue
                if a["base"] == "g1" and flags1 == C["CL_MEM_READ_ONLY"] and r == "write":
                    exp[("msg", "Invalid write to read-only buffer", ent, "acc")] += 1
                if a["base"] == "g1" and flags1 == C["CL_MEM_WRITE_ONLY"] and r == "read":
                    exp[("msg", "Invalid read from write-only buffer", ent, "acc")] += 1
                if a["base"] == "g0":
                    for lo, hi, w, _ in maps:
                        if a["off"] < hi and a["off"] + a["size"] > lo:
                            if r == "write":
                                exp[("msg", "Invalid write to mapped buffer", ent, "acc")] += 1
                            elif w:
                                exp[("msg", "Invalid read from buffer mapped for writing", ent, "acc")] += 1
            if a["valid"] and a["base"] in written and a["op"] in ("store", "vstore", "atomic"):
                written[a["base"]][a["off"]:a["off"] + a["size"]] += 1
        # private addresses are not observable by the kernel without perturbing it: compare without address
        got = Counter()
        struct_exp = [x for x in exp if x[0] == "oob" and x[7]]
        norm = Counter()
        for x, n in exp.items():
            if x[0] == "oob":
                if not x[7]:
                    norm[x[:4] + ((x[4] if x[3] not in ("private",) else None),) + x[5:7]] += n
            else:
                norm[x] += n
        spare = {}
        for x in obs:
            if x[0] == "oob":
                y = x[:4] + ((x[4] if x[3] != "private" else None),) + x[5:]
                if y[3] == "constant":
                    y = y[:3] + ("global",) + y[4:]
                got[y] += 1
            else:
                got[x] += 1
        norm = Counter({(y[:3] + ("global",) + y[4:] if y[0] == "oob" and y[3] == "constant" else y): n for y, n in norm.items()})
        miss, extra = norm - got, got - norm
        # struct copies: at least one report of the right kind by the right work-item; possibly several, of part size
        smap = {}
        for x in struct_exp:
            smap.setdefault((x[1], {"constant": "global"}.get(x[3], x[3]), x[5]), 0)
        mm = set()
        for y in list(extra):
            if y[0] == "oob" and (y[1], y[3], y[5]) in smap:
                smap[(y[1], y[3], y[5])] += extra[y]
                del extra[y]
            elif y[0] == "msg" and any(a["op"] == "struct" and entity(a["who"], l, g, off, dim) == y[2] and a["base"] in ("g0", "g1") for a in acc):
                if norm[y]:   # a split struct copy repeats the same finding
                    del extra[y]
        desc = [(a["base"], a["op"], a["t"], a["w"], a["off"], a["who"]) for a in acc]
        for s, n in smap.items():
            if not n:
                v.append(("missed:struct:%s" % s[1], "struct copy %s not reported; sizes %s accesses %s" % (s, sizes, desc)))
        for y in miss:
            tag = "oob:%s" % y[3] if y[0] == "oob" else y[1]
            v.append(("missed:" + tag, "expected %s x%d, reported %s; sizes %s maps %s accesses %s" % (y, miss[y], dict(got), sizes, maps, desc)))
            break
        for y in extra:
            tag = "oob:%s" % y[3] if y[0] == "oob" else y[1]
            v.append(("false:" + tag, "unexpected %s x%d; expected %s; sizes %s maps %s accesses %s" % (y, extra[y], dict(norm), sizes, maps, desc)))
            break
        # contents: bytes not validly stored to are unchanged everywhere; single valid stores arrive
        for m in maps:
            L.clEnqueueUnmapMemObject(X.q, mem["g0"], m[3], 0, None, None)
        for nme in ("g0", "g1"):
            if mem[nme] is None:
                continue
            got_ = X.read(mem[nme], sizes[nme])
            free = written[nme] == 0
            if not np.array_equal(got_[free], data[nme][free]):
                v.append(("corrupt:" + nme, "byte never stored to changed; accesses %s" % desc))
        if not np.array_equal(X.read(mem["c0"], sizes["c0"]), data["c0"]):
            v.append(("corrupt:c0", "constant buffer changed; accesses %s" % desc))
        for gb in guard:
            if not (X.read(gb, 64) == 0xA5).all():
                v.append(("corrupt:guard", "guard buffer changed; accesses %s" % desc))
        O = X.read(out, 1280)
        for a in acc:  # valid loads return the data
            if a["valid"] and a["op"] in ("load", "vload", "struct") and a["base"] in ("g0", "g1", "c0"):
                d = data[a["base"]]
                if a["base"] in written and written[a["base"]][a["off"]:a["off"] + a["size"]].any():
                    continue
                n = a["size"] if a["w"] != 3 or a["op"] != "load" else 3 * TY[a["t"]]
                if not np.array_equal(O[a["i"] * 128:a["i"] * 128 + n], d[a["off"]:a["off"] + n]):
                    v.append(("load:value", "valid load returned wrong bytes; %s" % (desc[a["i"]],)))
            if a["valid"] and a["op"] in ("store", "vstore") and a["base"] in ("g0", "g1"):
                if (written[a["base"]][a["off"]:a["off"] + a["size"]] != 1).any():
                    continue
                if a["base"] == "g1" and flags1:
                    continue
                got_ = X.read(mem[a["base"]], sizes[a["base"]])[a["off"]:a["off"] + a["size"]]
                dt = {"char": "i1", "uchar": "u1", "short": "<i2", "ushort": "<u2", "int": "<i4", "uint": "<u4", "long": "<i8", "ulong": "<u8", "float": "<f4", "double": "<f8"}[a["t"]]
                n = 3 if a["w"] == 3 else a["size"] // TY[a["t"]]
                if not (got_.view(dt)[:n] == a["val"]).all():
                    v.append(("store:value", "valid store did not arrive; %s" % (desc[a["i"]],)))
        return v, nt, len(acc), dict(sizes=sizes, accesses=desc, reported=len(obs))
    finally:
        X.release()


def run_array(L, c, rng):
    """static array bounds, -cl-opt-disable so that indices stay visible"""
    v, nt = [], []
    ndim = rng.choice([1, 2, 3])
    dims = [rng.choice([1, 2, 3, 4, 7]) for _ in range(ndim)]
    where = rng.choice(["private", "local", "constant", "struct", "globalstruct"])
    nacc = rng.randint(1, 5)
    idx, body = [], []
    n = int(np.prod(dims))
    D = "".join("[%d]" % d for d in dims)
    decl = {"private": "int a%s; int *f = (int*)a; for (int i = 0; i < %d; i++) f[i] = i;" % (D, n),
            "local": "local int a%s; local int *f = (local int*)a; for (int i = 0; i < %d; i++) f[i] = i;" % (D, n),
            "constant": "",
            "struct": "T s; int *f = (int*)s.a; s.pre = 1; for (int i = 0; i < %d; i++) f[i] = i;" % n, "globalstruct": ""}[where]
    exp = Counter()
    A = {"struct": "s.a", "globalstruct": "gs->a"}.get(where, "a")
    allow_oob = Counter()
    for i in range(nacc):
        ix = [rng.choice([0, d - 1, d, d + 1, -1, rng.randrange(d)]) if rng.random() < .5 else rng.randrange(d) for d in dims]
        idx.append(ix)
        E = A + "".join("[ix[%d]]" % (i * 3 + j) for j in range(ndim))
        store = rng.random() < .4 and where != "constant"
        body.append("out[%d] = %s;" % (i, E) if not store else "%s = 42 + out[%d];" % (E, i))
        for x, d in zip(ix, dims):
            if not 0 <= x < d:
                exp["Index (%d) exceeds static array size (%d)" % (x, d)] += 1
    init = ",".join("%d" % i for i in range(n))
    src = "typedef struct { int pre; int a%s; int post[200]; } T;\n" % D
    if where == "constant":
        def nest(dd, base):
            if not dd:
                return str(base)
            step = int(np.prod(dd[1:])) if len(dd) > 1 else 1
            return "{" + ",".join(nest(dd[1:], base + i * step) for i in range(dd[0])) + "}"
        src += "constant int a%s = %s;\n" % (D, nest(dims, 0))
    src += "kernel void arr(global int *out, global const int *ix, global T *gs) {\n %s\n %s\n}\n" % (decl, "\n ".join(body))
    X = Ctx(L, {})
    try:
        out = X.buffer(np.zeros(16, np.int32))
        ib = X.buffer(np.array([(x + [0, 0, 0])[:3] for x in idx], np.int32))
        gs = X.buffer(np.zeros(4 * (1 + n + 200), np.uint8))
        k = X.kernel(X.program(src, "-cl-opt-disable"), "arr")
        X.args(k, out, ib, gs)
        L.mon.mask("log")
        L.mon.clear()
        X.launch(k, [1])
        obs = parse(L.mon.logs())
        got = Counter(x[1] for x in obs if x[0] == "msg")
        for y in exp - got:
            v.append(("missed:array:" + where, "%s x%d not reported, dims %s idx %s got %s" % (y, (exp - got)[y], dims, idx, dict(got))))
        for y in got - exp:
            v.append(("false:array:" + where, "%s reported, dims %s idx %s" % (y, dims, idx)))
        for x in obs:
            if x[0] == "oob":
                if all(0 <= i < d for ix in idx for i, d in zip(ix, dims)):
                    v.append(("false:oob", "in-bounds array access reported %s" % (x,)))
        O = X.read(out, 64, dtype=np.int32)
        stored = any("42 +" in b for b in body)
        for i, ix in enumerate(idx):
            if all(0 <= a < d for a, d in zip(ix, dims)) and not stored and where != "globalstruct":
                lin = 0
                for a, d in zip(ix, dims):
                    lin = lin * d + a
                if O[i] != lin:
                    v.append(("array:value", "a%s = %d want %d" % (ix, O[i], lin)))
        nt.append("array %s %s %d" % (where, dims, sum(exp.values())))
        return v, nt, nacc, dict(dims=dims, idx=idx, where=where)
    finally:
        X.release()


def run_async(L, c, rng):
    v, nt = [], []
    t = rng.choice(["char", "int", "float", "ulong", "int4", "short2"])
    es = {"char": 1, "int": 4, "float": 4, "ulong": 8, "int4": 16, "short2": 4}[t]
    ng, nl = rng.randint(1, 24), rng.randint(1, 24)
    num, stride = rng.randint(1, 26), rng.choice([1, 1, 2, 3])
    to_local = rng.random() < .5
    strided = stride != 1 or rng.random() < .3
    src = "kernel void as(global %s *g, local %s *l, global %s *o, uint num, uint stride) {\n" % (t, t, t)
    src += "  size_t i = get_local_id(0); for (size_t j = i; j < %d; j += get_local_size(0)) l[j] = (%s)(j+1); barrier(CLK_LOCAL_MEM_FENCE);\n" % (nl, t)
    a, b = ("l", "g") if to_local else ("g", "l")
    if strided:
        src += "  event_t e = async_work_group_strided_copy(%s, (const %s %s*)%s, num, stride, 0);\n" % (a, "global" if b == "g" else "local", t, b)
    else:
        src += "  event_t e = async_work_group_copy(%s, (const %s %s*)%s, num, 0);\n" % (a, "global" if b == "g" else "local", t, b)
    src += "  wait_group_events(1, &e);\n  for (size_t j = i; j < %d; j += get_local_size(0)) o[j] = l[j];\n}\n" % nl
    X = Ctx(L, {"NUM_THREADS": 1})
    try:
        gd = np.frombuffer(rng.randbytes(ng * es), np.uint8).copy()
        gb, ob = X.buffer(gd), X.buffer(np.zeros(nl * es, np.uint8))
        guard = X.buffer(np.full(64, 0xA5, np.uint8))
        k = X.kernel(X.program(src), "as")
        X.args(k, gb, Local(nl * es), ob, np.uint32(num), np.uint32(stride))
        L.mon.mask("log")
        L.mon.clear()
        X.launch(k, [4], [rng.choice([1, 2, 4])] if rng.random() < .0 else [4])
        obs = parse(L.mon.logs())
        bad_g = sum(1 for i in range(num) if (i * stride if True else i) >= ng)
        bad_l = sum(1 for i in range(num) if i >= nl)
        rd, wr = ("global", "local") if to_local else ("local", "global")
        bad = {rd: bad_g if rd == "global" else bad_l, wr: bad_g if wr == "global" else bad_l}
        for kind, sp in (("read", rd), ("write", wr)):
            got = [x for x in obs if x[0] == "oob" and x[1] == kind and x[3] == sp]
            if bool(got) != bool(bad[sp]):
                v.append(("%s:async:%s" % ("missed" if bad[sp] else "false", sp), "%s copy num %d stride %d global %d local %d type %s: %d bad elements, %d reports" % (
                    "to-local" if to_local else "to-global", num, stride, ng, nl, t, bad[sp], len(got))))
        if not bad_g and not bad_l and obs:
            v.append(("false:async", "valid async copy reported: %s" % (obs[0],)))
        if not (X.read(guard, 64) == 0xA5).all():
            v.append(("corrupt:guard", "async copy corrupted another buffer"))
        if not bad_g and not bad_l:
            loc = np.repeat(0, 0)
            G, O = X.read(gb, ng * es).reshape(ng, es), X.read(ob, nl * es).reshape(nl, es)
            if to_local:
                for i in range(num):
                    if not np.array_equal(O[i], gd.reshape(ng, es)[i * stride]):
                        v.append(("async:value", "element %d wrong, num %d stride %d" % (i, num, stride)))
                        break
        nt.append("async %s %s %s %s %s" % (t, to_local, strided, bool(bad_g), bool(bad_l)))
        return v, nt, 1, dict(kind="async", num=num, stride=stride, t=t)
    finally:
        X.release()


def run_dangling(L, c, rng):
    v, nt = [], []
    X = Ctx(L, {"NUM_THREADS": 1})
    try:
        src = ("kernel void sv(global uchar *p, global ulong *o) { *o = (ulong)p; }\n"
               "kernel void us(global const ulong *o, long off, global uint *r, int st) { global uint *q = (global uint*)(*o + off); if (st) *q = 7; else *r = *q; }")
        prog = X.program(src)
        o, r = X.buffer(np.zeros(1, np.uint64)), X.buffer(np.zeros(1, np.uint32))
        n = rng.choice([4, 64, 1000])
        err = ct.c_int32()
        sv, us = X.kernel(prog, "sv"), X.kernel(prog, "us")
        bufs = [L.clCreateBuffer(X.ctx, 0, n, None, ct.byref(err)) for _ in range(rng.randint(1, 4))]
        b = rng.choice(bufs)
        bufs.remove(b)
        X.args(sv, b, o)
        X.launch(sv, [1])
        wild = rng.random() < .3
        if rng.random() < .3 and not wild:   # still alive: must be silent
            alive = True
        else:
            alive = False
            # drop the kernel's argument reference as well
            if bufs:
                X.args(sv, bufs[0], o)
            else:
                X.args(sv, r, o)
            L.clReleaseMemObject(b)
        if wild:
            X.write(o, np.array([rng.choice([rng.getrandbits(64) | (1 << 63), 0xFFFFFFFFFFFFFFFC, 0x7FFF << 48, 4, 1 << 47])], np.uint64) & np.uint64(0xFFFFFFFFFFFFFFFC))
        st = rng.randrange(2)
        X.args(us, o, np.int64(0), r, np.int32(st))
        L.mon.mask("log")
        L.mon.clear()
        X.launch(us, [1])
        obs = parse(L.mon.logs())
        want = 0 if alive else 1
        got = [x for x in obs if x[0] == "oob" and x[1] == ("write" if st else "read") and x[2] == 4 and x[3] == "global"]
        if len(got) != want or len(obs) != want:
            v.append(("%s:dangling" % ("missed" if want else "false"), "pointer to %s buffer: %s" % ("live" if alive else ("wild" if wild else "released"), obs)))
        if alive:
            L.clReleaseMemObject(b)
        for x in bufs:
            L.clReleaseMemObject(x)
        nt.append("dangling %s %s %s" % (alive, wild, st))
        return v, nt, 1, dict(kind="dangling", alive=alive, wild=wild)
    finally:
        X.release()


def run_case(L, c):
    rng = random.Random(c["seed"])
    f = dict(mix=run_mix, array=run_array, dangling=run_dangling)
    f["async"] = run_async
    v, nt, n, sample = f[c["kind"]](L, c, rng)
    return dict(violations=v, nontrivial=nt, evals=n, sample=sample, stats={c["kind"] + "_kernels": 1, "accesses": n})
