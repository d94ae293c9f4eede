"""C01: kernels compute what OpenCL C defines.  Oracle: the same generated source compiled natively by the system clang's OpenCL front
end (another LLVM release, real hardware arithmetic) and run item by item; compared leaf by leaf, for several build option sets."""
import ctypes as ct
import os, random, re, struct, subprocess
import numpy as np
import clgen, ocl
from ocl import Ctx, Lib, Local, CLError

PROP = "C01"
RULE = ("generated kernels free of undefined behaviour (all scalar/vector types and widths, structs, arrays, pointers in every address space, conversions, control flow, calls) "
        "are built by the simulator under several option sets and by the native compiler; every observed leaf of every work-item must be equal (any NaN equals any NaN); "
        "non-trivial = distinct programs compared under at least two option sets")
ASSUMPTIONS = ["clang 20 at -O0 compiles the common subset correctly for the host (a mismatch counts only if clang 18 at -O2 gives the same reference)",
               "float operations are IEEE exact (OpenCL allows less for division; the simulator and the host both give the exact result)"]
CASE_TIMEOUT = 240
RT = r'''
unsigned long vm_ids[16];
unsigned long vm_id(unsigned int i) { return vm_ids[i & 15]; }
'''
NP = dict(char="i1", uchar="u1", short="i2", ushort="u2", int="i4", uint="u4", long="i8", ulong="u8", float="f4", double="f8")


def cases(rng, tier):
    n = 900 if tier == "quick" else 9000
    return [dict(seed=rng.randrange(1 << 30), fp=rng.random() < .7) for _ in range(n)]


def setup_worker(env):
    L = Lib(env["build"])
    L.wd = env["wd"] + "/%d" % os.getpid()
    os.makedirs(L.wd, exist_ok=True)
    open(L.wd + "/rt.c", "w").write(RT)
    subprocess.check_call(["clang-18", "-O2", "-fPIC", "-c", L.wd + "/rt.c", "-o", L.wd + "/rt.o"])
    L.count = 0
    return L


def native(L, flags, cc="/usr/lib/llvm-20/bin/clang"):
    L.count += 1
    so = L.wd + "/k%d.so" % L.count
    subprocess.run([cc, "-x", "cl", "-cl-std=CL1.2", "-cl-no-stdinc", "-DNATIVE", "-Wno-everything", *flags, "-ffp-contract=off", "-fPIC", "-fno-math-errno",
                    "-march=x86-64-v3", "-c", L.wd + "/k.cl", "-o", L.wd + "/k.o"], check=True, capture_output=True)
    san = [f for f in flags if f.startswith("-fsanitize")]
    subprocess.run(["clang-18", "-shared", *san, L.wd + "/k.o", L.wd + "/rt.o", "-o", so], check=True, capture_output=True)
    return so


import _ctypes


def run_native(so, name, args, gsz, lsz, ids):
    l = ct.CDLL(so)
    try:
        v = (ct.c_ulong * 16).in_dll(l, "vm_ids")
        f = getattr(l, "drv_" + name)
        f.restype = None
        arr = (ct.c_void_p * len(args))(*[a.ctypes.data for a in args])
        for gid, lid, grp in ids:
            for d in range(3):
                v[d], v[3 + d], v[6 + d], v[9 + d], v[12 + d] = gid[d], lid[d], grp[d], gsz[d], lsz[d]
            f(arr)
    finally:
        _ctypes.dlclose(l._handle)


def rand_bytes(r, t, count):
    """count elements of type t with interesting leaf values"""
    size, _ = clgen.sizealign(t)
    b = bytearray(r.randbytes(size * count))
    for i in range(count):
        for off, lt, _ in clgen.leaves(t, i * size):
            n = clgen.SIZE[lt]
            if lt in clgen.FLTS:
                x = r.choice([0.0, -0.0, 1.0, -2.5, r.uniform(-100, 100), r.uniform(-1e6, 1e6), r.gauss(0, 1e-3), 3e9, -1e19, float("inf"), 1e-40, 0.5])
                b[off:off + n] = struct.pack("<f" if n == 4 else "<d", x)
            elif r.random() < .6:
                v = r.choice([0, 1, 2, 3, -1, -2, 7, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, r.randrange(-20, 20), r.randrange(256)])
                b[off:off + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    return bytes(b)


def aligned(data, al=128):
    raw = np.zeros(len(data) + al, np.uint8)
    o = -raw.ctypes.data % al
    a = raw[o:o + len(data)]
    a[:] = np.frombuffer(data, np.uint8)
    return a


def run_case(L, c):
    r = random.Random(c["seed"])
    v = []
    g = clgen.Gen(r, c["fp"])
    src = g.program(r.choice([1, 2, 2, 3]))
    open(L.wd + "/k.cl", "w").write(src)
    try:
        so = native(L, ["-O0"])
    except subprocess.CalledProcessError as e:
        err = e.stderr.decode()
        if "PLEASE submit a bug report" in err or e.returncode < 0 or e.returncode > 128 or not err:  # crash of the reference compiler: the simulator embeds the same front end
            return dict(stats={"inconclusive_reference_crash": 1})
        return dict(machinery="native build of generated kernel failed (seed %d): %s" % (c["seed"], err[:600]))
    opts = ["", "-cl-opt-disable"]
    opts.append(r.choice(["-O1", "-O2", "-O3", "-Os", "-cl-std=CL2.0", "-cl-std=CL1.2", "-O0", "-cl-std=CL3.0", "-cl-std=CL1.2 -O2", "-w -Werror -O1"]))
    lx = r.choice([1, 2, 4, 8])
    gx = lx * r.choice([1, 2])
    gsz, lsz = (gx, 1, 1), (lx, 1, 1)
    ids = [((x, 0, 0), (x % lx, 0, 0), (x // lx, 0, 0)) for x in range(gx)]
    n = gx
    X = Ctx(L, {"NUM_THREADS": r.choice([1, 1, 2])})
    evals = 0
    try:
        data = {}
        for nm, params in g.kernels:
            data[nm] = []
            for pk, t, cnt in params:
                if pk == "in":
                    data[nm].append(rand_bytes(r, t, cnt * n))
                elif pk == "val":
                    data[nm].append(rand_bytes(r, t, 1))
                elif pk == "out":
                    data[nm].append(bytes([0xA5]) * (clgen.sizealign(t)[0] * n))
                else:
                    data[nm].append(bytes(clgen.sizealign(t)[0] * cnt * lx))
        want = {}
        for nm, params in g.kernels:
            a = [aligned(d) for d in data[nm]]
            run_native(so, nm, a, gsz, lsz, ids)
            want[nm] = a
        for opt in opts:
            try:
                prog = X.program(src, opt)
            except CLError as e:
                v.append(("build:%s" % opt, "valid program rejected with options %r: %s" % (opt, str(e)[:700])))
                continue
            for nm, params in g.kernels:
                try:
                    k = X.kernel(prog, nm)
                except CLError as e:
                    v.append(("kernel", "clCreateKernel fails for valid kernel %s, options %r: %d" % (nm, opt, e.code)))
                    continue
                args, outs = [], []
                for (pk, t, cnt), d in zip(params, data[nm]):
                    if pk == "in":
                        args.append(X.buffer(np.frombuffer(d, np.uint8)))
                    elif pk == "val":
                        args.append(d)
                    elif pk == "local":
                        args.append(Local(len(d)))
                    else:
                        args.append(X.buffer(np.frombuffer(d, np.uint8)))
                        outs.append((args[-1], len(d)))
                X.args(k, *args)
                L.mon.mask("log")
                L.mon.clear()
                X.launch(k, [gx], [lx])
                logs = [m for ty, m in L.mon.logs() if ty >= 2]
                if logs:
                    m = logs[0].split("\n")
                    d = re.sub(r"[%@]\S+|0x[0-9a-f]+|-?\d\d+", "#", m[1] if "FATAL" in m[0] and len(m) > 1 else m[0])
                    v.append(("diagnostic:" + d[:90], "diagnostic for a kernel without errors (%s, options %r): %s" % (nm, opt, logs[0][:500])))
                    continue
                oi = 0
                for pi, (pk, t, cnt) in enumerate(params):
                    if pk != "out":
                        continue
                    m, size = outs[oi]
                    oi += 1
                    got = X.read(m, size)
                    bad = compare(t, n, got.tobytes(), want[nm][pi].tobytes())
                    evals += n
                    if bad:
                        i, path, lt, a, b = bad
                        ok = confirm(L, nm, data[nm], pi, t, n, gsz, lsz, ids, want[nm][pi].tobytes())
                        if ok is not True:
                            return dict(violations=v, evals=evals, stats={"inconclusive_generator": 1}, machinery=None)
                        v.append(("value:%s" % lt, "kernel %s options %r: item %d output %d%s (%s) is %s, native gives %s" % (nm, opt, i, oi - 1, path, lt, a, b)))
            if v:
                break
        return dict(violations=v, nontrivial=["%d" % c["seed"]], evals=evals, stats={"programs": 1, "kernels": len(g.kernels)}, sample=dict(c, lines=src.count("\n")))
    finally:
        X.release()
        if os.path.exists(so):
            os.unlink(so)


def compare(t, n, got, want):
    size, _ = clgen.sizealign(t)
    lv = clgen.leaves(t)
    if got == want:
        return None
    for i in range(n):
        for off, lt, path in lv:
            o = i * size + off
            k = clgen.SIZE[lt]
            a, b = got[o:o + k], want[o:o + k]
            if a != b:
                x, y = np.frombuffer(a, "<" + NP[lt])[0], np.frombuffer(b, "<" + NP[lt])[0]
                if lt in clgen.FLTS and x != x and y != y:
                    continue
                return i, path, lt, repr(x) + " (0x%s)" % a[::-1].hex(), repr(y) + " (0x%s)" % b[::-1].hex()
    return None


def confirm(L, nm, data, pi, t, n, gsz, lsz, ids, want):
    """the reference must not depend on the native optimisation level, and UBSan must stay silent (trap otherwise)"""
    so = native(L, ["-O2"], "clang-18")
    a = [aligned(d) for d in data]
    run_native(so, nm, a, gsz, lsz, ids)
    os.unlink(so)
    return compare(t, n, a[pi].tobytes(), want) is None
