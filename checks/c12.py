"""C12: buffer command histories against a byte-array model.  Oracle: the whole contents of
every buffer and every host array (with guard bytes) at observation points."""
import ctypes as ct, random
import numpy as np
import ocl
from ocl import Ctx, Lib, C, sizes, ptrs

PROP = "C12"
RULE = ("random histories of 12-40 buffer commands (read/write/copy/fill/rect/map/unmap/migrate/kernel, blocking or not) "
        "over buffers and sub-buffers with mixed host-pointer flags, contents compared with a byte model at every sync point; "
        "non-trivial = history with >=8 executed commands, distinct by command-kind sequence hash")
ASSUMPTIONS = ["commands on one in-order queue; regions mapped for writing are not touched by other commands while mapped"]
G = 32  # guard bytes

KSRC = "kernel void inc(global uchar *p, uint n, uchar v) { size_t i = get_global_id(0); if (i < n) p[i] = p[i]*3 + v + (uchar)i; }"


def cases(rng, tier):
    return [dict(seed=rng.randrange(1 << 30), n=rng.randint(12, 40)) for _ in range(5000 if tier == "quick" else 60000)]


def setup_worker(env):
    L = Lib(env["build"])
    L.err = ct.c_int32()
    return L


class Host:
    def __init__(self, n, rng):
        self.a = np.frombuffer(rng.randbytes(n + 2 * G), np.uint8).copy()
        self.m = self.a.copy()
        self.n = n

    def ptr(self, off=0):
        return self.a.ctypes.data + G + off

    @property
    def model(self):
        return self.m[G:G + self.n]


class Buf:
    def __init__(self, mem, root, origin, size, name):
        self.mem, self.root, self.origin, self.size, self.name = mem, root, origin, size, name
        self.maps = []

    def view(self):
        return self.root.data[self.origin:self.origin + self.size]


class Root:
    def __init__(self, data):
        self.data = data
        self.mapped = []  # (lo, hi, writable)


def rect_index(origin, region, rp, sp):
    r = np.arange(region[0])
    base = [origin[0] + (origin[1] + y) * rp + (origin[2] + z) * sp for z in range(region[2]) for y in range(region[1])]
    return np.concatenate([b + r for b in base]).astype(np.int64)


def run_case(L, c):
    rng = random.Random(c["seed"])
    X = Ctx(L, {"NUM_THREADS": 1})
    v, trace = [], []
    stats = {}
    err = L.err
    keep = []
    L.mon.mask("log")
    L.mon.clear()
    try:
        k = X.kernel(X.program(KSRC), "inc")
        roots, bufs, hps = [], [], []
        for i in range(rng.randint(2, 4)):
            n = rng.choice([1, 7, 64, 100, 256, 1000, 4096])
            kind = rng.choice(["plain", "copy", "use", "alloc", "alloccopy"])
            fl = rng.choice([0, C["CL_MEM_READ_WRITE"]])
            d = np.frombuffer(rng.randbytes(n), np.uint8).copy()
            r = Root(d.copy())
            if kind == "plain" or kind == "alloc":
                fl |= C["CL_MEM_ALLOC_HOST_PTR"] if kind == "alloc" else 0
                m = L.clCreateBuffer(X.ctx, fl, n, None, ct.byref(err))
                X.write(m, d)
            elif kind in ("copy", "alloccopy"):
                fl |= C["CL_MEM_COPY_HOST_PTR"] | (C["CL_MEM_ALLOC_HOST_PTR"] if kind == "alloccopy" else 0)
                tmp = d.copy()
                m = L.clCreateBuffer(X.ctx, fl, n, tmp.ctypes.data, ct.byref(err))
                tmp[:] ^= 0xFF  # the copy must be taken at creation
            else:
                h = Host(n, rng)
                h.a[G:G + n] = d
                h.m = h.a.copy()
                hps.append((h, r))
                m = L.clCreateBuffer(X.ctx, fl | C["CL_MEM_USE_HOST_PTR"], n, h.ptr(), ct.byref(err))
                r.host = h
            if err.value:
                return dict(violations=[("create:%s" % kind, "clCreateBuffer(%d) -> %d" % (n, err.value))])
            X.objs.append(("clReleaseMemObject", m))
            b = Buf(m, r, 0, n, "b%d" % i)
            roots.append((r, b))
            bufs.append(b)
            for j in range(rng.choice([0, 1, 2])):
                o = rng.choice([0, 0, 128 * rng.randint(0, n // 128)]) if n > 128 else 0
                sz = rng.randint(1, n - o) if n > o else 0
                if sz:
                    reg = (ct.c_size_t * 2)(o, sz)
                    s = L.clCreateSubBuffer(m, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], ct.byref(reg), ct.byref(err))
                    if err.value:
                        v.append(("subbuffer", "origin %d size %d of %d -> %d" % (o, sz, n, err.value)))
                        continue
                    X.objs.append(("clReleaseMemObject", s))
                    bufs.append(Buf(s, r, o, sz, "b%ds%d" % (i, j)))
        hosts = []
        mapped = []

        def newhost(n):
            h = Host(n, rng)
            hosts.append(h)
            return h

        def conflict(b, lo, hi, write):
            lo, hi = lo + b.origin, hi + b.origin
            return any(not (hi <= a or lo >= z) and (write or w) for a, z, w in b.root.mapped)

        def ok(what, r, dd=""):
            if r:
                v.append(("rejected:" + what, "valid %s %s -> %d; history %s" % (what, dd, r, trace[-12:])))
            return r == 0

        def compare():
            if L.clFinish(X.q):
                v.append(("finish", "clFinish failed"))
            for r, b in roots:
                if any(w for _, _, w in r.mapped):
                    continue
                got = X.read(b.mem, b.size)
                if not np.array_equal(got, r.data):
                    i = int(np.nonzero(got != r.data)[0][0])
                    v.append(("contents:%s" % (trace[-1][0] if trace else "init"), "buffer %s byte %d is %d, model %d (%d differ); history %s" %
                              (b.name, i, got[i], r.data[i], int((got != r.data).sum()), trace[-14:])))
                    return False
            for h in hosts:
                if not np.array_equal(h.a, h.m):
                    i = int(np.nonzero(h.a != h.m)[0][0])
                    v.append(("host:%s" % trace[-1][0], "host array byte %d is %d, model %d; history %s" % (i - G, h.a[i], h.m[i], trace[-14:])))
                    return False
            for h, r in hps:  # guards around user host pointers
                if not (np.array_equal(h.a[:G], h.m[:G]) and np.array_equal(h.a[-G:], h.m[-G:])):
                    v.append(("hostptr:guard", "bytes outside CL_MEM_USE_HOST_PTR region changed; history %s" % trace[-14:]))
                    return False
            return True

        def region(b, same=None):
            n = b.size
            o = rng.choice([0, rng.randrange(n), max(0, n - 1)])
            s = rng.choice([1, n - o, rng.randint(1, n - o)])
            return o, min(s, n - o)

        def rect_in(n, reg=None):
            """random origin/pitches for a region inside n bytes; None if impossible.  pitch 0 = default"""
            for _ in range(60):
                rg = reg or [rng.choice([1, 2, 3, 4, 8, rng.randint(1, 40)]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 1, 2, 3])]
                rp = rng.choice([0, rg[0], rg[0] + rng.randint(0, 9)])
                erp = rp or rg[0]
                minsp = erp * rg[1]
                sp = rng.choice([0, minsp, minsp + erp * rng.randint(0, 2)])
                if rng.random() < .3:
                    sp = (minsp + rng.randint(0, 5))
                esp = sp or minsp
                og = [rng.choice([0, 0, rng.randint(0, 12)]), rng.choice([0, 0, rng.randint(0, 3)]), rng.choice([0, 0, rng.randint(0, 2)])]
                end = og[0] + og[1] * erp + og[2] * esp + (rg[2] - 1) * esp + (rg[1] - 1) * erp + rg[0]
                if end <= n and og[0] + rg[0] <= erp + (10 ** 6 if True else 0):
                    return rg, og, rp, sp, erp, esp, end
                if reg is None and rng.random() < .5:
                    continue
            return None

        S3 = ct.c_size_t * 3
        ncmd = 0
        for step in range(c["n"]):
            kind = rng.choice(["read", "write", "copy", "fill", "readrect", "writerect", "copyrect", "map", "unmap", "unmap", "migrate",
                               "kernel", "sync", "copyself"])
            b = rng.choice(bufs)
            blocking = rng.random() < .4
            if kind == "read":
                o, s = region(b)
                if conflict(b, o, o + s, False):
                    continue
                h = newhost(s)
                trace.append(("read", b.name, o, s, blocking))
                if ok(kind, L.clEnqueueReadBuffer(X.q, b.mem, blocking, o, s, h.ptr(), 0, None, None), (o, s)):
                    h.model[:] = b.view()[o:o + s]
                    if blocking and not np.array_equal(h.a, h.m):
                        v.append(("blockingread", "blocking read returned before the data arrived; history %s" % trace[-14:]))
                        break
            elif kind == "write":
                o, s = region(b)
                if conflict(b, o, o + s, True):
                    continue
                h = newhost(s)
                trace.append(("write", b.name, o, s, blocking))
                if ok(kind, L.clEnqueueWriteBuffer(X.q, b.mem, blocking, o, s, h.ptr(), 0, None, None), (o, s)):
                    b.view()[o:o + s] = h.model
                if blocking and rng.random() < .5:  # host may be reused after a blocking write
                    h.a[:] ^= 0x5A
                    h.m = h.a.copy()
            elif kind in ("copy", "copyself"):
                d = rng.choice(bufs) if kind == "copy" else b
                o, s = region(b)
                s = min(s, d.size)
                do = rng.randint(0, d.size - s)
                if d.root is b.root and not (o + b.origin + s <= do + d.origin or do + d.origin + s <= o + b.origin):
                    continue
                if conflict(b, o, o + s, False) or conflict(d, do, do + s, True):
                    continue
                trace.append(("copy", b.name, o, d.name, do, s))
                if ok(kind, L.clEnqueueCopyBuffer(X.q, b.mem, d.mem, o, do, s, 0, None, None), (b.name, o, d.name, do, s)):
                    d.view()[do:do + s] = b.view()[o:o + s].copy()
            elif kind == "fill":
                ps = rng.choice([1, 2, 4, 8, 16, 32, 64, 128])
                if ps > b.size:
                    continue
                no = b.size // ps
                o = rng.randrange(no)
                cnt = rng.choice([1, no - o, rng.randint(1, no - o)])
                if conflict(b, o * ps, (o + cnt) * ps, True):
                    continue
                pat = np.frombuffer(rng.randbytes(ps), np.uint8).copy()
                cp = pat.copy()
                trace.append(("fill", b.name, ps, o * ps, cnt * ps))
                if ok(kind, L.clEnqueueFillBuffer(X.q, b.mem, cp.ctypes.data, ps, o * ps, cnt * ps, 0, None, None), (ps, o * ps, cnt * ps)):
                    b.view()[o * ps:(o + cnt) * ps] = np.tile(pat, cnt)
                cp[:] ^= 0xFF  # the pattern may be reused right after the call
            elif kind in ("readrect", "writerect"):
                R = rect_in(b.size)
                if not R:
                    continue
                rg, bo, brp, bsp, erp, esp, end = R
                hmax = 4000
                H = rect_in(hmax, rg)
                if not H:
                    continue
                _, ho, hrp, hsp, ehrp, ehsp, hend = H
                w = kind == "writerect"
                if conflict(b, 0, b.size, w):
                    continue
                bi = rect_index(bo, rg, erp, esp)
                hi = rect_index(ho, rg, ehrp, ehsp)
                if len(set(bi.tolist())) != len(bi) or len(set(hi.tolist())) != len(hi):
                    continue
                h = newhost(hend)
                trace.append((kind, b.name, rg, bo, brp, bsp, ho, hrp, hsp, blocking))
                f = L.clEnqueueWriteBufferRect if w else L.clEnqueueReadBufferRect
                r = f(X.q, b.mem, blocking, S3(*bo), S3(*ho), S3(*rg), brp, bsp, hrp, hsp, h.ptr(), 0, None, None)
                valid_pitch = (esp % erp == 0) and (ehsp % ehrp == 0)
                if r and not valid_pitch:
                    trace.pop()
                    continue
                if ok(kind, r, trace[-1]):
                    if w:
                        b.view()[bi] = h.model[hi]
                    else:
                        h.model[hi] = b.view()[bi]
            elif kind == "copyrect":
                d = rng.choice(bufs)
                R = rect_in(b.size)
                if not R:
                    continue
                rg, so, srp, ssp, esrp, essp, send = R
                D = rect_in(d.size, rg)
                if not D:
                    continue
                _, do, drp, dsp, edrp, edsp, dend = D
                if d.root is b.root:
                    if d is not b:
                        continue
                    # same buffer: OpenCL requires equal pitches and disjoint regions
                    drp, dsp, edrp, edsp = srp, ssp, esrp, essp
                if conflict(b, 0, b.size, False) or conflict(d, 0, d.size, True):
                    continue
                si, di = rect_index(so, rg, esrp, essp), rect_index(do, rg, edrp, edsp)
                if di.max() >= d.size or len(set(di.tolist())) != len(di) or len(set(si.tolist())) != len(si):
                    continue
                if d is b and (min(si.max(), di.max()) >= max(si.min(), di.min())):
                    continue
                trace.append((kind, b.name, d.name, rg, so, do, srp, ssp, drp, dsp))
                r = L.clEnqueueCopyBufferRect(X.q, b.mem, d.mem, S3(*so), S3(*do), S3(*rg), srp, ssp, drp, dsp, 0, None, None)
                if r and not (essp % esrp == 0 and edsp % edrp == 0):
                    trace.pop()
                    continue
                if ok(kind, r, trace[-1]):
                    d.view()[di] = b.view()[si].copy()
            elif kind == "map":
                o, s = region(b)
                fl = rng.choice(["CL_MAP_READ", "CL_MAP_WRITE", "CL_MAP_READWRITE", "CL_MAP_WRITE_INVALIDATE_REGION"])
                w = fl != "CL_MAP_READ"
                if conflict(b, o, o + s, w):
                    continue
                flv = C["CL_MAP_READ"] | C["CL_MAP_WRITE"] if fl == "CL_MAP_READWRITE" else C[fl]
                trace.append(("map", b.name, o, s, fl, blocking))
                p = L.clEnqueueMapBuffer(X.q, b.mem, blocking, flv, o, s, 0, None, None, ct.byref(err))
                if not ok(kind, err.value, trace[-1]):
                    continue
                if not blocking:
                    ok("finish", L.clFinish(X.q))
                arr = np.frombuffer((ct.c_uint8 * s).from_address(p), np.uint8)
                if fl != "CL_MAP_WRITE_INVALIDATE_REGION" and not np.array_equal(arr, b.view()[o:o + s]):
                    v.append(("map:contents", "mapped region differs from buffer contents; history %s" % trace[-14:]))
                    break
                if hasattr(b.root, "host") and p != b.root.host.ptr(b.origin + o):
                    v.append(("map:hostptr", "mapped pointer of a CL_MEM_USE_HOST_PTR buffer is not host_ptr+offset"))
                ent = (b.origin + o, b.origin + o + s, w)
                b.root.mapped.append(ent)
                mapped.append((b, o, s, w, p, arr, ent))
            elif kind == "unmap":
                if not mapped:
                    continue
                m = mapped.pop(rng.randrange(len(mapped)))
                b, o, s, w, p, arr, ent = m
                if w:
                    new = np.frombuffer(rng.randbytes(s), np.uint8)
                    arr.flags.writeable or None
                    ct.memmove(p, new.tobytes(), s)
                    b.view()[o:o + s] = new
                trace.append(("unmap", b.name, o, s, w))
                ok(kind, L.clEnqueueUnmapMemObject(X.q, b.mem, p, 0, None, None))
                b.root.mapped.remove(ent)
            elif kind == "migrate":
                trace.append(("migrate", b.name))
                ok(kind, L.clEnqueueMigrateMemObjects(X.q, 1, ptrs([b.mem]), rng.choice([0, 1]), 0, None, None))
            elif kind == "kernel":
                if conflict(b, 0, b.size, True):
                    continue
                n = rng.randint(1, b.size)
                val = rng.randrange(256)
                X.args(k, b.mem, np.uint32(n), np.uint8(val))
                gs = min(n, 300)
                n = gs if n > gs else n
                X.args(k, b.mem, np.uint32(n), np.uint8(val))
                trace.append(("kernel", b.name, n, val))
                X.launch(k, [gs], finish=blocking)
                vv = b.view()
                vv[:n] = (vv[:n].astype(np.int64) * 3 + val + np.arange(n)).astype(np.uint8)
            else:
                trace.append(("sync",))
                rng.choice([lambda: L.clFlush(X.q), lambda: L.clFinish(X.q)])()
                if not compare():
                    break
            stats[trace[-1][0]] = stats.get(trace[-1][0], 0) + 1
            ncmd += 1
        while mapped and not v:
            b, o, s, w, p, arr, ent = mapped.pop()
            ok("unmap", L.clEnqueueUnmapMemObject(X.q, b.mem, p, 0, None, None))
            b.root.mapped.remove(ent)
        if not v:
            trace.append(("end",))
            compare()
    finally:
        L.clFinish(X.q)
        X.release()
    del keep
    return dict(violations=v, stats=stats, evals=ncmd, nontrivial=[str([t[0] for t in trace])] if ncmd >= 8 else False,
                sample=[list(map(str, t)) for t in trace[:10]])
