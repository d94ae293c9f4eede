"""C21: ThreadSanitizer over multi-threaded simulation and several host threads, plus integrity of messages and results."""
import ctypes as ct, importlib, os, random, re, threading
import numpy as np
import ocl
from ocl import Ctx, Lib, Local, C, sizes, ptrs

PROP = "C21"
RULE = ("the workloads of the other checks (launch geometries, barriers and async copies, atomics, invalid accesses, race detection, generated kernels, built-ins, images) under ThreadSanitizer with 2-8 worker "
        "threads, schedule jitter and random analyses; message kernels whose every error and printf line must appear exactly once and complete; 2-4 host threads with their own queues, buffers, programs, "
        "kernels and events in shared or separate contexts, each checking its results and reference counts, with user events set across threads; non-trivial = distinct workload kind, thread count and analysis set")
ASSUMPTIONS = ["races of a simulated kernel that itself is racy (only in the race-detector workloads) are not counted against the simulator",
               "reports whose stacks contain no simulator frame (LLVM, Python) are ignored"]
VARIANT = os.environ.get("VERIF_VARIANT", "tsan")
CASE_TIMEOUT = 240
FOREIGN = {"c04": 60, "c05": 60, "c06": 60, "c07": 120, "c08": 120, "c01": 12, "c02": 24, "c03": 12, "c14": 24}
ENVS = [{}, {"DATA_RACES": 1}, {"INST_COUNTS": 1}, {"INST_COUNTS": 1, "DATA_RACES": 1}, {"UNINITIALIZED": 1}, {"UNINITIALIZED": 1, "INST_COUNTS": 1, "DATA_RACES": 1}]


def cases(rng, tier):
    f = 1 if tier == "quick" else 20
    out = []
    for m, n in FOREIGN.items():
        mod = importlib.import_module(m)
        cs = mod.cases(rng, "quick")
        for c in rng.sample(cs, min(n * f, len(cs))):
            out.append(dict(k="foreign", mod=m, case=c, threads=rng.choice([2, 3, 4, 8]), env=rng.randrange(len(ENVS)), jitter=rng.choice([0, 0, 3, 10])))
    for _ in range(60 * f):
        out.append(dict(k="msg", seed=rng.randrange(1 << 30)))
    for _ in range(90 * f):
        out.append(dict(k="host", seed=rng.randrange(1 << 30)))
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env = env
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    w.mods = {}
    w.wd = env["wd"]
    return w


DATA = {"load", "store", "copy", "atomic", "atomicCmpxchg"}


def filter_san(case, san):
    if case.get("mod") in ("c08", "c07", "c06"):
        # these kernels race (or mix sizes) on purpose; the bytes of their buffers are not the simulator's own state
        def data(n):
            return n.startswith("oclgrind::Memory::") and n.split("::")[-1] in DATA or n in ("oclgrind::RaceDetector::registerAccess", "oclgrind::Memory::getPointer")
        return [(k, t) for k, t in san if not (k.startswith("tsan:data race:") and all(map(data, k[15:].split("|"))))]
    return san


def run_case(w, c):
    return dict(foreign=foreign, msg=messages, host=host)[c["k"]](w, c)


def foreign(w, c):
    """a case of another check with several worker threads and analyses; results are judged by that check, memory ordering by TSan"""
    m = c["mod"]
    if m not in w.mods:
        mod = importlib.import_module(m)
        w.mods[m] = (mod, mod.setup_worker(w.env))
    mod, mw = w.mods[m]
    extra = dict(ENVS[c["env"]])
    if m in ("c07", "c08"):
        extra = {}
    base = Ctx.__init__

    def init(self, lib, env=None, queue_props=0, monitor=True):
        e = dict(env or {})
        e.update(extra)
        e["NUM_THREADS"] = c["threads"]
        base(self, lib, e, queue_props, monitor)
    Ctx.__init__ = init
    w.L.mon.jitter(c["jitter"], 7)
    so = Capture(w)
    try:
        r = mod.run_case(mw, c["case"])
    finally:
        Ctx.__init__ = base
        w.L.mon.jitter(0)
        so.end()
    key = "%s t%d %s" % (m, c["threads"], sorted(extra))
    v = []
    if not extra and m not in ("c01", "c02", "c03"):
        v = [("foreign:%s:%s" % (m, k), t) for k, t in r.get("violations") or []]
    out = dict(violations=v, nontrivial=[key], stats={m: 1}, evals=1, sample=dict(kind=key))
    if r.get("machinery"):
        out["machinery"] = r["machinery"]
    return out


class Capture:
    """captures file descriptor 1 of the process"""

    def __init__(self, w):
        self.libc = ct.CDLL(None)
        self.libc.fflush(None)
        self.path = w.wd + "/stdout"
        self.save = os.dup(1)
        fd = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.close(fd)

    def end(self):
        if self.save is None:
            return ""
        self.libc.fflush(None)
        os.dup2(self.save, 1)
        os.close(self.save)
        self.save = None
        return open(self.path, errors="replace").read()


MSRC = r'''
constant int table[4] = {3, 1, 4, 1};
float helper(float x, int n) { float s = 0; for (int i = 0; i < n; i++) s += sin(x + i) * table[i & 3]; return s; }
kernel void msg(global int *out, global const int *what, local int *l, uint n, global int *ctr) {
  size_t i = get_global_id(0);
  int w = what[i];
  int priv[8];
  for (int j = 0; j < 8; j++) priv[j] = w * j;
  l[get_local_id(0)] = w;
  barrier(CLK_LOCAL_MEM_FENCE);
  int v = priv[w & 7] + (int)helper(i, 3) * 0 + l[get_local_size(0) - 1 - get_local_id(0)] * 0;
  if (w & 1) printf("line %d of %s value %d %f\n", (int)i, "kernel", v, 0.5f + i);
  if (w & 2) out[n + 1 + i] = 1;
  if (w & 4) v += ((volatile global int *)out)[n * 2 + 100 + i] & 0;
  if (w & 8) atomic_add(ctr, 1);
  if (w & 16) { float4 f = (float4)(i); f = normalize(f) + convert_float4(convert_int4_sat(f)); v += (int)(f.x * 0.0f); }
  out[i] = v + (int)i;
}
'''


def messages(w, c):
    L = w.L
    r = random.Random(c["seed"])
    th = r.choice([2, 3, 4, 8])
    env = dict(r.choice(ENVS))
    log = w.wd + "/log"
    if os.path.exists(log):
        os.unlink(log)
    X = Ctx(L, dict(env, NUM_THREADS=th, LOG=log))
    v = []
    L.mon.mask("log")
    L.mon.clear()
    L.mon.jitter(r.choice([0, 0, 2, 8]), r.getrandbits(16))
    try:
        ls = r.choice([1, 2, 4, 8])
        n = ls * r.randint(2, 24)
        what = [r.choice([0, 1, 2, 3, 5, 8, 9, 16, 31, 17, 4, 12]) for _ in range(n)]
        K = X.kernel(X.program(MSRC), "msg")
        out, ctr = X.buffer(np.zeros(n, np.int32)), X.buffer(np.zeros(1, np.int32))
        X.args(K, out, X.buffer(np.array(what, np.int32)), Local(ls * 4), np.uint32(n), ctr)
        cap = Capture(w)
        try:
            X.launch(K, (n,), (ls,))
        finally:
            text = cap.end()
        got = list(map(int, X.read(out, n * 4).view(np.int32)))
        exp = [(x * (x & 7)) + i for i, x in enumerate(what)]
        if got != exp:
            v.append(("msg:result", "results with %d threads are %s instead of %s" % (th, got[:8], exp[:8])))
        ctrv = int(X.read(ctr, 4).view(np.int32)[0])
        if ctrv != sum(1 for x in what if x & 8):
            v.append(("msg:atomic", "atomic counter is %d instead of %d" % (ctrv, sum(1 for x in what if x & 8))))
        lines = sorted(x for x in text.split("\n") if x.startswith("line") or "kernel value" in x or (x and "INST_COUNTS" not in env))
        el = sorted("line %d of kernel value %d %f" % (i, x * (x & 7), .5 + i) for i, x in enumerate(what) if x & 1)
        if lines != el:
            d = [x for x in lines if x not in el][:3] + [x for x in el if x not in lines][:3]
            v.append(("msg:printf", "%d threads: %d printf lines instead of %d, differing: %s" % (th, len(lines), len(el), d)))
        X.release()
        X = None
        t = open(log).read() if os.path.exists(log) else ""
        t = re.sub(r"\n+", "\n", t)
        blocks = [b for b in re.split(r"\n(?=Invalid |Read-write|Write-write|Error|Work)", "\n" + t) if b.strip()]
        want = {}
        for i, x in enumerate(what):
            for bit, name in ((2, "write"), (4, "read")):
                if x & bit:
                    want[name, i] = 1
        seen = {}
        for b in blocks:
            m = re.match(r"\n?Invalid (read|write) of size 4 at global memory address (0x[0-9a-f]+)\n\tKernel: msg\n\tEntity: Global\((\d+),0,0\) Local\((\d+),0,0\) Group\((\d+),0,0\)\n", b)
            if not m or b.count("Kernel:") != 1 or b.count("Entity:") != 1:
                v.append(("msg:log", "%d threads: incomplete or mixed message %r" % (th, b[:400])))
                break
            k = (m.group(1), int(m.group(3)))
            seen[k] = seen.get(k, 0) + 1
        else:
            if seen != want:
                v.append(("msg:lost", "%d threads: messages differ from the accesses made: missing %s, extra %s" % (th, sorted(set(want) - set(seen))[:4], [x for x in seen if seen[x] != want.get(x)][:4])))
    finally:
        L.mon.jitter(0)
        if X:
            X.release()
    return dict(violations=v, nontrivial=["msg t%d %s" % (th, sorted(k for k in env if env[k]))], stats={"messages": len(el) + len(want)}, evals=2 * n, sample=dict(kind="msg", threads=th, items=n))


HSRC = "kernel void k%d(global int *a, int x, local int *l) { size_t i = get_global_id(0); l[get_local_id(0)] = a[i]; barrier(CLK_LOCAL_MEM_FENCE); a[i] = l[get_local_id(0)] * %d + x; }"
CB = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_void_p)


def host(w, c):
    """every host thread uses its own objects; contexts (and sometimes user events) are shared"""
    L = w.L
    r = random.Random(c["seed"])
    T = r.choice([2, 2, 3, 4])
    shared = r.random() < .5
    env = dict(r.choice(ENVS), NUM_THREADS=r.choice([1, 2, 4]))
    L.mon.mask("log")
    L.mon.clear()
    ctxs = [Ctx(L, env) for _ in range(1 if shared else T)]
    err = [ct.c_int32() for _ in range(T)]
    ue = []
    for _ in range(T):
        u = L.clCreateUserEvent(ctxs[0].ctx, ct.byref(L.err)) if shared else None
        ue.append(u)
    bad = []
    seeds = [r.getrandbits(30) for _ in range(T)]
    chain = shared and r.random() < .5
    ops = [0]
    bar = threading.Barrier(T)

    def thread(t):
        q = random.Random(seeds[t])
        X = ctxs[0 if shared else t]
        e = err[t]
        cbs = []
        ncb = [0]

        def cbf(ev, st, ud):
            ncb[0] += 1
        cb = CB(cbf)

        def ok(what, code):
            ops[0] += 1
            if code:
                raise RuntimeError("%s returns %d" % (what, code))
        try:
            bar.wait()
            que = L.clCreateCommandQueue(X.ctx, L.device, q.choice([0, 1, 2, 3]), ct.byref(e))
            ok("clCreateCommandQueue", e.value)
            mul = q.randint(2, 9)
            for rnd in range(q.randint(1, 3)):
                n = q.choice([4, 8, 16])
                src = (HSRC % (t, mul)).encode()
                pr = L.clCreateProgramWithSource(X.ctx, 1, (ct.c_char_p * 1)(src), None, ct.byref(e))
                ok("clCreateProgramWithSource", e.value)
                ok("clBuildProgram", L.clBuildProgram(pr, 0, None, b"", None, None))
                k = L.clCreateKernel(pr, b"k%d" % t, ct.byref(e))
                ok("clCreateKernel", e.value)
                data = np.array([q.randint(-999, 999) for _ in range(n)], np.int32)
                buf = L.clCreateBuffer(X.ctx, C["CL_MEM_COPY_HOST_PTR"], n * 4, data.ctypes.data, ct.byref(e))
                ok("clCreateBuffer", e.value)
                model = data.astype(np.int64)
                for _ in range(q.randint(1, 4)):
                    x = q.randint(-99, 99)
                    a = q.random()
                    if a < .6:
                        ok("clSetKernelArg", L.clSetKernelArg(k, 0, 8, ct.byref(ct.c_void_p(buf))))
                        ok("clSetKernelArg", L.clSetKernelArg(k, 1, 4, ct.byref(ct.c_int32(x))))
                        ok("clSetKernelArg", L.clSetKernelArg(k, 2, n * 4, None))
                        ev = ct.c_void_p()
                        wl = None
                        if chain and rnd == 0 and t > 0 and not cbs:
                            wl = ptrs([ue[t - 1]])
                        ok("clEnqueueNDRangeKernel", L.clEnqueueNDRangeKernel(que, k, 1, None, sizes([n]), sizes([q.choice([1, 2, 4])]), 1 if wl is not None else 0, wl, ct.byref(ev)))
                        ok("clSetEventCallback", L.clSetEventCallback(ev, 0, ct.cast(cb, ct.c_void_p), None))
                        cbs.append(ev)
                        model = model * mul + x
                    elif a < .8:
                        tmp = np.array([q.randint(-999, 999) for _ in range(n)], np.int32)
                        # in-order effect on this queue is obtained by finishing first
                        ok("clFinish", L.clFinish(que))
                        ok("clEnqueueWriteBuffer", L.clEnqueueWriteBuffer(que, buf, 1, 0, n * 4, tmp.ctypes.data, 0, None, None))
                        model = tmp.astype(np.int64)
                    else:
                        # an invalid call of this thread
                        ops[0] += 1
                        rc = L.clEnqueueWriteBuffer(que, buf, 1, n * 4, 4, data.ctypes.data, 0, None, None)
                        if rc != C["CL_INVALID_VALUE"]:
                            raise RuntimeError("out of range write returns %d" % rc)
                    ok("clFinish", L.clFinish(que))
                back = np.zeros(n, np.int32)
                ok("clEnqueueReadBuffer", L.clEnqueueReadBuffer(que, buf, 1, 0, n * 4, back.ctypes.data, 0, None, None))
                if (back != model.astype(np.int32)).any():
                    raise RuntimeError("contents of the thread's own buffer are %s instead of %s" % (list(back[:6]), list(model[:6])))
                rcnt = ct.c_uint32()
                L.clGetMemObjectInfo(buf, C["CL_MEM_REFERENCE_COUNT"], 4, ct.byref(rcnt), None)
                if rcnt.value != 1:
                    raise RuntimeError("buffer has %d references instead of 1" % rcnt.value)
                ok("clReleaseMemObject", L.clReleaseMemObject(buf))
                ok("clReleaseKernel", L.clReleaseKernel(k))
                ok("clReleaseProgram", L.clReleaseProgram(pr))
                if chain and rnd == 0:
                    ok("clSetUserEventStatus", L.clSetUserEventStatus(ue[t], 0))
            if ncb[0] != len(cbs):
                raise RuntimeError("%d callbacks for %d commands" % (ncb[0], len(cbs)))
            for ev in cbs:
                ok("clReleaseEvent", L.clReleaseEvent(ev))
            ok("clReleaseCommandQueue", L.clReleaseCommandQueue(que))
        except Exception as ex:
            bad.append("thread %d of %d (%s): %s: %s" % (t, T, "one context" if shared else "own context", type(ex).__name__, ex))
            if chain:
                L.clSetUserEventStatus(ue[t], 0)
    ths = [threading.Thread(target=thread, args=(t,)) for t in range(T)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    v = [("host", b) for b in bad]
    for X in ctxs:
        rc = ct.c_uint32()
        for u in ue:
            if u and X is ctxs[0]:
                L.clReleaseEvent(u)
        L.clGetContextInfo(X.ctx, C["CL_CONTEXT_REFERENCE_COUNT"], 4, ct.byref(rc), None)
        if rc.value != 2 and not bad:
            v.append(("host:context", "context has %d references after all objects but one queue were released" % rc.value))
        X.release()
    return dict(violations=v, nontrivial=["host T%d %s t%s%s" % (T, "shared" if shared else "own", env["NUM_THREADS"], " U" if "UNINITIALIZED" in env else "")], stats={"api calls": ops[0]}, evals=ops[0], sample=dict(kind="host", threads=T))
