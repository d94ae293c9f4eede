"""C15: command and event histories.  Each command touches a slot of its own (or calls the host), so the monitor's trace of host and
kernel accesses is the exact execution order; it is checked against the order, failure and status rules of the OpenCL execution model."""
import ctypes as ct, random, threading, time
import numpy as np
import ocl
from ocl import Ctx, Lib, C, sizes, ptrs

PROP = "C15"
VARIANT = "asan"
RULE = ("random histories of 10-60 commands of every kind on 1-4 in-order/out-of-order queues with random wait lists, user events (set, failed, set by another thread), "
        "markers, barriers, flush/finish/wait/blocking calls, status polls, callbacks and event releases; every execution in the trace is checked for exactly-once, "
        "dependency order, status truth, callback counts and profiling order; non-trivial = history with >=8 executed commands and a cross-command dependency, by seed")
ASSUMPTIONS = ["one thread enqueues; another may set user events", "whether a failed predecessor (without a wait list) or barrier fails later commands of an in-order queue is implementation defined"]
CASE_TIMEOUT = 60
SLOT = 64
CB = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_void_p)
NK = ct.CFUNCTYPE(None, ct.c_void_p)
KSRC = "kernel void k(global int *b, uint i, int v) { b[i] = v; }"
QUEUED, SUBMITTED, RUNNING, COMPLETE = 3, 2, 1, 0
KINDS = ["kernel", "kernel", "task", "write", "read", "copy", "fill", "native", "map", "unmap", "wrect", "rrect", "crect", "migrate", "marker", "barrier", "wait"]
TYPE = dict(kernel="CL_COMMAND_NDRANGE_KERNEL", task="CL_COMMAND_TASK", write="CL_COMMAND_WRITE_BUFFER", read="CL_COMMAND_READ_BUFFER", copy="CL_COMMAND_COPY_BUFFER",
            fill="CL_COMMAND_FILL_BUFFER", native="CL_COMMAND_NATIVE_KERNEL", map="CL_COMMAND_MAP_BUFFER", unmap="CL_COMMAND_UNMAP_MEM_OBJECT", wrect="CL_COMMAND_WRITE_BUFFER_RECT",
            rrect="CL_COMMAND_READ_BUFFER_RECT", crect="CL_COMMAND_COPY_BUFFER_RECT", migrate="CL_COMMAND_MIGRATE_MEM_OBJECTS", marker="CL_COMMAND_MARKER", barrier="CL_COMMAND_BARRIER")
SILENT = ("marker", "barrier", "wait", "migrate")


def cases(rng, tier):
    n = 8000 if tier == "quick" else 60000
    out = [dict(seed=rng.randrange(1 << 30), n=rng.choice([10, 16, 25, 40, 60])) for _ in range(n)]
    out += [dict(deep=k, q=q) for k in ([2000, 20000] if tier == "quick" else [2000, 20000, 100000]) for q in ("inorder-finish", "inorder-wait", "ooo-finish", "ooo-barrier")]
    return out


def setup_worker(env):
    L = Lib(env["build"])
    L.err = ct.c_int32()
    return L


class Cmd:
    pass


class Hist:
    def __init__(self, L, seed, n):
        self.L, self.r, self.n = L, random.Random(seed), n
        self.v = []
        self.cmds, self.evs = [], []  # evs: dicts of usable wait-list events
        self.notes = []  # (trace position, kind, id, ...)
        self.log = []

    def bad(self, key, what):
        self.v.append((key, what + "\n  history: " + "; ".join(self.log[-60:])))

    def now(self):
        return self.L.mon.l.vmon_count()


def ev_status(L, ev):
    s = ct.c_int32(77)
    r = L.clGetEventInfo(ev, C["CL_EVENT_COMMAND_EXECUTION_STATUS"], 4, ct.byref(s), None)
    return s.value if r == 0 else 1000 + r


def run_case(L, c):
    if "deep" in c:
        return deep(L, c)
    H = Hist(L, c["seed"], c["n"])
    r = H.r
    X = Ctx(L, {"NUM_THREADS": r.choice([1, 1, 1, 4])})
    keep = []
    try:
        nq = r.choice([1, 1, 2, 2, 3, 4])
        props = [r.choice([0, 0, 1]) | (2 if r.random() < .6 else 0) for _ in range(nq)]
        qs = [X.queue(p) for p in props]
        ooo = [bool(p & 1) for p in props]
        n = c["n"]
        buf = X.buffer(np.zeros(n * SLOT, np.uint8))
        src = X.buffer(np.full(n * SLOT, 9, np.uint8))
        kern = X.kernel(X.program(KSRC), "k")
        umem = X.buffer(np.zeros(256, np.uint8))
        host = np.full(n * SLOT, 5, np.uint8)
        rd = np.zeros(n * SLOT, np.uint8)
        native_runs = []

        def native(p):
            i = ct.cast(p, ct.POINTER(ct.c_uint32))[0]
            native_runs.append((H.now(), i))
        nfn = NK(native)
        cblog = []

        def cb(ev, st, ud):
            cblog.append((ud or 0, st, ev))
        cbf = CB(cb)
        keep += [nfn, cbf]
        L.mon.mask("log", "hload", "hstore", "store", "map", "unmap")
        L.mon.clear()
        cmds = H.cmds
        users = []  # dict(ev, val)
        regs = []  # (id, target event record, type, was_done)

        # ---- model helpers -------------------------------------------------------------------------------------------
        def blocked_on(i, seen=None):
            """user events not yet set that command i may wait for (transitively)"""
            out, st, seen = set(), [i], set()
            while st:
                k = st.pop()
                if k in seen:
                    continue
                seen.add(k)
                for w in cmds[k].waits:
                    if w[0] == "u":
                        if users[w[1]]["val"] is None:
                            out.add(w[1])
                    else:
                        st.append(w[1])
                st += cmds[k].preds
            return out

        def new_cmd(q, kind, blocking=False):
            i = len(cmds)
            m = Cmd()
            m.i, m.q, m.kind, m.ev, m.st, m.flushed = i, q, kind, None, QUEUED, False
            cand = [("c", x.i) for x in cmds if x.ev] + [("u", u) for u in range(len(users)) if users[u]["ev"]]
            nw = 0 if kind == "wait" and not cand else r.choice([0, 0, 1, 1, 2, 3]) if cand else 0
            if kind == "wait":
                nw = max(1, nw)
            if nw and not cand:
                nw = 0
            m.waits = [r.choice(cand if r.random() < .4 else cand[-5:]) for _ in range(nw)]
            mine = [x.i for x in cmds if x.q == q]
            if not ooo[q]:
                m.preds = mine[-1:]
            elif kind in ("marker", "barrier") and not m.waits:
                m.preds = mine
            else:
                m.preds = [x for x in mine if cmds[x].kind in ("barrier", "wait")][-1:]
            return m

        def set_user(u, val, thread=False):
            users[u]["val"] = val
            e = L.clSetUserEventStatus(users[u]["ev"], val)
            if e != 0:
                H.bad("user-status", "clSetUserEventStatus(%d) on a pending user event returns %d" % (val, e))
            users[u]["st"] = val

        def unblock_async(ids):
            """another thread sets the user events a blocking call needs"""
            ids = sorted(ids)
            r.shuffle(ids)
            vals = {u: (0 if r.random() < .8 else -r.randint(1, 900)) for u in ids}
            delay = r.choice([0, .0003, .002])

            def go():
                for u in ids:
                    if delay:
                        time.sleep(delay)
                    L.clSetUserEventStatus(users[u]["ev"], vals[u])
            t = threading.Thread(target=go)
            t.start()
            return t, vals

        def wait_call(fn, needed):
            """runs blocking host call fn; needed = unset user events it depends on"""
            if needed:
                t, vals = unblock_async(needed)
                e = fn()
                t.join()
                for u in vals:
                    users[u]["val"] = users[u]["st"] = vals[u]
            else:
                e = fn()
            return e

        def qset(q):
            out = set()
            for x in cmds:
                if x.q == q and x.st > 0:
                    out |= blocked_on(x.i)
            return out

        def must_fail(i, memo={}):
            return fail_state()[i][0]

        def fail_state():
            """per command (must fail, may fail) given the user events set so far"""
            fs = []
            for x in cmds:
                mu = ma = False
                for w in x.waits:
                    if w[0] == "u":
                        f = (users[w[1]]["val"] or 0) < 0
                        mu, ma = mu or f, ma or f
                    else:
                        mu, ma = mu or fs[w[1]][0], ma or fs[w[1]][1]
                for p in x.preds:
                    ma = ma or fs[p][1]
                fs.append((mu, ma))
            return fs

        executed = {}

        def sync_trace():
            """maps the trace so far to command executions"""
            rec = L.mon.recs()
            ex = {}
            for pos, i in native_runs:
                ex.setdefault(i, []).append(pos)
            done = set()
            for p in range(len(rec)):
                k = ocl.KINDS[int(rec["kind"][p])]
                if k in ("hload", "hstore", "store"):
                    if int(rec["a"][p]) != 1 or int(rec["c"][p]) > SLOT:
                        continue
                    a = int(rec["b"][p])
                    base = a >> 48
                    off = a & ((1 << 48) - 1)
                    if base == baddr[0] and off < n * SLOT:
                        i = off // SLOT
                        if i < len(cmds) and k in WANT.get(cmds[i].kind, ()):
                            ex.setdefault(i, []).append(p)
                elif k == "map":
                    if int(rec["a"][p]) >> 48 == baddr[0]:
                        i = int(rec["b"][p]) // SLOT
                        if i < len(cmds) and cmds[i].kind == "map":
                            ex.setdefault(i, []).append(p)
                elif k == "unmap":
                    for x in cmds:
                        if x.kind == "unmap" and x.mapped == int(rec["b"][p]):
                            ex.setdefault(x.i, []).append(p)
            return ex

        WANT = dict(kernel=("store",), task=("store",), write=("hstore",), read=("hload",), copy=("hstore",), fill=("hstore",), wrect=("hstore",), rrect=("hload",), crect=("hstore",))

        # address of buf: from a probe write
        one = ct.create_string_buffer(b"\0", 1)
        L.clEnqueueWriteBuffer(X.q, buf, 1, 0, 1, one, 0, None, None)
        rc = L.mon.recs()
        pr = [x for x in rc if ocl.KINDS[int(x["kind"])] == "hstore"]
        baddr = [int(pr[-1]["b"]) >> 48]
        L.mon.clear()
        maps = []

        def enqueue(m):
            i, q = m.i, qs[m.q]
            off = i * SLOT
            ws = [users[w[1]]["ev"] if w[0] == "u" else cmds[w[1]].ev for w in m.waits]
            wl = (ct.c_void_p * len(ws))(*ws) if ws else None
            nw = len(ws)
            want_ev = m.kind != "wait" and r.random() < .75
            ev = ct.c_void_p()
            pe = ct.byref(ev) if want_ev else None
            bl = 1 if m.blocking else 0
            k = m.kind
            m.mapped = None
            hp = host.ctypes.data + off
            if k in ("kernel", "task"):
                X.args(kern, buf, np.uint32(off // 4), np.int32(i + 100))
                if k == "kernel":
                    f = lambda: L.clEnqueueNDRangeKernel(q, kern, 1, None, sizes([1]), sizes([1]) if r.random() < .5 else None, nw, wl, pe)
                else:
                    f = lambda: L.clEnqueueTask(q, kern, nw, wl, pe)
            elif k == "write":
                host[off:off + 4] = np.frombuffer(np.int32(i + 100).tobytes(), np.uint8)
                f = lambda: L.clEnqueueWriteBuffer(q, buf, bl, off, 4, hp, nw, wl, pe)
            elif k == "read":
                f = lambda: L.clEnqueueReadBuffer(q, buf, bl, off, 4, rd.ctypes.data + off, nw, wl, pe)
            elif k == "copy":
                f = lambda: L.clEnqueueCopyBuffer(q, src, buf, off, off, 4, nw, wl, pe)
            elif k == "fill":
                pat = ct.create_string_buffer(bytes([i & 255]) * 4, 4)
                f = lambda: L.clEnqueueFillBuffer(q, buf, pat, 4, off, 4, nw, wl, pe)
            elif k == "native":
                a = ct.c_uint32(i)
                f = lambda: L.clEnqueueNativeKernel(q, nfn, ct.byref(a), 4, 0, None, None, nw, wl, pe)
            elif k == "map":
                def f():
                    p = L.clEnqueueMapBuffer(q, buf, bl, C["CL_MAP_READ"], off, 4, nw, wl, pe, ct.byref(L.err))
                    if L.err.value == 0:
                        if not p:
                            H.bad("map-null", "clEnqueueMapBuffer succeeds with NULL")
                        maps.append((p, i))
                    return L.err.value
            elif k == "unmap":
                p, _ = maps.pop(0)
                m.mapped = p
                f = lambda: L.clEnqueueUnmapMemObject(q, buf, p, nw, wl, pe)
            elif k in ("wrect", "rrect", "crect"):
                o, reg, z = sizes([off, 0, 0]), sizes([4, 1, 1]), sizes([0, 0, 0])
                if k == "wrect":
                    f = lambda: L.clEnqueueWriteBufferRect(q, buf, bl, o, z, reg, 0, 0, 0, 0, hp, nw, wl, pe)
                elif k == "rrect":
                    f = lambda: L.clEnqueueReadBufferRect(q, buf, bl, o, z, reg, 0, 0, 0, 0, rd.ctypes.data + off, nw, wl, pe)
                else:
                    f = lambda: L.clEnqueueCopyBufferRect(q, src, buf, o, o, reg, 0, 0, 0, 0, nw, wl, pe)
            elif k == "migrate":
                f = lambda: L.clEnqueueMigrateMemObjects(q, 1, ptrs([buf]), 0, nw, wl, pe)
            elif k == "marker":
                f = lambda: L.clEnqueueMarkerWithWaitList(q, nw, wl, pe) if nw or r.random() < .7 else L.clEnqueueMarker(q, pe) if pe else L.clEnqueueMarkerWithWaitList(q, 0, None, None)
            elif k == "barrier":
                f = lambda: L.clEnqueueBarrierWithWaitList(q, nw, wl, pe) if nw or pe or r.random() < .5 else L.clEnqueueBarrier(q)
            else:
                f = lambda: L.clEnqueueWaitForEvents(q, nw, wl)
            cmds.append(m)
            H.log.append("#%d %s q%d%s%s%s" % (i, k, m.q, "o" if ooo[m.q] else "i", " blocking" if m.blocking else "", " <- " + ",".join("%s%d" % w for w in m.waits) if m.waits else ""))
            if m.blocking:
                e = wait_call(f, blocked_on(i))
                mu, ma = fail_state()[i]
                if e == 0 and mu:
                    H.bad("blocking-success-failed", "blocking %s #%d returns CL_SUCCESS although an event it waits for failed" % (k, i))
                if e != 0 and (not ma or e != C["CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST"]):
                    H.bad("blocking-code", "blocking %s #%d returns %d (must fail %s)" % (k, i, e, mu))
                m.flushed = True
                m.donecheck = True
                if k == "map" and e != 0:
                    pass
            else:
                e = f()
                if e != 0:
                    H.bad("enqueue", "valid enqueue of %s #%d returns %d" % (k, i, e))
            if ev.value:
                m.ev = ev.value
                keep.append(ev)
            if wl is not None:
                for j in range(nw):
                    wl[j] = None  # the array may be reused at once
            if k == "native":
                a.value = 0xDEAD
            if k == "fill":
                pat.raw = b"\xEE" * 4
            if m.blocking:
                finished([m.i])

        def finished(ids, ret=None):
            """everything ids depend on must have finished by now"""
            ex = sync_trace()
            fs = fail_state()
            need, st = set(), list(ids)
            while st:
                i = st.pop()
                if i in need:
                    continue
                need.add(i)
                mu, ma = fs[i]
                if not ma:
                    st += [w[1] for w in cmds[i].waits if w[0] == "c"] + cmds[i].preds
            for i in sorted(need):
                x = cmds[i]
                mu, ma = fs[i]
                if ma:
                    continue
                if x.kind not in SILENT and i not in ex:
                    H.bad("not-executed", "command #%d (%s) has not executed although the host waited for it" % (i, x.kind))
                if x.ev:
                    s = ev_status(L, x.ev)
                    if s != COMPLETE:
                        H.bad("status-after-wait", "event of #%d (%s) has status %d after the host waited for it" % (i, x.kind, s))
                x.st = COMPLETE

        def poll(x):
            s = ev_status(L, x.ev)
            if s > x.st:
                H.bad("status-back", "status of #%d goes from %d back to %d" % (x.i, x.st, s))
            if x.st <= 0 and s != x.st:
                H.bad("status-final-changed", "final status of #%d changes from %d to %d" % (x.i, x.st, s))
            mu, ma = fail_state()[x.i]
            if s == COMPLETE:
                if mu:
                    H.bad("complete-but-failed", "command #%d (%s) is complete although an event it waits for failed" % (x.i, x.kind))
                if x.kind not in SILENT and x.i not in sync_trace():
                    H.bad("complete-before-effect", "event of #%d (%s) is complete but the command has not executed" % (x.i, x.kind))
                if blocked_on(x.i):
                    H.bad("complete-while-blocked", "event of #%d is complete while it waits for user events %s" % (x.i, sorted(blocked_on(x.i))))
            elif s < 0:
                if not ma:
                    H.bad("failed-without-cause", "event of #%d (%s) has status %d without any failed dependency" % (x.i, x.kind, s))
            elif s not in (1, 2, 3):
                H.bad("status-value", "status of #%d is %d" % (x.i, s))
            x.st = min(x.st, s)
            return s

        # ---- the history --------------------------------------------------------------------------------------------
        while len(cmds) < n:
            op = r.random()
            if op < .62:
                kind = r.choice(KINDS)
                if kind == "unmap" and not maps:
                    kind = "map"
                q = r.randrange(nq)
                m = new_cmd(q, kind)
                if kind == "wait" and not m.waits:
                    m.kind = "marker"
                    m.preds = [x.i for x in cmds if x.q == q][-1:] if not ooo[q] else [x.i for x in cmds if x.q == q]
                m.blocking = kind in ("read", "write", "map", "rrect", "wrect") and r.random() < .15
                enqueue(m)
            elif op < .70:
                u = L.clCreateUserEvent(X.ctx, ct.byref(L.err))
                users.append(dict(ev=u, val=None, st=SUBMITTED, h=u))
                H.log.append("user u%d" % (len(users) - 1))
            elif op < .76:
                pend = [u for u in range(len(users)) if users[u]["val"] is None and users[u]["ev"]]
                if pend:
                    u = r.choice(pend)
                    val = 0 if r.random() < .75 else -r.randint(1, 2000)
                    H.log.append("set u%d=%d" % (u, val))
                    set_user(u, val)
            elif op < .80:
                ws = [x for x in cmds if x.ev]
                if ws:
                    sel = [r.choice(ws) for _ in range(r.randint(1, 3))]
                    need = set().union(*[blocked_on(x.i) for x in sel])
                    if not need or r.random() < .5:
                        H.log.append("clWaitForEvents " + ",".join("#%d" % x.i for x in sel))
                        arr = ptrs([x.ev for x in sel])
                        e = wait_call(lambda: L.clWaitForEvents(len(sel), arr), need)
                        fs = fail_state()
                        if e == 0 and any(fs[x.i][0] for x in sel):
                            H.bad("wait-success-failed", "clWaitForEvents returns CL_SUCCESS although a command waited for failed")
                        if e != 0 and (e != -14 or not any(fs[x.i][1] for x in sel)):
                            H.bad("wait-code", "clWaitForEvents returns %d" % e)
                        finished([x.i for x in sel])
                        for x in sel:
                            if poll(x) > 0:
                                H.bad("wait-unfinished", "clWaitForEvents returns while #%d has status %d" % (x.i, x.st))
            elif op < .84:
                q = r.randrange(nq)
                need = qset(q)
                if not need or r.random() < .4:
                    H.log.append("clFinish q%d" % q)
                    e = wait_call(lambda: L.clFinish(qs[q]), need)
                    if e != 0 and e != -14:
                        H.bad("finish-code", "clFinish returns %d" % e)
                    finished([x.i for x in cmds if x.q == q])
                    for x in cmds:
                        if x.q == q:
                            x.flushed = True
                            if x.ev and poll(x) > 0:
                                H.bad("finish-unfinished", "clFinish returns while #%d has status %d" % (x.i, x.st))
            elif op < .88:
                q = r.randrange(nq)
                H.log.append("clFlush q%d" % q)
                e = L.clFlush(qs[q])
                if e != 0:
                    H.bad("flush-code", "clFlush returns %d" % e)
                for x in cmds:
                    if x.q == q:
                        x.flushed = True
            elif op < .92:
                ws = [x for x in cmds if x.ev]
                if ws:
                    poll(r.choice(ws))
            elif op < .97:
                tg = [("c", x.i) for x in cmds if x.ev] + [("u", u) for u in range(len(users)) if users[u]["ev"]]
                if tg:
                    t = r.choice(tg)
                    ty = r.choice([COMPLETE, COMPLETE, RUNNING, SUBMITTED])
                    rid = len(regs) + 1
                    regs.append((rid, t, ty))
                    H.log.append("callback %d on %s%d type %d" % (rid, t[0], t[1], ty))
                    e = L.clSetEventCallback(cmds[t[1]].ev if t[0] == "c" else users[t[1]]["ev"], ty, cbf, rid)
                    if e != 0:
                        H.bad("callback-code", "clSetEventCallback returns %d" % e)
            else:
                ws = [x for x in cmds if x.ev]
                if ws and r.random() < .5:
                    x = r.choice(ws)
                    H.log.append("release event #%d" % x.i)
                    L.clReleaseEvent(x.ev)
                    x.ev = None
                else:
                    us = [u for u in users if u["ev"] and u["val"] is not None]
                    if us:
                        u = r.choice(us)
                        L.clReleaseEvent(u["ev"])
                        u["ev"] = None
            if len(H.v) > 3:
                break
        # flushed commands that nothing holds back complete without further calls
        for x in cmds:
            if x.ev and x.flushed and not blocked_on(x.i):
                st, seen, ok = [x.i], set(), True
                while st:
                    i = st.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    ok = ok and cmds[i].flushed
                    st += [w[1] for w in cmds[i].waits if w[0] == "c"] + cmds[i].preds
                if ok:
                    for _ in range(2000):
                        if poll(x) <= 0:
                            break
                        time.sleep(.0005)
                    else:
                        H.bad("flushed-not-complete", "flushed command #%d never completes (status %d)" % (x.i, x.st))
        for u in range(len(users)):
            if users[u]["val"] is None:
                set_user(u, 0 if r.random() < .8 else -5)
        order = list(range(nq))
        r.shuffle(order)
        for q in order:
            H.log.append("final clFinish q%d" % q)
            L.clFinish(qs[q])
        finished(range(len(cmds)))
        ex, fs = sync_trace(), fail_state()
        profs = {}
        for x in cmds:
            mu, ma = fs[x.i]
            k = ex.get(x.i, [])
            if x.kind not in SILENT:
                if len(k) > 1:
                    H.bad("executed-twice", "command #%d (%s) executed %d times" % (x.i, x.kind, len(k)))
                if mu and k:
                    H.bad("failed-executed", "command #%d (%s) executed although an event it waits for failed" % (x.i, x.kind))
            if x.ev:
                s = poll(x)
                if s > 0:
                    H.bad("end-unfinished", "command #%d has status %d after clFinish of every queue" % (x.i, s))
                if mu and s >= 0:
                    H.bad("failed-status", "command #%d has status %d although an event it waits for failed" % (x.i, s))
                if k and s < 0:
                    H.bad("executed-failed-status", "command #%d executed but has status %d" % (x.i, s))
                info(L, H, X, x, qs)
                if s == 0 and props[x.q] & 2:
                    profs[x.i] = prof(L, H, x)
        # order: every execution after those it requires (through markers and barriers)
        memo = {}

        def need(i):
            if i in memo:
                return memo[i]
            out = set()
            if not fs[i][1]:
                for p in [w[1] for w in cmds[i].waits if w[0] == "c"] + cmds[i].preds:
                    out |= {p} | need(p)
            memo[i] = out
            return out
        edges = 0
        for x in cmds:
            if x.i in ex and not fs[x.i][1]:
                for p in need(x.i):
                    if p in ex:
                        edges += 1
                        if ex[p][-1] >= ex[x.i][0] and not (cmds[p].kind == "native" and ex[p][-1] == ex[x.i][0]):
                            H.bad("order", "command #%d (%s) executed before #%d (%s), which it has to wait for" % (x.i, x.kind, p, cmds[p].kind))
            if x.i in profs:
                for p in need(x.i):
                    if p in profs and profs[p][3] > profs[x.i][2]:
                        H.bad("profile-order", "command #%d starts at %d before its dependency #%d ends at %d" % (x.i, profs[x.i][2], p, profs[p][3]))
        # callbacks
        seen = {}
        for rid, st, ev in cblog:
            seen.setdefault(rid, []).append(st)
        for rid, t, ty in regs:
            fin = users[t[1]]["val"] if t[0] == "u" else None
            got = seen.get(rid, [])
            if len(got) != 1:
                H.bad("callback-count", "callback %d on %s%d (type %d) called %d times" % (rid, t[0], t[1], ty, len(got)))
                continue
            if t[0] == "c":
                mu, ma = fs[t[1]]
                okv = (lambda s: 0 < s <= ty or (s < 0 if mu else s == 0 or (ma and s < 0)))
            else:
                okv = (lambda s: s == fin or (ty > 0 and 0 < s <= ty))
            if not okv(got[0]):
                H.bad("callback-status", "callback %d on %s%d (type %d) called with status %d" % (rid, t[0], t[1], ty, got[0]))
        logs = [m for ty, m in L.mon.logs() if ty >= 2]
        if logs:
            H.bad("log", "diagnostic in an error-free history: " + logs[0][:300])
        # effects
        mem = X.read(buf, n * SLOT)
        for x in cmds:
            if x.i in ex and x.kind in ("kernel", "task", "write", "fill", "copy", "crect", "wrect"):
                got = bytes(mem[x.i * SLOT:x.i * SLOT + 4])
                want = dict(kernel=np.int32(x.i + 100).tobytes(), task=np.int32(x.i + 100).tobytes(), write=np.int32(x.i + 100).tobytes(), fill=bytes([x.i & 255]) * 4,
                            copy=b"\x09" * 4, crect=b"\x09" * 4, wrect=b"\x05" * 4)[x.kind]
                if got != want:
                    H.bad("effect", "command #%d (%s) wrote %s, expected %s" % (x.i, x.kind, got.hex(), want.hex()))
        for x in cmds:
            if x.ev:
                L.clReleaseEvent(x.ev)
        for u in users:
            if u["ev"]:
                L.clReleaseEvent(u["ev"])
        nt = ["%d" % c["seed"]] if len(ex) >= 8 and edges else False
        return dict(violations=H.v[:4], nontrivial=nt, evals=len(cmds), stats={"executions": len(ex), "order_edges": edges, "callbacks": len(regs), "failed": sum(f[0] for f in fs)},
                    sample=dict(c, history=H.log[:12]))
    finally:
        X.release()


def info(L, H, X, x, qs):
    p = ct.c_void_p()
    for nm, want in (("CL_EVENT_COMMAND_QUEUE", qs[x.q]), ("CL_EVENT_CONTEXT", X.ctx)):
        e = L.clGetEventInfo(x.ev, C[nm], 8, ct.byref(p), None)
        if e or p.value != want:
            H.bad("event-info", "%s of #%d is wrong" % (nm, x.i))
    t = ct.c_uint32()
    L.clGetEventInfo(x.ev, C["CL_EVENT_COMMAND_TYPE"], 4, ct.byref(t), None)
    if t.value != C[TYPE[x.kind]]:
        H.bad("event-type:" + x.kind, "command type of #%d (%s) is 0x%x" % (x.i, x.kind, t.value))


def prof(L, H, x):
    out = []
    for nm in ("QUEUED", "SUBMIT", "START", "END"):
        t = ct.c_uint64()
        e = L.clGetEventProfilingInfo(x.ev, C["CL_PROFILING_COMMAND_" + nm], 8, ct.byref(t), None)
        if e:
            H.bad("profile-code", "clGetEventProfilingInfo(%s) of complete #%d returns %d" % (nm, x.i, e))
            return [0, 0, 0, 1 << 63]
        out.append(t.value)
    if not (0 < out[0] <= out[1] <= out[2] <= out[3]):
        H.bad("profile-values", "profiling times of #%d are not ordered: %s" % (x.i, out))
    return out


def deep(L, c):
    """very long queues"""
    X = Ctx(L, {})
    v = []
    try:
        ooo = c["q"].startswith("ooo")
        q = X.queue(1 if ooo else 0)
        buf = X.buffer(np.zeros(64, np.uint8))
        runs = []
        fn = NK(lambda p: runs.append(ct.cast(p, ct.POINTER(ct.c_uint32))[0]))
        ev = ct.c_void_p()
        n = c["deep"]
        for i in range(n):
            a = ct.c_uint32(i)
            last = i == n - 1
            L.clEnqueueNativeKernel(q, fn, ct.byref(a), 4, 0, None, None, 0, None, ct.byref(ev) if last and not c["q"].endswith("barrier") else None)
        if c["q"].endswith("barrier"):
            L.clEnqueueBarrierWithWaitList(q, 0, None, ct.byref(ev))
        e = L.clFinish(q) if c["q"].endswith("finish") else L.clWaitForEvents(1, ptrs([ev.value]))
        if e or sorted(runs) != list(range(n)) or (not ooo and runs != sorted(runs)):
            v.append(("deep", "%d queued commands (%s): call returns %d, %d executed%s" % (n, c["q"], e, len(runs), "" if runs == sorted(runs) else " out of order")))
        L.clReleaseEvent(ev)
        return dict(violations=v, nontrivial=["deep-%s-%d" % (c["q"], n)], evals=n, stats={"deep": 1})
    finally:
        X.release()
