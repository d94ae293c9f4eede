"""Check driver: generates cases, runs them in isolated worker processes on the
real simulator, collects what the monitors observed, writes evidence, reports.

A check module (checks/cNN.py) defines
  PROP, RULE, ASSUMPTIONS, VARIANT ('rel'|'asan'|'tsan'), TARGETS
  cases(rng, tier) -> list of JSON-able cases
  setup_worker(env) -> object            (optional)
  run_case(w, case) -> dict(violations=[(key, what)], nontrivial=bool|[keys], stats={}, sample=..)
Verdicts are three-valued: a violation needs an observed contradiction (or a crash
or a reproducible hang of the code under test); anything that went wrong in the
machinery itself ends the check with exit code 2.
"""
import fnmatch, hashlib, importlib, json, os, queue, random, re, select, signal, subprocess, sys, tempfile, threading, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + "/lib", VERIF + "/checks"]
import buildlib

PY = "/opt/veriftools/pyvenv/bin/python"


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(prop):
    out = []
    for e in json.load(open(VERIF + "/known_findings.json"))["findings"]:
        if e["property"] == prop and e.get("status") == "open":
            out.append(e)
    return out


def sanitizer_env(variant, env, logbase):
    if variant == "asan":
        env["LD_PRELOAD"] = buildlib.SAN_LIB + "/libclang_rt.asan-x86_64.so"
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                               "detect_odr_violation=0:handle_segv=1:detect_stack_use_after_return=0:"
                               "new_delete_type_mismatch=1:alloc_dealloc_mismatch=1:quarantine_size_mb=64:malloc_context_size=12:log_path=" + logbase)
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=0:log_path=" + logbase
        env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
    if variant == "tsan":
        env["LD_PRELOAD"] = buildlib.SAN_LIB + "/libclang_rt.tsan-x86_64.so"
        env["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:"
                               "log_path=%s:external_symbolizer_path=/usr/bin/llvm-symbolizer-18:suppressions=%s/lib/tsan.supp" % (logbase, VERIF))
    return env


SAN_RE = re.compile(r"(/\S+?|<unknown>):(\d+)(?::\d+)?: runtime error: (.*)")


def parse_san(text):
    """-> [(key, what)] from sanitizer output; keys name the kind and the function/file, not line numbers."""
    out = []
    for m in SAN_RE.finditer(text):
        msg = m.group(3)
        if "null pointer passed as argument" in msg:
            continue  # zero-length memcpy and the like; a non-zero length would fault
        kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", msg)[:80]
        out.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), kind), m.group(0)[:300]))
    m = re.search(r"ERROR: (AddressSanitizer|ThreadSanitizer|LeakSanitizer):? ([\w-]+)", text)
    if m:
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()", text)
              if not re.match(r"(__interceptor|operator new|operator delete|__asan|memcpy|memset|memmove|malloc|free|std::)", f)]
        fn = fr[0] if fr else "?"
        fn = re.sub(r"\(.*", "", fn)
        out.append(("asan:%s:%s" % (m.group(2), fn), text[:1500]))
    for rep in re.split(r"={18}\n", text):
        m = re.match(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", rep)
        if not m:
            continue
        stacks, cur = [], None
        for l in rep.split("\n"):
            f = re.match(r"    #\d+ (.+?) (?:/\S*|<null>|\()", l)
            if not f:
                if l.startswith("  ") and not l.startswith("    "):
                    cur = []
                    stacks.append((l.strip(), cur))
                continue
            if cur is not None:
                n = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", f.group(1)))
                cur.append((re.sub(r"\(.*", "", n).split(" ")[-1], "oclgrind" in l))
        acc = [s for h, s in stacks if re.match(r"(Previous )?(atomic )?(read|write|Read|Write|Atomic)", h)]
        own = [next((n for n, o in s if o), "") for s in acc] or [next((n for h, s in stacks for n, o in s if o), "")]
        if not any(own):
            continue  # nothing of the simulator is involved
        out.append(("tsan:%s:%s" % (m.group(1), "|".join(sorted(own))), rep[:4000]))
    return out


class Worker:
    def __init__(self, modname, variant, builddir, tmp, idx):
        self.args = (modname, variant, builddir, tmp, idx)
        self.gen = 0
        self.p = None

    def start(self):
        modname, variant, builddir, tmp, idx = self.args
        self.gen += 1
        self.wd = os.path.join(tmp, "w%d_%d" % (idx, self.gen))
        os.makedirs(self.wd)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OCLGRIND", "LD_", "ASAN", "UBSAN", "TSAN"))}
        env.update(VERIF_BUILD=builddir, VERIF_WD=self.wd, PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", TMPDIR=self.wd)
        sanitizer_env(variant, env, self.wd + "/san")
        r, w = os.pipe()
        self.p = subprocess.Popen([PY, VERIF + "/lib/harness.py", "--worker", modname, str(w)], stdin=subprocess.PIPE,
                                  stdout=open(self.wd + "/out", "wb"), stderr=open(self.wd + "/err", "wb"),
                                  env=env, pass_fds=(w,), cwd=self.wd, start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "rb", 0)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.r.close()
            self.p = None

    def sanlog(self):
        t = ""
        for f in sorted(os.listdir(self.wd)):
            if f.startswith("san"):
                t += open(os.path.join(self.wd, f), errors="replace").read()
        return t

    def run(self, case, timeout):
        """-> ('ok', result) | ('crash', rc, text) | ('timeout',)"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return ("timeout",)
            if select.select([self.r], [], [], min(left, 1.0))[0]:
                d = self.r.read(65536)
                if not d:
                    try:
                        rc = self.p.wait(20)
                    except subprocess.TimeoutExpired:
                        rc = -9
                    text = self.sanlog() + open(self.wd + "/err", errors="replace").read()[-3000:]
                    self.stop()
                    return ("crash", rc, text)
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return ("ok", json.loads(line))


def worker_main(modname, fd):
    out = os.fdopen(int(fd), "wb", 0)
    mod = importlib.import_module(modname)
    env = {"build": os.environ["VERIF_BUILD"], "wd": os.environ["VERIF_WD"]}
    w = mod.setup_worker(env) if hasattr(mod, "setup_worker") else env
    seen = 0
    for line in sys.stdin.buffer:
        case = json.loads(line)
        try:
            res = mod.run_case(w, case) or {}
        except Exception:
            res = {"machinery": traceback.format_exc()[-3000:]}
        # UBSan reports of this case (recoverable, logged to san.<pid>)
        f = os.path.join(env["wd"], "san.%d" % os.getpid())
        if os.path.exists(f):
            t = open(f, errors="replace").read()
            res["san"] = parse_san(t[seen:])
            if hasattr(mod, "filter_san"):
                res["san"] = mod.filter_san(case, res["san"])
            seen = len(t)
        out.write(json.dumps(res).encode() + b"\n")


class Check:
    def __init__(self, modname):
        self.modname = modname
        self.mod = importlib.import_module(modname)
        self.prop = self.mod.PROP
        self.t0 = time.time()
        self.viol = {}      # key -> (what, case)
        self.stats = Counter()
        self.distinct = set()
        self.samples = []
        self.evals = 0
        self.machinery = []
        self.inconclusive = 0
        self.lock = threading.Lock()

    def add_violation(self, key, what, case):
        with self.lock:
            if key not in self.viol:
                self.viol[key] = (what, case)
            self.stats["violating_observations"] += 1

    def absorb(self, case, res):
        with self.lock:
            self.evals += res.get("evals", 1)
            for k, v in (res.get("stats") or {}).items():
                self.stats[k] += v
            nt = res.get("nontrivial", True)
            if nt is True:
                self.distinct.add(hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest())
            elif nt:
                self.distinct.update(map(str, nt))
            if res.get("sample") is not None and len(self.samples) < 6:
                self.samples.append(res["sample"])
            if res.get("machinery"):
                self.machinery.append((res["machinery"], case))
        for key, what in res.get("violations") or []:
            self.add_violation(key, what, case)
        if not getattr(self.mod, "IGNORE_SAN", False):
            for key, what in res.get("san") or []:
                self.add_violation(key, what, case)

    def run(self, replay=None):
        variant = getattr(self.mod, "VARIANT", "rel")
        targets = getattr(self.mod, "TARGETS", ("rt",))
        try:
            builddir = buildlib.build(variant, targets)
            for v, tg in getattr(self.mod, "EXTRA_BUILDS", ()):
                buildlib.build(v, tg)
        except buildlib.BuildError as e:
            print(e)
            print("ERROR: cannot build /repo; no verdict")
            return 2
        self.build_s = time.time() - self.t0
        rng = random.Random("%s-%d" % (self.prop, seed()))
        if replay:
            cases = [json.load(open(replay))["case"]]
        else:
            cases = self.mod.cases(rng, tier())
        n = min(getattr(self.mod, "WORKERS", os.cpu_count() or 8), max(1, len(cases)))
        timeout = getattr(self.mod, "CASE_TIMEOUT", 60)
        deadline = self.t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier() == "quick" else "10000"))
        q = queue.Queue()
        for c in cases:
            q.put(c)
        tmp = tempfile.mkdtemp(prefix="verif_%s_" % self.prop)
        slow = []
        nviol_stop = int(os.environ.get("VERIF_MAXVIOL", "40"))

        def loop(i):
            w = Worker(self.modname, variant, builddir, tmp, i)
            try:
                while True:
                    try:
                        case = q.get_nowait()
                    except queue.Empty:
                        return
                    if time.time() > deadline or len(self.viol) >= nviol_stop:
                        with self.lock:
                            self.stats["cases_not_run"] += 1
                        continue
                    r = w.run(case, timeout)
                    if r[0] == "ok":
                        self.absorb(case, r[1])
                    elif r[0] == "crash":
                        self.crash(case, r)
                    else:
                        with self.lock:
                            slow.append(case)
            except Exception:
                self.machinery.append((traceback.format_exc(), None))
            finally:
                w.stop()

        th = [threading.Thread(target=loop, args=(i,)) for i in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]
        hangs = 0
        for case in slow:  # rerun alone: only a reproducible hang is a violation
            if hangs >= 2 or time.time() + timeout * 2 > deadline + 60:
                self.inconclusive += 1
                continue
            w = Worker(self.modname, variant, builddir, tmp, 99 + len(self.samples))
            w.gen = hangs + 100 * (slow.index(case) + 1)
            r = w.run(case, timeout * 2)
            if r[0] == "ok":
                self.absorb(case, r[1])
            elif r[0] == "crash":
                self.crash(case, r)
            else:
                hangs += 1
                self.add_violation("hang", "case did not finish in %d s, twice" % (timeout * 2), case)
            w.stop()
        if hasattr(self.mod, "finalize"):
            for key, what in self.mod.finalize(self) or []:
                self.add_violation(key, what, None)
        self.ncases = len(cases)
        subprocess.call(["rm", "-rf", tmp])
        return self.report(replay)

    def crash(self, case, r):
        san = parse_san(r[2])
        with self.lock:
            self.evals += 1
        key = next((k for k, _ in san if k.startswith("asan")), None)
        if key is None:
            name = "signal %d" % -r[1] if r[1] < 0 else "exit %d" % r[1]
            cat = self.mod.crash_key(case) if hasattr(self.mod, "crash_key") else ""
            key = "crash:%s%s" % (name, ":" + cat if cat else "")
            if "Traceback (most recent call last)" in r[2] and r[1] == 1:
                self.machinery.append((r[2], case))
                return
        i = max(r[2].find("ERROR: "), 0)
        self.add_violation(key, r[2][i:i + 3000] if i else r[2][-1500:], case)

    def report(self, replay):
        kf = known_findings(self.prop)
        new, old = [], {}
        for key, (what, case) in self.viol.items():
            e = next((e for e in kf if fnmatch.fnmatchcase(key, e["key"])), None)
            if e:
                old[e["key"]] = (e, what)
            else:
                new.append((key, what, case))
        for e, what in old.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.mod.RULE,
                   samples=self.samples[:6] or ["(none)"], cases_generated=self.ncases,
                   inconclusive=self.inconclusive, build_s=round(self.build_s, 1),
                   observed={k: v for k, v in sorted(self.stats.items())})
        ev = dict(property=self.prop, tier=tier(), seed=seed(), level="exploration", coverage=cov,
                  assumptions=list(getattr(self.mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - self.t0, 2),
                  violations=[dict(key=k, what=w[:2000]) for k, w, _ in new],
                  known_findings_seen=[e["key"] for e, _ in old.values()])
        if not replay:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
                json.dump(ev, f, indent=1, default=str)
        print("%s: %d cases, %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)  %s" % (
            self.prop, self.ncases, self.evals, len(self.distinct), time.time() - self.t0, self.build_s, dict(self.stats)))
        rc = 0
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for key, what, case in new:
            h = hashlib.md5((key + json.dumps(case)).encode()).hexdigest()[:10]
            path = VERIF + "/replays/%s-%s.json" % (self.prop, h)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, key=key, what=what, case=case, seed=seed(), tier=tier()), f, indent=1)
            print("  %s: %s" % (key, what.strip()[:int(os.environ.get("VERIF_SHOW", "600"))]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        if self.machinery:
            print("MACHINERY: %d case(s) failed in the check itself; first:\n%s\n%s" % (
                len(self.machinery), self.machinery[0][0], json.dumps(self.machinery[0][1])[:500]))
            if rc == 0:
                rc = 2
        if rc == 0 and not replay and (self.evals == 0 or not self.distinct):
            print("ERROR: the run observed nothing")
            rc = 2
        return rc


def main():
    if sys.argv[1] == "--worker":
        worker_main(sys.argv[2], sys.argv[3])
        sys.stdout.flush()
        os._exit(0)
    prop = sys.argv[1].lower()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    try:
        rc = Check(prop).run(replay)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
