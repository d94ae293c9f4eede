"""C23: launcher options, device limits, logging and API error reports, observed from real processes started by the real launcher."""
import ctypes as ct, glob, os, random, re, signal, subprocess
from collections import Counter
import numpy as np
import ocl
from ocl import Lib, C

PROP = "C23"
VARIANT = "asan"
TARGETS = ("kernel",)
RULE = ("the real launcher (beside its library, or installed as bin/ and lib/) and the standalone simulator run with random option sets, values, repetitions and malformed uses; an application written in C records environment, "
        "arguments, input, output, exit status or signal and the preloaded library; device queries and accepted/rejected work-group, local and constant sizes against the given limits; analyses reported exactly when their "
        "options are given; quick mode, build options, plugins, threads, precompiled headers and temporary files observed; error counts around the limit with several contexts, launches, threads and log destinations, every "
        "message matched once; every API entry point called validly and invalidly with and without error reports; non-trivial = distinct command line or API call kind")
ASSUMPTIONS = ["where the text of an API error goes when a log file is given is not checked", "a context callback may or may not be called for an error, but not for a success and not with another function or code"]
CASE_TIMEOUT = 90
FLAGS = dict([("--check-api", "CHECK_API"), ("--data-races", "DATA_RACES"), ("--disable-pch", "DISABLE_PCH"), ("--dump-spir", "DUMP_SPIR"), ("--inst-counts", "INST_COUNTS"), ("--interactive", "INTERACTIVE"), ("-i", "INTERACTIVE"),
              ("--quick", "QUICK"), ("-q", "QUICK"), ("--uniform-writes", "UNIFORM_WRITES"), ("--uninitialized", "UNINITIALIZED")])
VALUED = {"--" + v.lower().replace("_", "-"): v for v in ("BUILD_OPTIONS", "COMPUTE_UNITS", "CONSTANT_MEM_SIZE", "GLOBAL_MEM_SIZE", "LOCAL_MEM_SIZE", "LOG", "MAX_ERRORS", "MAX_WGSIZE", "NUM_THREADS", "PCH_DIR", "PLUGINS")}


def cases(rng, tier):
    f = 1 if tier == "quick" else 30
    import c17
    S = lambda: rng.randrange(1 << 30)
    out = [dict(k="launch", seed=S()) for _ in range(400 * f)] + [dict(k="device", seed=S()) for _ in range(100 * f)]
    out += [dict(k="log", seed=S()) for _ in range(130 * f)] + [dict(k="effect", seed=S()) for _ in range(200 * f)] + [dict(k="cli", seed=S()) for _ in range(90 * f)]
    for b in c17.BUILDERS:
        if b not in ("ctx", "ctxt"):
            out += [dict(k="api", b=b, seed=S(), n=6 if b in c17.SLOW else 40) for _ in range(f)]
    out += [dict(k="api", b="query", seed=S(), n=40) for _ in range(3 * f)]
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd, w.b = env, env["wd"], env["build"]
    w.app = w.wd + "/app"
    e = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    subprocess.run(["cc", "-O1", "-w", "-o", w.app, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/app23.c", "-ldl", "-lpthread"], check=True, env=e)
    # an installed layout
    for d in ("inst/bin", "inst/lib"):
        os.makedirs(w.wd + "/" + d)
    subprocess.run(["cp", w.b + "/oclgrind", w.wd + "/inst/bin/oclgrind"], check=True)
    for l in ("liboclgrind-rt.so", "liboclgrind.so"):
        os.symlink(w.b + "/" + l, w.wd + "/inst/lib/" + l)
    os.symlink(w.wd + "/inst/bin/oclgrind", w.wd + "/ocg")
    w.asan = os.environ.get("LD_PRELOAD", "")
    w.api = None
    return w


def run_case(w, c):
    return dict(launch=launch, device=device, log=log, effect=effect, cli=cli, api=api)[c["k"]](w, c)


def sane(w, env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("OCLGRIND")}
    e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":verify_asan_link_order=0"     # the launcher puts its library first
    e.update(env or {})
    return e


def go(w, argv, env, stdin=b"", timeout=80):
    """-> (rc, stdout, stderr, sanitizer findings)"""
    p = subprocess.Popen(argv, cwd=w.wd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, b"", b"", []
    san = []
    sf = w.wd + "/san.%d" % p.pid
    if os.path.exists(sf):
        import harness
        t = open(sf, errors="replace").read()
        os.unlink(sf)
        san = harness.parse_san(t) or ([("sanitizer", t[:800])] if "ERROR" in t else [])
    return p.returncode, o, e, san


def tool(w, r):
    """-> (launcher path, library directory it must use, extra environment)"""
    k = r.randrange(4)
    if k < 2:
        return w.b + "/oclgrind", w.b, {"OCLGRIND_TESTING": "1"}
    return (w.wd + "/inst/bin/oclgrind" if k == 2 else w.wd + "/ocg"), w.wd + "/inst/lib", {}


WORDS = ["1", "0", "17", "x y", "", "-DA=1 -DB='2 3'", "\"quoted\"", "a:b", "é", "--quick", "--log", "-5", "/tmp/none.log", "$HOME", "*", "4096", "18446744073709551616", "a=b", "\\", " lead"]


def launch(w, c):
    r = random.Random(c["seed"])
    exe, lib, ev = tool(w, r)
    parent = sane(w, ev)
    for k in r.sample(["OCLGRIND_LOG", "OCLGRIND_QUICK", "OCLGRIND_MAX_ERRORS", "FOO", "LD_LIBRARY_PATH", "OCLGRIND_UNKNOWN", "OCLGRIND_BUILD_OPTIONS"], r.randint(0, 4)):
        parent[k] = r.choice(["old value", "/some/dir", "7"]) if k != "LD_LIBRARY_PATH" else r.choice(["/nonexistent/a", "/nonexistent/a:/nonexistent/b"])
    want = dict(parent)
    opts = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        if r.random() < .5:
            o = r.choice(list(FLAGS))
            want["OCLGRIND_" + FLAGS[o]] = "1"
            opts.append(o)
        else:
            o = r.choice(list(VALUED))
            v = r.choice(WORDS)
            want["OCLGRIND_" + VALUED[o]] = v
            opts += [o, v]
    want["LD_LIBRARY_PATH"] = lib + (":" + parent["LD_LIBRARY_PATH"] if "LD_LIBRARY_PATH" in parent else "")
    real = os.path.realpath
    want["LD_PRELOAD"] = lib + "/liboclgrind-rt.so" + (":" + parent["LD_PRELOAD"] if "LD_PRELOAD" in parent else "")
    code = r.choice([0, 0, 1, 3, 42, 255, -15, -6, -9, -10])
    args = [r.choice(WORDS) for _ in range(r.randint(0, 4))]
    app = w.app
    how = r.randrange(3)
    if how == 1:
        app, parent["PATH"] = "app", w.wd + ":" + parent.get("PATH", "/usr/bin:/bin")
        want["PATH"] = parent["PATH"]
    elif how == 2:
        app = "./app"
    out = w.wd + "/envdump"
    if os.path.exists(out):
        os.unlink(out)
    data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 100, 5000])))
    argv = [exe] + opts + [app, "env", out, str(code)] + args
    rc, so, se, san = go(w, argv, parent, data)
    V = list(san)
    what = "%s: " % argv
    if not os.path.exists(out):
        return dict(violations=V + [("launch:not run", what + "exit %s, stderr %r" % (rc, se[:300]))], nontrivial=[str(argv)])
    raw = open(out, "rb").read().decode("utf8", "surrogateescape")
    a, e, tail = raw.split("\1\0")
    a = a.split("\0")[:-1]
    got = dict(x.split("=", 1) for x in e.split("\0")[:-1])
    if a != [app, "env", out, str(code)] + args:
        V.append(("launch:arguments", what + "the application got %s" % a))
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            if k in ("LD_PRELOAD", "LD_LIBRARY_PATH") and got.get(k) and [real(x) for x in got[k].split(":")] == [real(x) for x in want[k].split(":")]:
                continue
            V.append(("launch:env:" + (k if k.startswith(("OCLGRIND", "LD_")) else "other"), what + "%s is %r, expected %r" % (k, got.get(k), want.get(k))))
    if rc != code:
        V.append(("launch:status", what + "status %s, the application ended with %s" % (rc, code)))
    if so != data:
        V.append(("launch:stdout", what + "stdout %r.. for stdin %r.." % (so[:100], data[:100])))
    if se != b"to stderr\n":
        V.append(("launch:stderr", what + "stderr %r" % se[:300]))
    if "rt=1" not in tail or "cwd=" + os.path.realpath(w.wd) not in tail.replace(w.wd, os.path.realpath(w.wd)):
        V.append(("launch:process", what + tail))
    return dict(violations=V, nontrivial=[str(argv[1:])], stats=dict(processes=1, options=len(opts)), sample=dict(argv=argv[1:6]) if r.random() < .01 else None)


def cli(w, c):
    """usage, versions and malformed command lines of both programs"""
    r = random.Random(c["seed"])
    kt = r.random() < .5
    exe, lib, ev = tool(w, r)
    if kt:
        exe = w.b + "/oclgrind-kernel"
    valued = [o for o in VALUED]
    flags = [o for o in FLAGS if o != "--check-api" and o not in ("--dump-spir",)]
    pre = []
    for _ in range(r.randint(0, 3)):
        pre += [r.choice(flags)] if r.random() < .5 else [r.choice(valued), "1"]
    k = r.choice(["help", "version", "none", "unknown", "missing", "noexec"])
    if k == "help":
        args, rc_, out_, err_ = pre + [r.choice(["-h", "--help"])] + r.choice([[], ["x"], ["--nothing"]]), 0, b"Usage: ", None
    elif k == "version":
        args, rc_, out_, err_ = pre + [r.choice(["-v", "--version"])] + r.choice([[], ["x"]]), 0, b"Oclgrind ", None
    elif k == "none":
        args, rc_, out_, err_ = pre, 1, b"Usage: ", None
    elif k == "unknown":
        o = r.choice(["--nothing", "-x", "--Quick", "-", "--", "--quick=1", "--log=file", "--max-error", "-qq", "--data-race"] + (["--check-api"] if kt else ["-g", "--global-mem"]))
        args, rc_, out_, err_ = pre + [o, w.app, "env", "x", "0"], 1, None, o.encode()
    elif k == "missing":
        o = r.choice(valued)
        args, rc_, out_, err_ = pre + [o], 1, None, o.encode()
    else:
        args, rc_, out_, err_ = pre + [r.choice(["/nonexistent/program", "no-such-program-xyz", w.wd, "./envdump_none"])], 1, None, b""
        if kt:
            args, err_ = pre + ["a.sim", "b.sim"], b"b.sim"
    rc, so, se, san = go(w, [exe] + args, sane(w, ev))
    V, what = list(san), "%s %s: " % (exe, args)
    if rc != rc_:
        V.append(("cli:%s:status" % k, what + "status %s, expected %d; stderr %r" % (rc, rc_, se[:200])))
    if out_ is not None and out_ not in so:
        V.append(("cli:%s:stdout" % k, what + "stdout %r" % so[:200]))
    if err_ is not None and (not se.strip() or err_ not in se):
        V.append(("cli:%s:stderr" % k, what + "stderr %r" % se[:200]))
    if k == "help":
        # every option is explained
        names = set(re.findall(rb"(?m)^ +(--[\w-]+)", so))
        need = {o.encode() for o in list(VALUED) + list(FLAGS) if o.startswith("--") and not (kt and o == "--check-api")} | ({b"--global-mem"} if kt else set()) | {b"--help", b"--version"}
        if names != need:
            V.append(("cli:help:options", what + "options explained %s, options that exist %s" % (sorted(names - need), sorted(need - names))))
    return dict(violations=V, nontrivial=[str((kt, args))], stats=dict(processes=1))


# ---- device limits

LIM = {"cu": ("--compute-units", 1), "gmem": ("--global-mem-size", 128 << 20), "cmem": ("--constant-mem-size", 65536), "lmem": ("--local-mem-size", 32768), "wg": ("--max-wgsize", 1024)}


def device(w, c):
    r = random.Random(c["seed"])
    exe, lib, ev = tool(w, r)
    env, opts, lim = sane(w, ev), [], {k: d for k, (o, d) in LIM.items()}
    bad = None
    for k in r.sample(list(LIM), r.randint(0, 5)):
        v = {"cu": r.choice([1, 2, 16, 1000]), "wg": r.choice([1, 2, 7, 64, 256, 2048, 4096]), "lmem": r.choice([1, 4, 100, 1024, 65536, 1 << 20, (1 << 32) + 64]), "cmem": r.choice([1, 4, 64, 1000, 1 << 20, 5 << 32]),
             "gmem": r.choice([1 << 20, 1 << 30, 1 << 32, (1 << 32) + 5, 3 << 33, 4294967295])}[k]
        s = str(v)
        if r.random() < .04 and not bad:
            s = r.choice(["0", "abc", "12x", "-1", "-7", "1e3", "99999999999999999999999", "0x10", "1.5"])
            bad = LIM[k][0]
        lim[k] = v
        if r.random() < .7:
            opts += [LIM[k][0], s]
        else:
            env["OCLGRIND_" + VALUED[LIM[k][0]]] = s
    L = lim["wg"]
    cmds, exp = [], []
    for _ in range(6):
        t = r.choice(["wg", "local", "const"])
        if t == "wg":
            d = [1, 1, 1]
            i = r.randrange(3)
            d[i] = r.choice([1, L, L + 1, max(1, L - 1), L // 2 + 1, 2 * L])
            if r.random() < .4:
                d[(i + 1) % 3] = r.choice([1, 2, 3, L])
            if d[0] * d[1] * d[2] > 4096 and d[0] * d[1] * d[2] <= L:
                continue
            cmds += ["wg"] + [str(x) for x in d]
            exp.append({0} if max(d) <= L and d[0] * d[1] * d[2] <= L and 4 <= lim["lmem"] and 4 <= lim["cmem"] else {-54, -55} if max(d) > L or d[0] * d[1] * d[2] > L else {-5})
        elif t == "local":
            n = max(1, r.choice([lim["lmem"], lim["lmem"] + 1, lim["lmem"] - 1, 4, 32768, 32769]))
            if n > 8 << 20:
                continue
            cmds += ["local", str(n)]
            exp.append({0} if n <= lim["lmem"] and 4 <= lim["cmem"] else {-5, -52, -51})
        else:
            n = max(1, r.choice([lim["cmem"], lim["cmem"] + 1, lim["cmem"] - 1, 4, 65536, 65537]))
            if n > 8 << 20:
                continue
            cmds += ["const", str(n)]
            exp.append({0} if n <= lim["cmem"] and 4 <= lim["lmem"] else {-5})
    argv = [exe] + opts + [w.app, "dev"] + cmds
    rc, so, se, san = go(w, argv, env)
    V = list(san)
    what = "%s %s: " % (argv, {k: v for k, v in env.items() if k.startswith("OCLGRIND")})
    if bad:
        if rc == 0 or VALUED[bad].encode() not in se:
            V.append(("device:bad value:" + bad, what + "status %s, stdout %r, stderr %r" % (rc, so[:200], se[:200])))
        return dict(violations=V, nontrivial=[str(argv[1:])], stats=dict(processes=1, bad_values=1))
    if rc != 0:
        V.append(("device:status", what + "status %s, stderr %r" % (rc, se[:300])))
    else:
        lines = so.decode().split("\n")
        got = dict(l.split(" ", 1) for l in lines if l and not l.startswith("try"))
        want = {k: str(v) for k, v in lim.items()}
        want["wi"] = "%d %d %d" % (L, L, L)
        want["kwg"] = str(L)
        for k in want:
            if got.get(k) != want[k]:
                V.append(("device:" + k, what + "reported %s, expected %s" % (got.get(k), want[k])))
        tr = [int(l[4:]) for l in lines if l.startswith("try")]
        if len(tr) != len(exp):
            V.append(("device:tries", what + so.decode()[-300:]))
        for i, (a, b) in enumerate(zip(tr, exp)):
            if a not in b:
                V.append(("device:enforce", what + "try %d returned %d, expected %s" % (i, a, sorted(b))))
    return dict(violations=V, nontrivial=[str(argv[1:])], stats=dict(processes=1, tries=len(exp)))


# ---- error log and limit

def log(w, c):
    r = random.Random(c["seed"])
    exe, lib, ev = tool(w, r)
    env = sane(w, ev)
    mode = r.choice(["seq", "par"])
    nctx = r.choice([1, 1, 2, 3])
    plan = []
    for k in range(nctx):
        plan.append(("kern%d" % k, [r.choice([0, 1, 2, 3, 7, 20]) for _ in range(r.randint(1, 3))]))
    if mode == "par":   # round robin: contexts created so far run each launch of the newest
        total = sum(n * (i + 1) for i, (_, l) in enumerate(plan) for n in l)
    else:
        total = sum(sum(l) for _, l in plan)
    lim = None if r.random() < .25 else max(0, r.choice([0, 1, 2, total - 1, total, total + 1, total // 2, 1000, 1 << 32]))
    cap = 1000 if lim is None else lim
    opts = []
    if lim is not None:
        opts += ["--max-errors", str(lim)]
    opts += r.choice([[], ["--num-threads", "1"], ["--num-threads", "4"], ["--num-threads", "8"]])
    dest = r.choice(["stderr", "file", "file", "file", "nodir"])
    path = w.wd + "/err log.txt"
    if os.path.exists(path):
        os.unlink(path)
    if dest == "file":
        if r.random() < .3:
            open(path, "w").write("old contents\nInvalid read\n")
        opts += ["--log", r.choice([path, "err log.txt", "./err log.txt"])]
    elif dest == "nodir":
        opts += ["--log", w.wd + "/no/such/dir/log"]
    args = []
    for n, l in plan:
        args += [n] + [str(x) for x in l] + [","]
    warn = r.random() < .2
    if warn:
        nw, ne = r.choice([0, 1, 3, 8, 20]), r.choice([0, 1, 2, 10])
        total = nw + ne
        if lim is not None:
            cap = max(0, r.choice([0, 1, total - 1, total, total + 1, total // 2]))
            opts[opts.index("--max-errors") + 1] = str(cap)
    argv = [exe] + opts + ([w.app, "log", mode] + args[:-1] if not warn else ["--uninitialized", w.app, "warn", str(nw), str(ne)])
    rc, so, se, san = go(w, argv, env)
    V, what = list(san), "%s: " % argv
    if rc != 0 or so != b"done\n":
        V.append(("log:run", what + "status %s stdout %r stderr %r" % (rc, so[:100], se[:300])))
        return dict(violations=V, nontrivial=[str(argv[1:])])
    serr = se.decode()
    text = open(path).read() if dest == "file" and os.path.exists(path) else "" if dest == "file" else serr
    if dest == "file" and serr:
        V.append(("log:stderr", what + "with a log file stderr holds %r" % serr[:300]))
    if dest == "nodir":
        if serr.count("Unable to open log file") < 1:
            V.append(("log:unopened", what + "no message about the log file; stderr %r" % serr[:200]))
    if warn:
        got = (len(re.findall(r"(?m)^\tKernel: warn\n\tEntity: ", text)), text.count("Invalid write"))
        note = re.findall(r"Oclgrind: (\d+) errors generated - suppressing further errors", text)
        if got[0] != min(total, cap) or got[1] > ne or got[0] - got[1] > nw or note != ([str(cap)] if total > cap else []):
            V.append(("log:warnings", what + "%d messages, %d of them errors, notices %s; %d warnings and %d errors, limit %d: %r" % (got[0], got[1], note, nw, ne, cap, text[:300])))
        return dict(violations=V, nontrivial=[str(argv[1:])], stats=dict(processes=1, errors=total, messages=got[0]))
    want = Counter()
    if mode == "par":
        base = Counter()
        for i, (_, l) in enumerate(plan):
            for n in l:
                for k in range(i + 1):
                    for j in range(n):
                        want[plan[k][0], 4 * (1000 + base[k] + j), j] += 1
                    base[k] += n
    else:
        for name, l in plan:
            b = 0
            for n in l:
                for j in range(n):
                    want[name, 4 * (1000 + b + j), j] += 1
                b += n
    got = Counter()
    for m in re.finditer(r"Invalid write of size 4 at global memory address 0x([0-9a-f]+)\n\tKernel: (\w+)\n\tEntity: Global\((\d+),0,0\) Local\(\d+,0,0\) Group\(\d+,0,0\)\n\t.*\n\tAt line 5 .*\n", text):
        got[m.group(2), int(m.group(1), 16) & ((1 << 48) - 1), int(m.group(3))] += 1
    n = sum(got.values())
    if n != min(total, cap):
        V.append(("log:count", what + "%d messages for %d errors, limit %s (%s to %s)" % (n, total, cap, mode, dest)))
    extra = [k for k in got if got[k] > want.get(k, 0)]
    if extra:
        V.append(("log:wrong", what + "messages without an error: %s" % extra[:4]))
    if text.count("Invalid") != n + ("old contents" in text and 1):
        V.append(("log:garbled", what + "%d messages, %d of them readable; %r" % (text.count("Invalid"), n, text[:400])))
    if "old contents" in text and dest == "file":
        V.append(("log:old", what + "the log still has its former contents"))
    note = re.findall(r"Oclgrind: (\d+) errors generated - suppressing further errors", text)
    if note != ([str(cap)] if total > cap else []):
        V.append(("log:notice", what + "notices %s for %d errors, limit %d" % (note, total, cap)))
    return dict(violations=V, nontrivial=[str(argv[1:])], stats=dict(processes=1, errors=total, messages=n))


# ---- effects of the options on a run

KSRC = """
#ifndef A
#define A 5
#endif
#ifndef BB
#define BB 6
#endif
#ifdef PCHMARK
#define M 1
#else
#define M 0
#endif
kernel void run(global int *o) {
  size_t g = get_global_id(0) + get_global_size(0) * get_global_id(1), n = get_global_size(0) * get_global_size(1);
  int x[2];
  if (%(uninit)d) { o[n + 4] = x[g & 1] > 3; }
  if (%(race)d) o[n + 2] += 1;
  if (%(uniform)d) o[n + 3] = 9;
  if (%(busy)d) { for (int i = 0; i < %(busy)d; i++) o[g] += i & 1; }
  o[g] = g + 1;
  if (g == 0) { o[n] = A * 100 + BB; o[n + 1] = M; }
}
"""


def make_pch(w):
    """a directory with precompiled headers that define PCHMARK"""
    d = w.wd + "/pch"
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    import buildlib
    inc = w.b + "/include/oclgrind/"
    for h in ("opencl-c.h", "opencl-c-base.h"):
        open(d + "/" + h, "w").write(open(inc + h).read() + ("\n#define PCHMARK 1\n" if h == "opencl-c.h" else ""))
    for std in ("1.2", "2.0"):
        subprocess.run([buildlib.LLVM + "/bin/clang", "-cc1", "-x", "cl", "-cl-std=CL" + std, "-O0", "-fno-builtin", "-fgnu89-inline", "-emit-pch", "-triple", "spir64-unknown-unknown", "-relocatable-pch", "-isysroot", d,
                        d + "/opencl-c.h", "-o", "%s/opencl-c-%s-64.pch" % (d, std)], check=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}, stderr=subprocess.DEVNULL)
    return d


def effect(w, c):
    r = random.Random(c["seed"])
    kt = r.random() < .35
    exe, lib, ev = tool(w, r)
    if kt:
        exe = w.b + "/oclgrind-kernel"
    env = sane(w, ev)
    env["OCLGRIND_PCH_DIR"] = w.b + "/include/oclgrind"
    lx, ly = r.choice([1, 2, 4]), r.choice([1, 1, 2])
    gx, gy = lx * r.choice([1, 2, 3, 5]), ly * r.choice([1, 1, 2, 3])
    n = gx * gy
    f = dict(uninit=int(r.random() < .4), race=int(r.random() < .4), uniform=int(r.random() < .4), busy=0)
    nt = r.choice([0, 0, 1, 2, 4])
    watch = 0
    if nt and not kt and r.random() < .5:
        watch, f["busy"], gx, gy, lx, ly = 1, 1500, 32, 1, 1, 1
        n = 32
    on, opts = {}, []

    def use(o, v=None):
        if r.random() < .7:
            opts.append([o] if v is None else [o, v])
        else:
            env["OCLGRIND_" + (FLAGS[o] if v is None else VALUED[o])] = "1" if v is None else v
    for o in ("--data-races", "--uniform-writes", "--uninitialized", "--inst-counts", "--quick", "--check-api"):
        if kt and o == "--check-api":
            continue
        if r.random() < .35:
            on[o] = True
            use(o)
        elif r.random() < .1:
            env["OCLGRIND_" + FLAGS[o]] = r.choice(["0", "", "2", "yes"])      # only 1 enables
    if nt:
        use("--num-threads", str(nt))
    A, B, appopts = 5, 6, ""
    if r.random() < .5:
        A = r.randint(1, 99)
        use("--build-options", "-DA=%d" % A + r.choice(["", " -cl-opt-disable", " -O2"]))
    if not kt and r.random() < .5:
        B = r.randint(1, 99)
        appopts = "-DBB=%d" % B
    pch = "std"
    if r.random() < .15:
        pch = "marked"
        use("--pch-dir", make_pch(w))
    if r.random() < .15:
        pch = "none"
        use("--disable-pch")
    vmon = False
    if r.random() < .2 and not kt:
        p = [w.b + "/libvmon.so"]
        bad = r.random() < .5
        if bad:
            p.insert(r.randint(0, 1), w.wd + "/missing.so")
        use("--plugins", ":".join(p))
        vmon = True
    dump = r.random() < .06
    if dump:
        use("--dump-spir")
    api = r.choice([0, 1, 2]) if not kt else 0
    inter = None
    if r.random() < .08 and not watch:
        use(r.choice(["--interactive", "-i"]) if True else "")
        inter = r.choice([b"continue\n", b"c\n", b"", b"help\nc\n"])
    r.shuffle(opts)
    opts = [x for o in opts for x in o]
    tag = "mark%d" % r.randrange(1 << 40)
    src = "// %s\n" % tag + KSRC % f
    open(w.wd + "/e.cl", "w").write(src)
    N = n + 5
    if kt:
        open(w.wd + "/e.sim", "w").write("e.cl\nrun\n%d %d 1\n%d %d 1\n<size=%d fill=0 dump>\n" % (gx, gy, lx, ly, N * 4))
        argv = [exe] + opts + ["e.sim"]
    else:
        argv = [exe] + opts + [w.app, "run", "e.cl", "run", str(N), appopts, str(gx), str(gy), str(lx), str(ly), str(api), str(watch)]
    before = set(glob.glob("/tmp/oclgrind_*")) if dump else None
    rc, so, se, san = go(w, argv, env, inter or b"")
    V = list(san)
    so, se = so.decode("utf8", "replace"), se.decode("utf8", "replace")
    what = "%s with %s, kernel %s: " % (argv, {k: v for k, v in env.items() if k.startswith("OCLGRIND")}, f)
    if dump:
        mine, kinds = [], set()
        for x in glob.glob("/tmp/oclgrind_*.cl"):
            try:
                if tag in open(x, errors="replace").read():
                    mine.append(x[:-3])
            except OSError:
                pass
        for x in mine:
            for e in (".cl", ".ll", ".bc"):
                if os.path.exists(x + e):
                    kinds.add(e)
                    if e == ".ll" and "define" not in open(x + e, errors="replace").read() or e == ".bc" and open(x + e, "rb").read(2) != b"BC":
                        V.append(("effect:dump-spir:contents", what + x + e))
                    os.unlink(x + e)
        if kinds != {".cl", ".ll", ".bc"}:
            V.append(("effect:dump-spir", what + "files written: %s" % sorted(kinds)))
    if rc != 0:
        V.append(("effect:status", what + "status %s, stdout %r stderr %r" % (rc, so[-200:], se[:400])))
        return dict(violations=V, nontrivial=[str(argv[1:])])
    # output of the kernel
    if kt:
        out = [int(x) for x in re.findall(r"  o\[\d+\] = (-?\d+)", so)]
    else:
        m = re.search(r"(?m)^(?:\(oclgrind\) )*out((?: -?\d+)+)$", so)
        out = [int(x) for x in m.group(1).split()] if m else []
    ngx, ngy = gx // lx, gy // ly
    if len(out) != N:
        V.append(("effect:output", what + "no output: %r" % so[-300:]))
    elif not watch:
        for g in range(n):
            grp = (g % gx // lx, g // gx // ly)
            runs = "--quick" not in on or grp in ((0, 0), (ngx - 1, ngy - 1))
            if out[g] != (g + 1 if runs else 0):
                V.append(("effect:quick" if "--quick" in on else "effect:results", what + "work-item %d wrote %d" % (g, out[g])))
                break
    if len(out) == N:
        if out[n] != A * 100 + B:
            V.append(("effect:build-options", what + "A, BB give %d, expected %d" % (out[n], A * 100 + B)))
        if out[n + 1] != (1 if pch == "marked" else 0):
            V.append(("effect:pch", what + "mark of the precompiled header %d" % out[n + 1]))
    groups = min(2, ngx * ngy) if "--quick" in on else ngx * ngy
    items = groups * lx * ly
    # the analyses: reported exactly if asked for (a race needs two work-items that run)
    races = set(re.findall(r"data race at global memory address 0x[0-9a-f]+", se))
    at = {int(x[-12:], 16) & 0xFFFFFFFF for x in (re.search(r"0x([0-9a-f]+)", y).group(1) for y in races)}
    wantr = set()
    if "--data-races" in on and items > 1:
        if f["race"]:
            wantr |= set(range(4 * (n + 2), 4 * (n + 2) + 4))
        if f["uniform"] and "--uniform-writes" in on:
            wantr |= set(range(4 * (n + 3), 4 * (n + 3) + 4))
        wantr_opt = set(range(4 * (n + 4), 4 * (n + 4) + 4)) if f["uninit"] else set()
    else:
        wantr_opt = set()
    words = lambda s: {x // 4 for x in s}
    if not words(wantr) <= words(at) or not words(at) <= words(wantr | wantr_opt):
        V.append(("effect:races", what + "races at words %s, expected %s" % (sorted(words(at)), sorted(words(wantr)))))
    un = len(re.findall(r"[Uu]ninitialized", se))
    if bool(un) != ("--uninitialized" in on and bool(f["uninit"])):
        # undefined values may be folded away by the compiler
        if un or not f["uninit"]:
            V.append(("effect:uninitialized", what + "%d messages" % un))
    ic = "Instructions executed for kernel 'run'" in so
    if ic != ("--inst-counts" in on):
        V.append(("effect:inst-counts", what + "histogram %s" % ("printed" if ic else "not printed")))
    ae = se.count("OpenCL runtime error detected")
    if ae != (api if "--check-api" in on else 0):
        V.append(("effect:check-api", what + "%d reports for %d errors" % (ae, api)))
    if not kt and ("vmon 1" in so) != vmon:
        V.append(("effect:plugins", what + "plugin %s" % ("loaded" if "vmon 1" in so else "not loaded")))
    if vmon and bad and "missing.so" not in se:
        V.append(("effect:plugins:missing", what + "no message about the missing plugin: %r" % se[:200]))
    if bool(re.search(r"(?m)^\d+\t", so)) != (inter is not None):
        V.append(("effect:interactive", what + "stdout %r" % so[:200]))
    if watch:
        m = re.search(r"threads (-?\d+)", so)
        cap = min(nt, groups)
        if "--uninitialized" in on:
            cap = nt if False else nt
        if not m or int(m.group(1)) > nt:
            V.append(("effect:threads", what + "%s additional threads" % (m and m.group(1))))
        elif nt > 1 and groups >= 8 and int(m.group(1)) < 2 and "--inst-counts" not in on and "--uninitialized" not in on:
            # fewer than asked for: only a violation if it happens again
            again = [int(re.search(rb"threads (-?\d+)", go(w, argv, env)[1]).group(1)) for _ in range(3)]
            if max(again) < 2:
                V.append(("effect:threads:few", what + "%s additional threads, again %s" % (m.group(1), again)))
    rest = [l for l in se.split("\n") if l.startswith(("Invalid", "OCLGRIND"))]
    if rest:
        V.append(("effect:other", what + "unexpected messages %s" % rest[:3]))
    return dict(violations=V, nontrivial=[str(argv[1:]) + str(f)], stats=dict(processes=1, races=len(wantr), api_errors=api))


# ---- reports of API errors

NOTIFY = ct.CFUNCTYPE(None, ct.c_char_p, ct.c_void_p, ct.c_size_t, ct.c_void_p)
CODES = {v: k for k, v in C.items() if isinstance(v, int) and v < 0 and k.startswith("CL_") and not k.endswith("_KHR") and not k.startswith(("CL_HALF", "CL_FLT", "CL_DBL", "CL_BUILD_NONE", "CL_BUILD_ERROR", "CL_BUILD_IN"))}


def setup_api(w):
    import c17
    w.fired = []
    w.cb = NOTIFY(lambda s, d, n, u: w.fired.append((s.decode(), u)))
    real = c17.Lib

    def mk(b):
        L = real(b)
        orig = L.clCreateContext
        L.clCreateContext = lambda p, n, d, cb, ud, e: orig(p, n, d, w.cb, 0x55, e)
        return L
    c17.Lib = mk
    w.c17 = c17
    w.api = c17.setup_worker(w.env)
    w.api.kset = w.api.X.kernel(w.api.prog, "k")
    c17.Lib = real


class Err:
    """captures file descriptor 2"""

    def __init__(self, w):
        self.path = w.wd + "/stderr"
        self.save = os.dup(2)
        fd = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 2)
        os.close(fd)

    def end(self):
        os.dup2(self.save, 2)
        os.close(self.save)
        return open(self.path, errors="replace").read()


QUERIES = [("clGetContextInfo", "ctx"), ("clGetCommandQueueInfo", "q"), ("clGetMemObjectInfo", "buf"), ("clGetEventInfo", "ev"), ("clGetKernelInfo", "kern"), ("clGetProgramInfo", "prog"), ("clGetSamplerInfo", "samp"),
           ("clGetDeviceInfo", "dev"), ("clGetPlatformInfo", "platform"), ("clGetImageInfo", "im"), ("clGetEventProfilingInfo", "ev")]
VALIDQ = dict(clGetContextInfo=0x1080, clGetCommandQueueInfo=0x1092, clGetMemObjectInfo=0x1105, clGetEventInfo=0x11D2, clGetKernelInfo=0x1193, clGetProgramInfo=0x1160, clGetSamplerInfo=0x1150, clGetDeviceInfo=0x1001, clGetPlatformInfo=0x0900,
              clGetImageInfo=0x1111, clGetEventProfilingInfo=None)


def api(w, c):
    r = random.Random(c["seed"])
    if w.api is None:
        setup_api(w)
    a, m = w.api, w.c17
    L = a.L
    a.im = a.img["IMAGE2D"]
    V, keys, nerr = [], set(), 0
    L.clFinish(a.q)
    for _ in range(c["n"]):
        on = r.choice(["1", "1", "1", "0", None])
        buf = ct.create_string_buffer(64)
        if c["b"] == "query":
            fn, o = r.choice(QUERIES)
            obj = getattr(a, o)
            bad = r.choice(["name", "size", "object", "none"])
            p = VALIDQ[fn]
            if p is None or bad == "name":
                p = 0x7777
            args = [None if bad == "object" and fn != "clGetPlatformInfo" else obj, p, 0 if bad == "size" else 64, buf, None]
            name, label, kind, post, valid = fn, bad, "int", None, None
            call = None
        else:
            call = m.BUILDERS[c["b"]](a, r)
            ms = r.sample(call.muts, min(r.choice([0, 1, 1, 1]), len(call.muts)))
            d = dict(call.a)
            for x in ms:
                x[1](d)
            valid = not ms
            name, label, kind, args = call.name, ", ".join(x[0] for x in ms) or "valid", call.kind, list(d.values())
            if getattr(call, "pre", None) and valid:
                call.pre()
        if on is None:
            os.environ.pop("OCLGRIND_CHECK_API", None)
        else:
            os.environ["OCLGRIND_CHECK_API"] = on
        w.fired.clear()
        err = ct.c_int32(12345)
        cap = Err(w)
        try:
            if kind == "obj":
                res = getattr(L, name)(*args, ct.byref(err))
                code = err.value
            else:
                code, res = getattr(L, name)(*args), None
        finally:
            text = cap.end()
        fired = list(w.fired)
        os.environ.pop("OCLGRIND_CHECK_API", None)
        L.clFinish(a.q)
        what = "%s with %s (check-api %s) returns %d: " % (name, label, on, code)
        key = "api:%s:%s" % (name, label)
        keys.add(key + str(on))
        nerr += code != 0
        rep = re.findall(r"Oclgrind - OpenCL runtime error detected\n\tFunction: (\w+)\n\tError: +(\w+)\n", text)
        # a link or build that fails reports with the code it returns; success never reports
        want = [(name, CODES.get(code, "?"))] if code != 0 and on == "1" else []
        if rep != want:
            V.append((key if len(rep) != len(want) else "api:text:" + name, what + "reported %s, expected %s" % (rep, want)))
        if text.count("runtime error") != len(rep):
            V.append((key + ":text", what + "text %r" % text[:300]))
        for s, u in fired:
            x = re.findall(r"Function: (\w+)\n\tError: +(\w+)\n", s)
            if code == 0 or x != [(name, CODES.get(code, "?"))] or u != 0x55 or len(fired) > 1:
                V.append(("api:callback:" + name, what + "the context callback gets %r, %s" % (s, u)))
        if call is not None:
            if getattr(call, "enq", False) and code == 0:
                ev = d.get("ev")
                if ev and call.ev.value:
                    L.clReleaseEvent(call.ev)
            if valid and call.post and code == 0:
                call.post(res)
                L.clFinish(a.q)
            elif not valid and getattr(call, "undo", None):
                call.undo()
                L.clFinish(a.q)
            if not valid and code == 0:
                break
        if len(V) > 8:
            break
    return dict(violations=V, nontrivial=sorted(keys), evals=c["n"], stats=dict(calls=c["n"], failed_calls=nerr))
