"""Runs a case of another check in contexts with additional analyses, worker threads and log files."""
import importlib, os
from ocl import Ctx


def run(w, m, case, extra, threads=None):
    """-> (result of the other check, text written to the log files of its contexts)"""
    if not hasattr(w, "mods"):
        w.mods = {}
    if m not in w.mods:
        mod = importlib.import_module(m)
        w.mods[m] = (mod, mod.setup_worker(w.env))
    mod, mw = w.mods[m]
    logs = []
    base = Ctx.__init__

    def init(self, lib, env=None, queue_props=0, monitor=True):
        e = dict(env or {})
        e.update(extra)
        if "LOG" not in e:
            logs.append(w.env["wd"] + "/foreign%d.log" % len(logs))
            e["LOG"] = logs[-1]
        if threads:
            e["NUM_THREADS"] = threads
        base(self, lib, e, queue_props, monitor)
    Ctx.__init__ = init
    try:
        r = mod.run_case(mw, case)
    finally:
        Ctx.__init__ = base
    text = ""
    for l in logs:
        if os.path.exists(l):
            text += open(l, errors="replace").read()
            os.unlink(l)
    return r, text
