"""Development tool: makes a seeded/<id>/ folder from an edit script.
usage in python: seed(id, prop, needs, breaks, edits=[(file, old, new)], demo_c=... or demo_sh=..., files={})"""
import json, os, shutil, subprocess, tempfile
V = "/verif"
def seed(id, prop, needs, breaks, edits, demo_c=None, demo_sh=None, files=None):
    d = "%s/%s" % (os.environ.get("SEEDS", V + "/seeded"), id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=v -c user.email=v@v commit -qm b" % (t, t), shell=True)
    for f, old, new in edits:
        s = open(t + "/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(t + "/" + f, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo_c is not None:
        open(d + "/demo.c", "w").write('#include "cl.h"\n' + demo_c)
        shutil.copy(V + "/lib/seed/cl.h", d + "/cl.h")
        shutil.copy(V + "/lib/seed/demo.sh", d + "/demo.sh")
    if demo_sh is not None:
        open(d + "/demo.sh", "w").write(demo_sh)
    if os.path.exists(d + "/demo.sh"):
        os.chmod(d + "/demo.sh", 0o755)
    for n, c in (files or {}).items():
        open(d + "/" + n, "w").write(c)
