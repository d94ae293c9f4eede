"""Development tool (no check uses it): seedtest.py [ids...] [--no-check] [--prop Cxx]
Confirms each planted bug in scratch copies bind-mounted over /repo and /verif in a private mount namespace:
patch applies, builds, stable tests pass, demo passes without / fails with the patch, and whether the check catches it."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
S = "/tmp/seedtest"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--no-check" in sys.argv
fast = "--fast" in sys.argv     # skip tests, only run check
SEEDS = os.environ.get("SEEDS", V + "/seeded")
ids = args or sorted(os.listdir(SEEDS))
SCRIPT = r"""
set -u
mount --bind {S}/{id}/repo /repo; mount --bind {S}/{id}/verif /verif
cd /repo; git checkout -q -- . ; 
DEMO={S}/{id}/demo
git apply {S}/{id}/patch.diff || {{ echo "RESULT apply FAIL"; exit; }}
if [ {fast} = 0 ]; then
bash /opt/vp/test.sh {S}/{id}/out.json > {S}/{id}/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('{S}/{id}/out.json'))['passed'])
print('RESULT tests', 'ok' if b<=p else 'FAIL %s'%sorted(b-p)[:5])
P
cd /repo; timeout 300 bash $DEMO/demo.sh > {S}/{id}/demo.log 2>&1; echo "RESULT demo-with-patch rc=$?"
fi
if [ {nocheck} = 0 ]; then cd /verif; for p in {props}; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p > {S}/{id}/check_$p.log 2>&1; echo "RESULT check $p rc=$? $(grep -c '^VIOLATION property=' {S}/{id}/check_$p.log) violations"; done; fi
"""
def one(i):
    d = "%s/%s" % (S, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    meta = json.load(open("%s/%s/meta.json" % (SEEDS, i)))
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", "%s/%s" % (SEEDS, i), d + "/demo"])
    shutil.move(d + "/demo/patch.diff", d + "/patch.diff")
    os.makedirs(d + "/verif")
    for x in ("lib", "checks", "monitor", "harness", "check", "known_findings.json", "properties.jsonl", "MANIFEST.json", ".build"):
        if os.path.exists(V + "/" + x):
            subprocess.check_call(["cp", "-a", V + "/" + x, d + "/verif/"])
    props = sys.argv[sys.argv.index("--prop") + 1].split(",") if "--prop" in sys.argv else [meta["property"]]
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT.format(S=S, id=i, fast=int(fast), nocheck=int(nocheck), props=" ".join(p.lower() for p in props))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    base = ""
    if not fast:
        b = subprocess.run(["bash", "-c", "cd /repo && timeout 300 bash %s/demo/demo.sh" % d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        base = "demo-unpatched rc=%d" % b.returncode + ("" if b.returncode == 0 else " " + b.stdout[-300:])
    lines = [x[7:] for x in r.stdout.splitlines() if x.startswith("RESULT")]
    out = "%s: %s | %s" % (i, base, " | ".join(lines) or r.stdout[-500:])
    if not os.environ.get("KEEP"):
        shutil.rmtree(d + "/repo", ignore_errors=True); shutil.rmtree(d + "/verif", ignore_errors=True)
    print(out, flush=True)
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    list(ex.map(one, ids))
