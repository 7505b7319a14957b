#!/usr/bin/env python3
"""Make and confirm a planted bug: mkseed.py FILE.py [names...]
FILE.py defines SEEDS = {name: dict(property, edits=[(src file, old, new)], demo=rust, needs, breaks)}.
Confirms in a scratch copy that it builds, passes the stable tests and that the demo tells it apart."""
import sys, os, json, shutil, subprocess, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
names = sys.argv[2:] or list(m.SEEDS)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests") or base
W = "/tmp/vt-seed"
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
if not os.path.exists(W):
    sh(f"cp -a /repo {W}", "/")
for n in names:
    s = m.SEEDS[n]
    sh("git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    d = f"{V}/seeded/{n}"; os.makedirs(d, exist_ok=True)
    if s.get("sh"): open(f"{d}/demo.sh", "w").write(s["sh"])
    else: shutil.copy(f"{V}/tools/seed/demo.sh", d); open(f"{d}/demo.rs", "w").write(s["demo"])
    env = f"sed -i 's#cd /repo#cd {W}#' /dev/null; "
    r0 = sh(f". /opt/vp/env.sh; cd {W}; bash {d}/demo.sh", W)
    ok = True
    for f, a, b in s["edits"]:
        p = f"{W}/src/{f}"; t = open(p).read()
        if t.count(a) != 1: print(n, "EDIT MATCHES", t.count(a), repr(a)[:60]); ok = False; break
        open(p, "w").write(t.replace(a, b))
    if not ok: continue
    open(f"{d}/patch.diff", "w").write(sh("git diff", W).stdout)
    bt = sh(f". /opt/vp/env.sh; cd {W}; cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
    import re
    failed = sorted(set(re.findall(r"^test (\S+).* \.\.\. FAILED", bt.stdout, re.M))); passed = len(re.findall(r" \.\.\. ok$", bt.stdout, re.M))
    r1 = sh(f". /opt/vp/env.sh; cd {W}; bash {d}/demo.sh", W)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    good = r0.returncode == 0 and r1.returncode != 0 and passed >= 116 and "error: could not compile" not in r1.stderr
    err = [l for l in (r0 if r0.returncode else r1).stderr.splitlines() if 'warning' not in l]
    print("OK " if good else "BAD", n, "base", r0.returncode, "patched", r1.returncode, "passed", passed, "failed", failed[:3])
    if not good:
        print("   ", str((r0.stdout[-200:], err[-4:]))[:400], r1.stdout[-300:])
sh("git checkout -q -f .", W)
