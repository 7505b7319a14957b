#!/usr/bin/env python3
"""try.py FILE.py [name...] [-i IDS] [-v]: apply small edits to a scratch copy and run checks on it (development aid)
FILE.py defines V = {name: (ids, kind, [(file, old, new), ...])}; kind 'ref' must stay quiet, 'bug' must be caught."""
import sys, os, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
verbose = "-v" in sys.argv; refs = "-r" in sys.argv   # -r: only the rewritings
ids = None
if "-i" in sys.argv:
    ids = sys.argv[sys.argv.index("-i") + 1].split(","); args.remove(sys.argv[sys.argv.index("-i") + 1])
ns = {}; exec(open(args[0]).read(), ns)
R = "/tmp/vt-" + os.path.basename(args[0])[:-3] + ("-r" if refs else "")
def reset():
    shutil.rmtree(R, ignore_errors=True)
    os.makedirs(R)
    subprocess.run("cd /repo && git ls-files -z | xargs -0 cp --parents -t %s" % R, shell=True, check=True)
from checks import registry
bad = 0
for name, (want, kind, edits) in ns["V"].items():
    if args[1:] and name not in args[1:] or refs and kind != "ref": continue
    reset()
    for f, old, new in edits:
        p = R + "/src/" + f; s = open(p).read()
        if old not in s: print(name, "EDIT DOES NOT APPLY", f, old[:60]); bad += 1; break
        open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=R, VERIF_CACHE="1")
    p = subprocess.run([sys.executable, V + "/sa/mir.py"], env=env, capture_output=True, text=True)
    if not p.returncode: subprocess.run([sys.executable, V + "/sa/mir.py"], env=env, capture_output=True, text=True)   # the first run may write Cargo.lock
    if p.returncode: print(name, "DOES NOT BUILD", (p.stdout + p.stderr)[-1500:]); bad += 1; continue
    run = ids or (sorted(registry.CHECKS) if want == "all" else want.split(","))
    def one(i):
        return i, subprocess.run([sys.executable, V + "/run.py", i], env=dict(env, VERIF_EVID="/tmp/vt-ev"), capture_output=True, text=True)
    with cf.ThreadPoolExecutor(7) as ex: res = list(ex.map(one, run))
    fired = [i for i, q in res if q.returncode]
    okk = (not fired) if kind == "ref" else bool(fired)
    if not okk: bad += 1
    print(("ok  " if okk else "BAD ") + kind, name, "fired:", fired)
    if verbose or not okk:
        for i, q in res:
            if q.returncode: print("     ", i, (q.stdout + q.stderr)[:400])
shutil.rmtree(R, ignore_errors=True)
print("bad:", bad)
