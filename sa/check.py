"""Check protocol: violations, known findings, evidence."""
import json, os, sys, time, traceback
from . import mir, terms as tm

VERIF = mir.VERIF
LEDGER = os.path.join(VERIF, "known-findings.txt")

class Check:
    def __init__(self, cid, rule):
        self.id = cid; self.rule = rule
        self.viols = []; self.counts = {}; self.items = {}; self.t0 = time.time()
        self.notes = []
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def item(self, kind, name):
        l = self.items.setdefault(kind, [])
        if name not in l: l.append(name)
    def viol(self, key, msg):
        if not any(k == key for k, _ in self.viols): self.viols.append((key, msg))
    def need(self, cond, key, msg=""):
        self.count("obligations")
        if not cond: self.viol(key, msg or key)
        return cond
    def floor(self, what, n):
        if self.counts.get(what, 0) < n: self.viol("coverage:%s" % what, "only %d %s analysed, at least %d expected" % (self.counts.get(what, 0), what, n))

def ledger(cid):
    known = []
    if os.path.exists(LEDGER):
        for l in open(LEDGER):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % cid):
                rest = l[len("known: property=%s " % cid):]
                key, _, txt = rest.partition(" :: ")
                known.append((key.strip(), txt))
    return known

def run(cid, rule, fn, prog_loader):
    """run one check; -> exit status"""
    c = Check(cid, rule)
    eng = []
    try:
        prog = prog_loader()
        fn(c, prog)
    except mir.ExtractError as e:
        c.viol("build", "the crate could not be analysed: " + str(e)[-600:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        c.viol("analysis", "the code has a shape this analysis cannot decide: %s: %s (%s)" % (type(e).__name__, str(e)[:300], " < ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))))
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
    known = dict(ledger(cid))
    new = []; seen = []
    for k, m in c.viols:
        if k in known: seen.append((k, m))
        else: new.append((k, m))
    ev = {"property": cid, "level": "other", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "wall_s": round(time.time() - c.t0, 2),
          "coverage": {"explanation": rule, "counts": c.counts, "analysed": c.items,
                       "violations": [{"key": k, "message": m} for k, m in new], "known": [k for k, _ in seen]}}
    EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence"); os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, cid + ".json")
    json.dump(ev, open(p, "w"), indent=1, sort_keys=True)
    for k, m in seen: print("KNOWN-FINDING: property=%s %s: %s" % (cid, k, known[k] or m))
    for k, m in new: print("%s: %s" % (k, m))
    if new:
        print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    print("%s: held on everything analysed (%s)" % (cid, ", ".join("%s %d" % kv for kv in sorted(c.counts.items()))))
    return 0
