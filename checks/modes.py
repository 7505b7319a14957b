"""How the network is consulted (C13): an effect analysis over the call graph.
Every evaluation's training flag is followed through the callers; gradient recording is a must-dataflow over each body."""
from .common import *
from sa.mir import short
import json

FLAG = {"Tensor::apply_t": 2, "ModuleT::forward_t": 2}          # library evaluations and the place of their flag
STEP = ("Optimizer::step", "Optimizer::backward_step", "Optimizer::backward_step_clip", "Optimizer::backward_step_clip_norm")
LEARN = STEP + ("Tensor::backward", "Optimizer::zero_grad", "Tensor::f_backward", "Tensor::run_backward")
LOAD = ("VarStore::load", "VarStore::copy", "VarStore::load_partial", "VarStore::load_from_stream", "VarStore::merge", "VarStore::f_load", "VarStore::half", "VarStore::float", "VarStore::double", "VarStore::bfloat16", "VarStore::set_kind", "VarStore::set_device", "VarStore::freeze", "VarStore::unfreeze")
VARS = ("VarStore::variables", "VarStore::trainable_variables", "VarStore::variables_", "Optimizer::trainable_variables")
ROOTS = ("alpha_mcts::alpha_mcts", "alpha_mcts::alpha_mcts_parallel", "AlphaZero::self_play", "AlphaZero::self_play_parallel", "AlphaZero::get_next_move_for_state")
THREADS = ("rayon", "std::thread", "crossbeam")

class Site:
    def __init__(self, body, b, names, path, args, span): self.body = body; self.b = b; self.names = names; self.path = path; self.args = args; self.span = span

def closures_in(x):
    """closure bodies named anywhere inside a statement or operand"""
    if isinstance(x, dict):
        for y in x.values(): yield from closures_in(y)
    elif isinstance(x, list):
        if len(x) >= 2 and x[0] == "closure" and isinstance(x[1], str): yield x[1]
        for y in x: yield from closures_in(y)
def fns_in(x):
    """function items mentioned as values"""
    if isinstance(x, dict):
        if x.get("c") == "fn": yield x.get("path") or x.get("v")
        for y in x.values(): yield from fns_in(y)
    elif isinstance(x, list):
        if len(x) >= 2 and x[0] == "fn" and isinstance(x[1], str): yield x[1]
        for y in x: yield from fns_in(y)

class Graph:
    def __init__(self, prog):
        self.prog = prog; self.sites = {}; self.made = {}; self.called = {}
        for p, B in prog.bodies.items():
            L = []
            for i, blk in enumerate(B.blocks):
                t = blk["t"]
                if t[0] == "call" and "ind" not in t[1]:
                    cal = t[1]; rp = cal.get("resolved") or cal["path"]
                    tgt = rp if rp in prog.bodies else cal["path"] if cal["path"] in prog.bodies else None
                    L.append(Site(B, i, {short(cal["path"]), short(rp)}, tgt, t[2], t[5]))
                    for c in set(closures_in(t[2])): self.made.setdefault(c, []).append((B, i))
                    for f in set(fns_in(t[2])):
                        if f in prog.bodies: L.append(Site(B, i, {short(f)}, f, None, t[5]))
                for s in blk["s"]:
                    for c in set(closures_in(s)): self.made.setdefault(c, []).append((B, i))
                    for f in set(fns_in(s)):
                        if f in prog.bodies: L.append(Site(B, i, {short(f)}, f, None, s[-1]))
            self.sites[p] = L
        for p, L in self.sites.items():
            for s in L:
                if s.path: self.called.setdefault(s.path, []).append(s)
        # traits of the crate: a call that is not resolved may reach every implementation
        for p, L in self.sites.items():
            for s in L:
                if s.path is None:
                    for q in prog.bodies:
                        if q.startswith("<die_e") and any(short(q) == n for n in s.names) and " as die_e" in q: self.called.setdefault(q, []).append(s)
    def reach(self, roots):
        """bodies that may run when the roots run, with the way there"""
        way = {b.path: (b.path,) for b in roots}; work = list(way)
        while work:
            p = work.pop()
            nxt = [s.path for s in self.sites[p] if s.path] + [c for c, ws in self.made.items() if any(w.path == p for w, _ in ws)]
            for q, ss in self.called.items():
                if any(s.body.path == p for s in ss): nxt.append(q)
            for q in nxt:
                if q in self.prog.bodies and q not in way: way[q] = way[p] + (q,); work.append(q)
        return way
    def callers(self, p):
        """bodies that call p or make the closure p"""
        return {s.body.path for s in self.called.get(p, [])} | {w.path for w, _ in self.made.get(p, [])}

def flag_of(B, op, depth=0):
    """constant of an operand: True, False, ('param', i) or None"""
    if op is None: return None
    if op[0] == "const": return op[1].get("v") if op[1].get("c") == "bool" else None
    if op[0] in ("move", "copy"):
        l, pr = op[1]
        if pr: return None
        if 1 <= l <= B.argc: return ("param", l - 1)
        vals = set(); n = 0
        for blk in B.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[1] == [l, []]:
                    n += 1; vals.add(flag_of(B, s[2][1], depth + 1) if s[2][0] == "use" and depth < 8 else None)
            if blk["t"][0] == "call" and blk["t"][3] == [l, []]: n += 1; vals.add(None)
        if n and len(vals) == 1: return vals.pop()
    return None

def guard_in(B):
    """blocks whose terminator runs with gradient recording off on every path that reaches it"""
    n = len(B.blocks)
    gen = {}; IN = {0: frozenset()}; work = [0]
    def flow(b, s):
        s = set(s); blk = B.blocks[b]
        for st in blk["s"]:
            if st[0] == "=" and st[2][0] == "use" and st[2][1][0] == "move" and st[2][1][1][1] == [] and st[2][1][1][0] in s:
                s.discard(st[2][1][1][0])
                if st[1][1] == []: s.add(st[1][0])
        return s
    def term(b, s):
        s = set(s); t = B.blocks[b]["t"]
        if t[0] == "drop" and t[1][0] in s and t[1][1] == []: s.discard(t[1][0])
        if t[0] == "call":
            for a in t[2]:
                if a[0] == "move" and a[1][1] == []: s.discard(a[1][0])
            if len(t) > 6 and isinstance(t[6], list) and t[6][:2] == ["adt", "tch::NoGradGuard"] and t[3][1] == []: s.add(t[3][0])
        return s
    AT = {}
    while work:
        b = work.pop()
        a = flow(b, IN[b]); AT[b] = frozenset(a)
        o = frozenset(term(b, a))
        for x in B.succs(b):
            if x not in IN: IN[x] = o; work.append(x)
            elif IN[x] & o != IN[x]: IN[x] = IN[x] & o; work.append(x)
    return {b for b, s in AT.items() if s}

def c13(c, prog):
    G = Graph(prog)
    # ---- which functions evaluate the network, and with which flag
    evals = {}                                     # body path -> index of the flag parameter
    sites = []
    ch = True
    def flag_index(s):
        for n in s.names:
            if n in FLAG: return FLAG[n]
        return evals.get(s.path)
    done = set()
    while ch:
        ch = False
        for p, L in G.sites.items():
            for s in L:
                i = flag_index(s)
                if i is None or id(s) in done: continue
                f = flag_of(s.body, s.args[i]) if s.args is not None and i < len(s.args) else None
                done.add(id(s)); sites.append((s, f))
                if isinstance(f, tuple) and p not in evals: evals[p] = f[1]; ch = True
    steppers = {p for p, L in G.sites.items() if any(s.names & set(STEP) for s in L)}
    def training(p, seen=()):
        """does p only ever run as part of a training step"""
        if p in steppers: return True
        if p in seen: return False
        cs = G.callers(p)
        return bool(cs) and all(training(q, seen + (p,)) for q in cs)
    nets = [s for s, f in sites]
    for s, f in sites:
        name = prog.bodies[s.body.path].name
        c.item("evaluations", "%s at %s" % ("/".join(sorted(s.names)), s.span)); c.count("evaluations")
        if f is None: c.viol(name + ":flag", "%s evaluates the network with a flag that is not constant (%s)" % (name, s.span))
        elif f is True: c.need(training(s.body.path), name + ":flag", "%s evaluates the network in training mode outside the training step (%s)" % (name, s.span))
    c.need(len(steppers) >= 1, "steppers", "no optimizer step found")
    # ---- gradient recording
    guarded = {p: guard_in(B) for p, B in prog.bodies.items()}
    netfns = {p for p in evals}
    def inside(s_body, b): return b in guarded[s_body.path]
    open_ = {}                                     # body -> an evaluation in it that its own guards do not cover
    def library(s): return any(n in FLAG for n in s.names)
    ch = True
    for p, L in G.sites.items():
        for s in L:
            if library(s) and not inside(s.body, s.b): open_[p] = s.span
    covered = set()
    while ch:
        ch = False
        for p, B in prog.bodies.items():
            if p in open_: continue
            for s in G.sites[p]:
                if s.path in open_ and not (inside(B, s.b)): open_[p] = s.span; ch = True; break
            if p in open_: continue
            for cl, ws in G.made.items():
                if cl not in open_: continue
                for w, b in ws:
                    if w.path != p: continue
                    ok_, why = closure_covered(B, cl, b, guarded[p])
                    if not ok_: open_[p] = why; ch = True
    for r in ROOTS:
        bs = prog.find(r)
        for B in bs:
            c.count("searches"); c.item("searches", B.name)
            c.need(B.path not in open_, B.name + ":gradients", "%s evaluates the network while gradients are recorded (%s)" % (B.name, open_.get(B.path)))
    for p in open_:
        B = prog.bodies[p]
        if G.callers(p) or training(p) or p in steppers or p in evals: continue
        if B.kind == "Closure": continue
        # nothing of the program calls it: an entry point of its own
        c.need(only_training(G, p, open_, steppers, training), B.name + ":gradients", "%s evaluates the network while gradients are recorded (%s)" % (B.name, open_[p]))
    # ---- who can change weights
    way = G.reach([b for r in ROOTS for b in prog.find(r)])
    for p in way:
        for s in G.sites[p]:
            bad = s.names & (set(LEARN) | set(LOAD))
            c.need(not bad, prog.bodies[p].name + ":weights", "%s is reached from a search or from self-play: %s (%s)" % (", ".join(sorted(bad)), " > ".join(prog.bodies[x].name for x in way[p]), s.span))
        c.count("reached_functions")
    play = G.reach([b for b in prog.bodies.values() if b.name in ("versus::play", "AlphaZero::play_vs_model", "AlphaZero::play_vs_best_model")])
    for p in play:
        for s in G.sites[p]:
            bad = s.names & set(LEARN)
            c.need(not bad, prog.bodies[p].name + ":match", "%s is reached from a match: %s (%s)" % (", ".join(sorted(bad)), " > ".join(prog.bodies[x].name for x in play[p]), s.span))
        c.count("reached_functions")
    for p, L in G.sites.items():
        if not any(s.names & set(VARS) for s in L): continue
        for q in [p] + [x for x in prog.bodies if x.startswith(p + "::{closure")]:
            for s in G.sites[q]:
                w = [n for n in s.names if n.startswith("Tensor::") and (n.endswith("_") or n in ("Tensor::set_data", "Tensor::set_requires_grad", "Tensor::copy_data"))]
                c.need(not w, prog.bodies[p].name + ":variables", "%s writes to the network's variables with %s (%s)" % (prog.bodies[p].name, w, s.span))
        c.count("uses_of_variables")
    c.floor("evaluations", 10); c.floor("searches", 4); c.floor("reached_functions", 20)

def only_training(G, p, open_, steppers, training):
    """every evaluation that p leaves uncovered belongs to training"""
    seen = set(); work = [p]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if x in steppers: continue
        if any(n in FLAG for s in G.sites[x] for n in s.names): return False
        for s in G.sites[x]:
            if s.path in open_ and s.b not in guard_in(s.body): work.append(s.path)
        for cl, ws in G.made.items():
            if cl in open_ and any(w.path == x for w, _ in ws): work.append(cl)
    return True

def closure_covered(B, cl, b, G):
    """a closure that evaluates the network: made under a guard that lives until everything called after it has run, or run by no_grad"""
    t = B.blocks[b]["t"]
    # handed to no_grad
    for i, blk in enumerate(B.blocks):
        t = blk["t"]
        if t[0] == "call" and "ind" not in t[1] and short(t[1]["path"]) in ("tch::no_grad", "no_grad"):
            for a in t[2]:
                if cl in set(closures_in(a)): return True, None
                if a[0] in ("move", "copy") and any(cl == x for x in closures_in(B.locals[a[1][0]]["ty"])): return True, None
    if b not in G: return False, "a closure made at block %d without a guard" % b
    reach = set(); work = [b]
    while work:
        x = work.pop()
        if x in reach: continue
        reach.add(x); work.extend(B.succs(x))
    for x in reach:
        t = B.blocks[x]["t"]
        if t[0] != "call" or "ind" in t[1]: continue
        takes = any(a[0] in ("move", "copy") and cl in set(closures_in(B.locals[a[1][0]]["ty"])) for a in t[2])
        if takes and x not in G: return False, t[5]
        rp = t[1].get("resolved") or t[1]["path"]
        if takes and any(w in rp or w in t[1]["path"] for w in THREADS): return False, t[5] + " (on other threads)"
    return True, None
