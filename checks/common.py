"""Shared parts of the checks."""
from sa import mir, terms as tm
from sa.terms import *
from sa.facts import Facts, split, INF
from sa.engine import Engine, State, Out, Ev, LoopRec, flatten, Unsupported, settype, typeof
from sa.rules import *

class NotFound(Exception): pass

def fn(prog, name, impl=None, trait=None):
    """the body of a function by short name; impl = type the method belongs to"""
    if impl and trait:
        for p, b in prog.bodies.items():
            if p.endswith("::%s>::%s" % (trait, name)) and p.startswith("<") and p[1:].split(" as ")[0].split("<")[0].endswith("::" + impl): return b
        raise NotFound("no `%s` in the implementation of %s for %s" % (name, trait, impl))
    r = prog.find(name)
    if len(r) != 1: raise NotFound("function %s: %d candidates" % (name, len(r)))
    return r[0]
def game(prog, impl, name): return fn(prog, name, impl, "LearnableGame")

class Run:
    """one analysis of one function"""
    def __init__(self, c, prog, body, args, facts=None, mem=None, **kw):
        self.c = c; self.e = Engine(prog, **kw); self.body = body
        st = State(dict(mem or {}), facts.copy() if facts else Facts())
        self.args = args
        self.outs = self.e.run_body(body, list(args), st, ("top", body.path))
        self.rets = [o for o in self.outs if o.kind == "ret"]
        self.panics = [o for o in self.outs if o.kind == "panic"]
        for n in self.e.analysed: c.item("functions", n)
        c.item("functions", body.name)
        c.count("rows", len(self.outs))
        c.count("abstract_states", self.e.nstates)

def mutref(name): return mk("ref", ("g", name), ())

def cval(prog, impl, name):
    """associated constant of a game"""
    for p, v in prog.consts.items():
        if p.endswith("::" + name) and ("::%s as" % impl in p or p.startswith("<%s as" % impl)): return v
    raise NotFound("constant %s of %s" % (name, impl))

def where(o): return str(o.st.facts)[:260]

def compare(c, key, outs, spec, facts_ok=None, what="", same=implied_eq):
    """every row returns what the reference says; spec(ask, row) -> expected term"""
    for o in outs:
        for f, exp in refine(o.st.facts, lambda ask: spec(ask, o)):
            if exp is None: continue
            c.count("cases")
            if o.kind != "ret":
                c.viol(key + ":panic", "%s stops (%s) when %s" % (what, show(o.val) if isinstance(o.val, T) else o.val, str(f)[:300])); continue
            if not same(o.val, exp, f):
                c.viol(key, "%s: gives %s, expected %s, when %s" % (what, show(norm(o.val, f))[:300], show(norm(exp, f))[:300], str(f)[:300]))

def unfold(R):
    """the single loop a value was built by: (iterations, inits, paths, variable, S, other) with S(values) = R with the loop variables set"""
    fs = []; seen = set(); work = [R]
    while work:
        t = work.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == "fold": fs.append(t)
        else: work.extend(kids(t))
    if not fs: return None
    heads = {(t.args[0], t.args[2], t.args[3], t.args[4]) for t in fs}
    if len(heads) != 1: raise NotFinite("value built by %d loops: %s" % (len(heads), show(R)[:200]))
    at, inits, body, bv = next(iter(heads))
    def S(vals):
        return subst(R, {t: vals[t.args[1]] for t in fs})
    phs = [mk("ph", bv.args[0], i) for i in range(len(inits))]
    return at, inits, body, bv, S, phs

def cond_of(lits): return band(*[f if v else bnot(f) for f, v in lits])

def with_facts(base, lits):
    """facts extended by literals; None when contradictory"""
    f = base.copy()
    for l, v in lits:
        if not f.add(l, v): return None
    return f
def all_cases(base, formula):
    """completions of base in which the formula is true"""
    return [g for g, b in split(formula, base) if b]

def drawn_anew(t):
    """a name with a random part long enough never to come up twice"""
    return mentions(t, lambda z: z.op == "call" and (z.args[0] == "nanoid::format" and z.args[3].op == "num" and z.args[3].args[0] >= 8 or z.args[0].startswith(("uuid::", "Uuid::", "nanoid::simple"))))
