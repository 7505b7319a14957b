"""Tools the rules use on the results of the engine: instantiation of comprehensions over finite
domains, canonical boolean formulas, and comparison of analysed rows with a reference."""
from fractions import Fraction
from . import terms as tm
from .terms import *
from .facts import Facts, split, INF
from . import engine as en
from .engine import Engine, State, Out, Ev, LoopRec, flatten, typeof, mkcomp, quant
from . import mir

# ---------------------------------------------------------------- canonical boolean formulas
class BDD:
    """reduced ordered decision diagrams over threshold literals p <= c (integers) and opaque literals"""
    def __init__(self, dom=None):
        self.tab = {}; self.memo = {}; self.order = {}; self.ths = {}; self.dom = dom or {}
        self.cache = {}
    def node(self, v, lo, hi):
        if lo is hi: return lo
        k = (v, id(lo), id(hi))
        n = self.tab.get(k)
        if n is None: n = self.tab[k] = (v, lo, hi)
        return n
    def key(self, f):
        if f.op == "le": return (0, f.args[0].uid, Fraction(f.args[1]))
        return (1, f.uid, 0)
    def lit(self, f):
        if f.op == "le":
            self.ths.setdefault(f.args[0], set()).add(f.args[1])
            lo, hi = self.rng(f.args[0])
            if f.args[1] >= hi: return True
            if f.args[1] < lo: return False
        return self.node(self.key(f), False, True)
    def rng(self, p):
        r = self.dom.get(p)
        return r if r else Facts().rng(p)
    def apply(self, op, a, b):
        if op == "and":
            if a is False or b is False: return False
            if a is True: return b
            if b is True: return a
            if a is b: return a
        k = (op, id(a), id(b)); r = self.memo.get(k)
        if r is not None: return r
        v = min(a[0], b[0])
        a0, a1 = (a[1], a[2]) if a[0] == v else (a, a)
        b0, b1 = (b[1], b[2]) if b[0] == v else (b, b)
        r = self.node(v, self.apply(op, a0, b0), self.apply(op, a1, b1))
        self.memo[k] = r
        return r
    def neg(self, a):
        if a is True: return False
        if a is False: return True
        k = ("not", id(a)); r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.node(a[0], self.neg(a[1]), self.neg(a[2]))
        return r
    def build(self, f):
        r = self.cache.get(f)
        if r is not None: return r
        o = f.op
        if o == "b": r = f.args[0]
        elif o == "not": r = self.neg(self.build(f.args[0]))
        elif o == "and":
            r = True
            for x in f.args: r = self.apply("and", r, self.build(x))
        elif o == "ite":
            c, a, b = (self.build(x) for x in f.args)
            r = self.neg(self.apply("and", self.neg(self.apply("and", c, a)), self.neg(self.apply("and", self.neg(c), b))))
        elif o == "eqc" and isinstance(f.args[1], int) and not self.small(f):
            p, c = f.args
            r = self.apply("and", self.build(mk("le", p, c)), self.neg(self.build(mk("le", p, c - 1))))
        elif o in ("eqc", "le", "eq") and self.small(f):
            r = self.by_cases(f)
        elif o == "any" and f.args[0].op == "num":
            n, c, b = f.args
            r = self.build(bor(*[subst(c, {b: num(i)}) for i in range(n.args[0])]))
        elif o in ("le", "eqc") and f.args[0].op == "len" and f.args[0].args[0].op in ("comp", "cat") and isinstance(f.args[1], int): r = self.count(f)
        else: r = self.lit(f)
        self.cache[f] = r
        return r
    def count(self, f):
        """how many of the guards of a finite list hold, compared with a constant"""
        def elems(v):
            if v.op == "cat": return [x for y in v.args for x in elems(y)]
            if v.op == "vec": return [TRUE] * len(v.args)
            if v.op != "comp" or v.args[0].op != "num": raise NotFinite("")
            return [g for i in range(v.args[0].args[0]) for g, _ in inst(v.args[1], {v.args[2]: num(i)})]
        try: gs = [self.build(g) for g in elems(f.args[0].args[0])]
        except NotFinite: return self.lit(f)
        at = [True] + [False] * len(gs)                       # at[k]: exactly k so far
        orr = lambda a, b: self.neg(self.apply("and", self.neg(a), self.neg(b)))
        for g in gs:
            at = [orr(self.apply("and", at[k], self.neg(g)), self.apply("and", at[k - 1], g) if k else False) for k in range(len(at))]
        r = False
        for k, x in enumerate(at):
            if (k <= f.args[1] if f.op == "le" else k == f.args[1]): r = orr(r, x)
        return r
    def small(self, f):
        """a comparison between several values of small known domains"""
        ats = [a for a in self.dom if any(s is a for s in subterms(f))]
        if f.args[0] in self.dom or not ats: return False
        n = 1
        for a in ats: n *= int(self.dom[a][1]) - int(self.dom[a][0]) + 1
        return n <= 100
    def by_cases(self, f):
        ats = sorted(a for a in self.dom if any(s is a for s in subterms(f)))
        envs = [{}]
        for a in ats: envs = [dict(e, **{"": 0}) | {a: num(v)} for e in envs for v in range(int(self.dom[a][0]), int(self.dom[a][1]) + 1)]
        r = False
        for e in envs:
            e = {k: v for k, v in e.items() if k != ""}
            g = subst(f, e)
            if g is FALSE: continue
            r = self.neg(self.apply("and", self.neg(r), self.neg(self.build(band(g, *[eq(a, v) for a, v in e.items()])))))
        return r
    def theory(self):
        """thresholds on the same form are monotone"""
        r = True
        for p, cs in self.ths.items():
            cs = sorted(cs)
            for a, b in zip(cs, cs[1:]):
                la, lb = self.lit(mk("le", p, a)), self.lit(mk("le", p, b))
                r = self.apply("and", r, self.neg(self.apply("and", la, self.neg(lb))))
        return r
    def equal(self, f, g, given=TRUE):
        a, b, c = self.build(f), self.build(g), self.build(given)
        return self.under(a, b, c)
    def under(self, a, b, c):
        # a and b differ somewhere inside c and the theory?
        x = self.neg(self.apply("and", self.neg(self.apply("and", a, self.neg(b))), self.neg(self.apply("and", self.neg(a), b))))
        x = self.apply("and", x, c)
        if x is False: return True
        return self.apply("and", x, self.theory()) is False
    def sat(self, f):
        a = self.build(f)
        return self.apply("and", a, self.theory()) is not False
    def witness(self, f, g, given=TRUE):
        a, b, c = self.build(f), self.build(g), self.build(given)
        x = self.neg(self.apply("and", self.neg(self.apply("and", a, self.neg(b))), self.neg(self.apply("and", self.neg(a), b))))
        x = self.apply("and", self.apply("and", x, c), self.theory())
        out = []
        while x is not True and x is not False:
            take = 2 if x[2] is not False else 1
            out.append((x[0], take == 2)); x = x[take]
        names = {}
        for f in list(self.cache): 
            for s in subterms(f):
                if s.op == "le": names[self.key(s)] = s
                elif s.op == "eqc" and isinstance(s.args[1], int):
                    for c in (s.args[1], s.args[1] - 1):
                        l = mk("le", s.args[0], c); names[self.key(l)] = l
                else: names.setdefault((1, s.uid, 0), s)
        return " & ".join(("" if v else "!") + (show(names[k]) if k in names else str(k)) for k, v in out)

# ---------------------------------------------------------------- instantiation
class NotFinite(Exception): pass

def expand_firsts(guard, x, facts=None, within=None):
    """replace every first(n, cond) with a known n (of those in `within`) by its cases"""
    fs = [t for t in subterms(mk("pair", guard, x) if within is None else guard) if t.op == "first" and t.args[0].op == "num" and not any(u.op == "first" for u in subterms(t.args[1]))]
    if not fs:
        return [(guard, x)]
    t = min(fs, key=lambda t: t.uid); n, c, b = t.args
    out = []; prev = TRUE
    for i in range(n.args[0]):
        ci = subst(c, {b: num(i)})
        g = band(prev, ci)
        if g is not FALSE:
            m = {t: num(i)}
            g2 = band(g, subst(guard, m))
            if g2 is not FALSE: out += expand_firsts(g2, subst(x, m), None, within)
        prev = band(prev, bnot(ci))
        if prev is FALSE: break
    return out

def ground(v, env=None, setlike=True):
    """[(guard, element)] of a sequence term whose lengths are known; sorted() and dedup() keep the set of elements"""
    if env: v = subst(v, env)
    o = v.op
    if o == "vec": return [(TRUE, x) for x in v.args]
    if o == "ext": return ground(v.args[0]) + [(TRUE, x) for x in v.args[1]]
    if o == "cat":
        r = []
        for x in v.args: r += ground(x)
        return r
    if o in ("sorted", "shuf"): return ground(v.args[0])
    if o == "dedup":
        return merge_equal(ground(v.args[0]))
    if o == "rep" and v.args[1].op == "num": return [(TRUE, v.args[0])] * v.args[1].args[0]
    if o == "ite":
        return [(band(v.args[0], g), x) for g, x in ground(v.args[1])] + [(band(bnot(v.args[0]), g), x) for g, x in ground(v.args[2])]
    if o == "comp":
        n, alts, b = v.args
        out = []
        if n.op == "num":
            for i in range(n.args[0]):
                out += inst(alts, {b: num(i)})
            return merge_guards(out)
        src = None
        if n.op == "len": src = n.args[0]
        elif n.op == "min": raise NotFinite("zip of " + show(v)[:200])
        if src is None: raise NotFinite(show(n)[:200])
        at = mk("p", src, ("i", b))
        for g, x in ground(src):
            out += [(band(g, g2), y) for g2, y in inst(alts, {at: x})]
        if any(mentions(y, lambda z: z is b) or mentions(g, lambda z: z is b) for g, y in out): raise NotFinite("element position used in " + show(v)[:200])
        return merge_guards(out)
    raise NotFinite(show(v)[:200])

def inst(alts, m):
    out = []
    for conds, ps in alts:
        g = band(*[subst(c, m) for c in conds])
        if g is FALSE: continue
        for tag, x in ps:
            y = subst(x, m)
            if tag == "e":
                for g2, y2 in expand_firsts(g, y): out.append((g2, y2))
            else:
                for g1, y1 in expand_firsts(g, y):
                    for g2, z in ground(y1): out.append((band(g1, g2), z))
    return [(g, x) for g, x in out if g is not FALSE]

def merge_guards(l): return l
def merge_equal(l):
    d = {}
    for g, x in l: d.setdefault(x, []).append(g)
    return [(bor(*gs), x) for x, gs in d.items()]

# ---------------------------------------------------------------- comparison of rows with a reference
class Ask(Exception):
    def __init__(self, f): self.f = f

def norm(t, facts):
    """t with the values fixed by the facts filled in"""
    if not isinstance(t, T): return tuple(norm(x, facts) for x in t) if isinstance(t, tuple) else t
    m = {}
    for s in subterms(t):
        if s.op in ("num", "str", "fn", "agg", "vec", "poly"): continue
        r = facts.iv.get(s)
        if r and r[0] == r[1] and abs(r[0]) != INF: m[s] = num(r[0])
        elif s.op in ("max", "min") and len(s.args) == 2 and facts.ev(le(s.args[0], s.args[1])) is not None:
            m[s] = s.args[1 if facts.ev(le(s.args[0], s.args[1])) is (s.op == "max") else 0]
        elif s in facts.d: m[s] = boolc(facts.d[s])
        elif s.op in ("le", "lt", "eqc", "isv", "not", "and", "any") :
            v = facts.ev(s)
            if v is not None: m[s] = boolc(v)
    # equalities between two opaque values: use the smaller one
    return subst(t, m) if m else t

def rows(outs):
    return [(o.st.facts, o) for o in outs]

def refine(facts, spec, limit=4000):
    """evaluate spec(ask) on every completion of the facts it needs: [(facts, result)]"""
    work = [facts]; out = []
    n = 0
    while work:
        f = work.pop(); n += 1
        if n > limit: raise NotFinite("too many cases")
        def ask(q):
            v = f.ev(q)
            if v is None: raise Ask(q)
            return v
        try:
            r = spec(ask)
            if consistent(f): out.append((f, r))
        except Ask as a:
            work += [g for g, _ in split(a.f, f)]
    return out

def consistent(facts):
    """False when the facts contradict each other in the octagon domain (+-x +-y <= c)"""
    pinned = {l.args[0]: num(l.args[1]) for l, v in facts.d.items() if isinstance(l, T) and l.op == "eqc" and v and isinstance(l.args[1], int)}
    if pinned:
        for l, v in facts.d.items():
            if isinstance(l, T) and l.op == "eqc" and l.args[0] not in pinned:
                m = subst(l, pinned)
                if m is (FALSE if v else TRUE): return False
    edges = {}
    def edge(u, w, c):                     # V(u) - V(w) <= c
        k = (w, u)
        if k not in edges or c < edges[k]: edges[k] = c
    def bound(ts, c):
        """sum of signed atoms <= c"""
        if len(ts) == 1:
            (x, s), = ts
            edge((x, s), (x, -s), 2 * c)
        elif len(ts) == 2:
            (x, s), (y, t) = ts
            edge((x, s), (y, -t), c); edge((y, t), (x, -s), c)
    def form(p):
        k, m = tm.poly(p)
        ts = []
        for mono, co in m.items():
            if len(mono) != 1 or mono[0][1] != 1 or co not in (1, -1): return None, 0
            ts.append((mono[0][0], int(co)))
        return (ts, k) if 0 < len(ts) <= 2 else (None, 0)
    def put_le(p, c):
        ts, k = form(p)
        if ts: bound(ts, c - k)
    def put_ge(p, c):
        ts, k = form(p)
        if ts: bound([(x, -s) for x, s in ts], k - c)
    for l, v in facts.d.items():
        if not isinstance(l, T): continue
        if l.op == "le" and isinstance(l.args[1], int):
            if v: put_le(l.args[0], l.args[1])
            else: put_ge(l.args[0], l.args[1] + 1)
        elif l.op == "eqc" and v and isinstance(l.args[1], int):
            put_le(l.args[0], l.args[1]); put_ge(l.args[0], l.args[1])
    for p, r in facts.iv.items():
        if isinstance(p, T) and isinstance(r[0], (int, float, Fraction)):
            if abs(r[1]) != INF: put_le(p, r[1])
            if abs(r[0]) != INF: put_ge(p, r[0])
    for a in {x[0] for k in edges for x in k}:
        lo, hi = facts.atom_range(a)
        if abs(hi) != INF: bound([(a, 1)], hi)
        if abs(lo) != INF: bound([(a, -1)], -lo)
    nodes = {x for k in edges for x in k}
    if len(nodes) > 80: return True
    d = {x: 0 for x in nodes}
    for i in range(len(nodes) + 1):
        ch = False
        for (y, x), c in edges.items():
            if d[y] + c < d[x]: d[x] = d[y] + c; ch = True
        if not ch: break
    else: return False
    return True

def implied_eq(a, b, facts):
    """a and b are equal under the facts"""
    if a is b: return True
    a = norm(a, facts); b = norm(b, facts)
    if a is b: return True
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]):
        return all(implied_eq(x, y, facts) for x, y in zip(a.args[2], b.args[2]))
    if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
        return all(implied_eq(x, y, facts) for x, y in zip(a.args, b.args))
    try:
        f = eq(a, b)
        if facts.ev(f) is True: return True
        # solve recorded equalities p == c for substitution
        m = equalities(facts)
        for _ in range(3):
            if not m: break
            a2, b2 = subst(a, m), subst(b, m)
            if a2 is b2: return True
            if a2 is a and b2 is b: break
            a, b = a2, b2
    except Exception: pass
    return False

def equalities(facts):
    m = {}
    for f, v in facts.lits:
        if v and f.op == "eqc":
            p, c = f.args
            k, mono = tm.poly(p)
            best = None
            for mo, co in mono.items():
                if len(mo) == 1 and mo[0][1] == 1 and co in (1, -1):
                    a = mo[0][0]
                    rest = {k2: v2 for k2, v2 in mono.items() if k2 != mo}
                    if any(x is a for k2 in rest for x, _ in k2): continue
                    val = scale(sub(num(c), tm.unpoly(k, rest)), co)
                    if mentions(val, lambda z: z is a): continue
                    if best is None or a.uid > best[0].uid: best = (a, val)
            if best and best[0] not in m: m[best[0]] = best[1]
    return m

# ---------------------------------------------------------------- the value of a loop-free projection
def sym(name, ty=None, lo=None, hi=None, facts=None):
    t = mk("sym", name)
    if ty: TYPES.setdefault(t.uid, ty)
    if facts is not None and lo is not None: facts._tight(t, lo, hi)
    return t

def struct(prog, path, **fields):
    a = prog.adts.get(path)
    names = [f[0] for f in a["variants"][0]["fields"]]
    v = a["variants"][0]["name"]
    return agg(("adt", path, v, prog.variants(path)), names, [fields[n] for n in names])
