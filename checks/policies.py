"""Answers of a search and priors made from policies (C20, C21): vectors and tensors that are zero except at listed places."""
from .common import *
from .tree import rw, tidy, field, mkstore, TR, moves_of
from sa import terms as tm

class Undecided(NotFinite): pass

# ---------------------------------------------------------------- lists as nested enumerations
class Items:
    """elements `elem` for b1 < n1, b2 < n2(b1), ..."""
    def __init__(self, nest, elem): self.nest = tuple(nest); self.elem = elem
    def canon(self):
        m = {}
        for i, (n, b) in enumerate(self.nest): m[b] = sym("item%d" % i, "usize")
        return tuple(rw(subst(n, m)) for n, b in self.nest), m

def harmless_guard(g):
    """children of a node carry the move that leads to them"""
    return g.op == "isv" and g.args[0].op == "p" and g.args[0].args[1] == ("f", "action_taken")

def items(s):
    if s.op == "vec" and not s.args: return None
    if s.op == "comp":
        n, alts, bv = s.args
        if len(alts) != 1: raise Undecided("list with alternatives: " + show(s)[:200])
        gs, parts = alts[0]
        if not all(harmless_guard(g if isinstance(g, T) else g[0]) for g in gs): raise Undecided("list with conditions: " + show(s)[:200])
        if len(parts) != 1: raise Undecided("list with several elements per round: " + show(s)[:200])
        kind, x = parts[0]
        if kind == "e":
            if n.op == "len" and n.args[0].op in ("comp",):        # one element per element of another list
                F = n.args[0]; e = proj(F, ("i", bv))
                inner = items(F)
                if inner is not None and (mentions(x, lambda z: z is e) or True):
                    y = rebase(x, F, bv, inner.elem)
                    if y is not None: return Items(inner.nest, y)
            return Items([(n, bv)], x)
        inner = items(x)
        if inner is None: raise Undecided("list " + show(s)[:200])
        return Items([(n, bv)] + list(inner.nest), inner.elem)
    return Items([(length(s), sym("at." + str(s.uid), "usize"))], proj(s, ("i", sym("at." + str(s.uid), "usize"))))

def rebase(x, F, bv, elem):
    """x with F[bv] replaced by the element itself; None when bv occurs elsewhere"""
    fe = mk("p", F, ("i", bv))
    y = subst(x, {fe: elem})
    y = simp(y)
    return None if mentions(y, lambda z: z is bv) else y
def simp(t):
    return tm.rebuild(t.op, tuple(simp(a) if isinstance(a, T) else a for a in t.args)) if t.op == "p" else t

# ---------------------------------------------------------------- sparse values
class Sparse:
    def __init__(self, dims, it=None, coords=None, val=None): self.dims = dims; self.it = it; self.coords = coords; self.val = val
    def empty(self): return self.it is None
    def with_val(self, v): return Sparse(self.dims, self.it, self.coords, v)
class Listed:
    def __init__(self, it): self.it = it
class Dense:
    def __init__(self, t): self.t = t
class Scalar:
    def __init__(self, t): self.t = t

def entry(base, coords): return mk("call", "entry#", base, vec(*coords))
def total(it, val, free=0):
    """the sum of val over the items; free outermost variables stay fixed"""
    m = {b: sym("sum%d" % i, "usize") for i, (n, b) in enumerate(it.nest) if i >= free}
    return mk("call", "total#", vec(*[rw(subst(n, m)) for i, (n, b) in enumerate(it.nest) if i >= free]), rw(subst(val, m)))

def inner(t, go):
    """t with its parts, however deeply nested in tuples, rewritten"""
    def deep(x): return go(x) if isinstance(x, T) else tuple(deep(y) for y in x) if isinstance(x, tuple) else x
    na = deep(t.args)
    return t if na == t.args else tm.rebuild(t.op, na)

def scalar(t):
    """a number: sums recognised"""
    def go(t):
        if t.op == "sum":
            n, alts, b = t.args
            if len(alts) == 1:
                g, x = alts[0]
                gs = g if isinstance(g, tuple) else (g,)
                if all(y is TRUE or y == "true" or harmless_guard(y) for y in gs):
                    if n.op == "len" and x is mk("p", n.args[0], ("i", b)):
                        s = value(n.args[0])
                        if isinstance(s, Sparse) and not s.empty(): return total(s.it, s.val)
                        if isinstance(s, Listed): return total(s.it, s.it.elem)
                    x2 = lookups(x)
                    return total(Items([(n, b)], x2), x2)
        if t.op == "call" and t.args[0] == "Tensor::double_value":
            v = t.args[1]; i = t.args[2]
            if i.op == "vec" and len(i.args) == 0:
                w = value(v)
                if isinstance(w, Scalar): return w.t
            return entry(v, [scalar(x) for x in i.args]) if i.op == "vec" else t
        if t.op in ("num", "sym", "b", "str", "vec", "agg", "comp", "fold"): return t
        return inner(t, go)
    return go(t)

def lookups(x):
    """reads of sparse vectors at listed places replaced by the value put there"""
    def go(t):
        if t.op == "p" and t.args[1][0] == "i" and t.args[0].op == "fold":
            s = value(t.args[0])
            if isinstance(s, Sparse) and not s.empty() and len(s.coords) == 1:
                m = match_items(s.coords[0], t.args[1][1], s.it)
                if m is not None: return subst(s.val, m)
        if t.op in ("fold", "comp", "sum"): return t
        return inner(t, go)
    return scalar(go(x))
def match_items(pattern, t, it):
    """substitution of the items' variables making pattern equal t (single variable)"""
    if len(it.nest) != 1: return None
    b = it.nest[0][1]
    cands = {x for x in subterms(t) if x.op in ("bv", "sym", "k") or True}
    for x in cands:
        if rw(subst(pattern, {b: x})) is rw(t): return {b: x}
    return None

def value(t):
    if t.op == "rep": return Sparse([t.args[1]]) if t.args[0] is ZERO else Dense(t)
    if t.op == "fold": return fold_value(t)
    if t.op == "comp":
        n, alts, bv = t.args
        if n.op == "len" and n.args[0].op in ("fold", "comp") and len(alts) == 1 and not alts[0][0]:   # a map over a sparse vector
            s = value(n.args[0])
            if isinstance(s, Sparse) and not s.empty():
                x = alts[0][1][0][1]; e = mk("p", n.args[0], ("i", bv))
                y = scalar(subst(scalar_keep(x, e), {e: s.val})); z = scalar(subst(scalar_keep(x, e), {e: ZERO}))
                if z is ZERO and not mentions(y, lambda q: q is bv): return s.with_val(y)
        it = items(t)
        return Listed(Items(it.nest, lookups(it.elem)))
    if t.op == "call":
        n, a = t.args[0], t.args[1:]
        r = tensor_value(n, a, t)
        if r is not None: return r
    if t.op in ("num",): return Scalar(t)
    return Dense(t)

def scalar_keep(x, e):
    """sums in x recognised, e itself left as it is"""
    h = sym("kept#", "f32")
    return subst(scalar(subst(x, {e: h})), {h: e})

def fold_value(t):
    at, i, inits, body, bv = t.args
    if len(body) != 1 or not all(harmless_guard(g if isinstance(g, T) else g[0]) for g in body[0][0]): raise Undecided("vector built with cases: " + show(t)[:200])
    nx = body[0][1][i]
    ini = value(inits[i]) if not (inits[i].op == "vec" and not inits[i].args) else None
    phs = {x for x in subterms(nx) if x.op == "ph"}
    if ini is None:                                    # a list that grows
        if nx.op == "ext" and nx.args[0].op == "ph" and len(nx.args[1]) == 1: return Listed(Items([(at, bv)], lookups(nx.args[1][0])))
        raise Undecided("list " + show(t)[:200])
    if nx.op != "with" or nx.args[0].op != "ph" or nx.args[1][0] != "i" or not isinstance(ini, Sparse): raise Undecided("vector " + show(t)[:200])
    ph, co, v = nx.args[0], nx.args[1][1], nx.args[2]
    co = lookups(listed_reads(co)); old = mk("p", ph, nx.args[1])
    if ini.empty():
        v = lookups(subst(v, {old: ZERO}))
        if mentions(v, lambda z: z.op == "ph"): raise Undecided("vector " + show(t)[:200])
        return Sparse(ini.dims, Items([(at, bv)], v), (co,), v)
    if nx.args[1][1] is bv and at is length(inits[i]):          # every place is rewritten
        h = sym("old#", "f32")
        v = scalar(subst(v, {old: h}))
        if not mentions(v, lambda z: z.op == "ph" or z is bv) and rw(subst(v, {h: ZERO})) is ZERO: return ini.with_val(subst(v, {h: ini.val}))
        raise Undecided("vector " + show(t)[:200])
    # every listed place is rewritten once
    n0 = length_of(at)
    if len(ini.it.nest) != 1 or rw(ini.it.nest[0][0]) is not rw(n0): raise Undecided("vector rewritten at %s of its places" % show(at)[:100])
    m = match_items(ini.coords[0], co, ini.it)
    if m is None or list(m.values())[0] is not bv: raise Undecided("vector rewritten at place " + show(co)[:100])
    h = sym("old#", "f32")
    v = lookups(subst(v, {old: h}))
    if mentions(v, lambda z: z.op == "ph"): raise Undecided("vector " + show(t)[:200])
    v = scalar(subst(v, {h: subst(ini.val, m)}))
    return Sparse(ini.dims, Items([(n0, bv)], v), (co,), v)

def listed_reads(x):
    """F[i] of a list built by a loop or comprehension of single elements: the element"""
    def go(t):
        if t.op == "p" and t.args[1][0] == "i" and t.args[0].op in ("fold", "comp"):
            try: s = value(t.args[0])
            except NotFinite: s = None
            if isinstance(s, Listed) and len(s.it.nest) == 1: return subst(s.it.elem, {s.it.nest[0][1]: t.args[1][1]})
        return inner(t, go)
    return go(x)
def length_of(n):
    if n.op == "len" and n.args[0].op in ("fold", "comp"):
        try: s = value(n.args[0])
        except NotFinite: return n
        if isinstance(s, Listed) and len(s.it.nest) == 1: return s.it.nest[0][0]
    return n

# ---------------------------------------------------------------- tensors
class RowSum:
    def __init__(self, s): self.s = s

def dims_of(d): return list(d.args) if d.op == "vec" else [d]
def aligned(a, b):
    """element of list b for the item of list a, or None"""
    if len(a.nest) != len(b.nest): return None
    m = {}
    for (n1, b1), (n2, b2) in zip(a.nest, b.nest):
        if rw(subst(n2, m)) is not rw(n1): return None
        m[b2] = b1
    return subst(b.elem, m)
def optvec(v):
    """the indices of index / index_put: vector of Some(tensor)"""
    if v.op != "vec": return None
    r = []
    for x in v.args:
        if x.op != "agg" or tm.variant(x) != "Some": return None
        r.append(x.args[2][0])
    return r

def tensor_value(n, a, t):
    if not n.startswith("Tensor::"): return None
    n = n[8:].rstrip("_")
    if n == "zeros": return Sparse(dims_of(a[0]))
    if n == "zeros_like": return Sparse(("like", a[0]))
    if n == "full" and a[1] is ZERO: return Sparse(dims_of(a[0]))
    if n in ("from_slice", "to_kind", "to_device", "contiguous", "shallow_clone", "copy", "totype"): return value(a[0])
    if n == "index":
        ix = optvec(a[1])
        if ix:
            ls = [value(x) for x in ix]
            if all(isinstance(l, Listed) for l in ls):
                co = [ls[0].it.elem] + [aligned(ls[0].it, l.it) for l in ls[1:]]
                if None not in co: return read(a[0], ls[0].it, co)
    if n == "index_select" and a[1] is ZERO or n == "gather" and a[1] is ZERO:
        l = value(a[2])
        if isinstance(l, Listed): return read(a[0], l.it, [l.it.elem])
    if n in ("index_put", "scatter", "scatter_value", "index_fill"):
        s = value(a[0])
        if n == "index_put": ix = optvec(a[1]); vals = a[2]; acc = a[3]
        else: ix = [a[2]] if a[1] is ZERO else None; vals = a[3]; acc = FALSE
        if isinstance(s, Sparse) and s.empty() and ix and acc is FALSE:
            ls = [value(x) for x in ix]; v = value(vals)
            if all(isinstance(l, Listed) for l in ls):
                base = ls[0].it; co = [base.elem] + [aligned(base, l.it) for l in ls[1:]]
                e = v.t if isinstance(v, Scalar) else aligned(base, v.it) if isinstance(v, Listed) else None
                if None not in co and e is not None: return Sparse(s.dims, base, tuple(co), e)
        raise Undecided("written tensor " + show(t)[:200])
    if n in ("mul", "multiply", "g_mul", "g_mul_scalar"):
        x, y = value(a[0]), value(a[1])
        for x, y in ((x, y), (y, x)):
            if isinstance(x, Sparse) and not x.empty():
                if isinstance(y, Scalar): return x.with_val(mul(x.val, y.t))
                if isinstance(y, Dense): return x.with_val(mul(x.val, entry(y.t, x.coords)))
            if isinstance(x, Listed) and isinstance(y, Scalar): return Listed(Items(x.it.nest, mul(x.it.elem, y.t)))
    if n in ("div", "divide", "g_div", "g_div_scalar", "true_divide", "divide_scalar"):
        x, y = value(a[0]), value(a[1])
        if isinstance(x, Sparse) and not x.empty():
            if isinstance(y, Scalar): return x.with_val(fdiv(x.val, y.t))
            if isinstance(y, RowSum) and y.s.it.nest == x.it.nest and len(x.it.nest) == 2 and len(x.coords) == 2 and y.s.coords == x.coords: return x.with_val(fdiv(x.val, total(y.s.it, y.s.val, 1)))
        if isinstance(x, Listed) and isinstance(y, Scalar): return Listed(Items(x.it.nest, fdiv(x.it.elem, y.t)))
        raise Undecided("quotient by %s of %s" % (show(a[1])[-200:], show(a[0])[:200]))
    if n == "sum":
        x = value(a[0])
        if isinstance(x, Sparse) and not x.empty(): return Scalar(total(x.it, x.val))
        if isinstance(x, Listed): return Scalar(total(x.it, x.it.elem))
    if n in ("sum_dim_intlist",):
        x = value(a[0]); d = a[1]
        if d.op == "agg" and tm.variant(d) == "Some": d = d.args[2][0]
        d = dims_of(d)
        if isinstance(x, Sparse) and not x.empty() and len(d) == 1 and d[0] in (ONE, num(-1)) and len(x.coords) == 2 and a[2] is TRUE: return RowSum(x)
        if isinstance(x, Sparse) and not x.empty() and len(d) == 1 and d[0] in (ZERO, num(-1)) and len(x.coords) == 1: return Scalar(total(x.it, x.val))
    return None
def read(base, it, co):
    v = value(base)
    if isinstance(v, Sparse) and not v.empty():
        if len(co) == 1 and len(v.coords) == 1:
            m = match_items(v.coords[0], co[0], v.it)
            if m is not None: return Listed(Items(it.nest, subst(v.val, m)))
        raise Undecided("tensor read back at other places")
    return Listed(Items(it.nest, entry(base, co)))

# ---------------------------------------------------------------- comparison
def is_sparse(c, key, t, dims, nest, coords, val, what):
    """the value t is zero except for val at coords, for every item of the nest; val(total) is given the sum of its own numerators"""
    try: s = value(t)
    except Undecided as u: c.viol(key, "%s: %s" % (what, u)); return
    if not c.need(isinstance(s, Sparse) and not s.empty(), key, "%s: %s" % (what, show(t)[:200])): return
    if dims is not None: c.need(s.dims == dims or s.dims in dims, key + ":size", "%s has the size %s" % (what, s.dims if not isinstance(s.dims, list) else [show(x)[:60] for x in s.dims]))
    a = list(s.it.nest)
    if not c.need(len(a) == len(nest), key + ":items", "%s is made for %s" % (what, [show(n)[:80] for n, b in a])): return
    m = {}
    for (n1, b1), (n2, b2) in zip(a, nest):
        if not c.need(rw(subst(n1, m)) is rw(n2), key + ":items", "%s is made for %s, expected %s" % (what, show(n1)[:120], show(n2)[:120])): return
        m[b1] = b2
    for x, y in zip(s.coords, coords): c.need(rw(subst(x, m)) is rw(y), key + ":place", "%s: a value is put at %s, expected %s" % (what, show(x)[:160], show(y)[:160]))
    c.need(len(s.coords) == len(coords), key + ":place", "%s has %d dimensions" % (what, len(s.coords)))
    c.need(rw(subst(s.val, m)) is rw(val), key + ":value", "%s: the value is %s, expected %s" % (what, show(subst(s.val, m))[:240], show(val)[:240]))
    c.count("tensors")

def code(s, m): return mk("call", "LearnableGame::encode", s, m)
def just(o): return proj(proj(o, ("v", "Some")), ("f", "0"))
B0, B1 = sym("j0", "usize"), sym("j1", "usize")

def c21(c, prog):
    nd, pol = sym("node"), sym("policy")
    mv = field(nd, "expandable_moves"); co = code(field(nd, "state"), proj(mv, ("i", B0))); n = length(mv)
    it = Items([(n, B0)], None); v = entry(pol, [co]); val = fdiv(v, total(it, v))
    for name, key, dims in (("utils::turn_policy_to_probs", "vector", None), ("utils::turn_policy_to_probs_tensor", "tensor", [("like", pol)])):
        r = Run(c, prog, fn(prog, name), [pol, nd], trusted=TR)
        for o in tidy(r.outs):
            if o.kind == "panic": continue
            is_sparse(c, key, o.val, dims, [(n, B0)], [co], val, "the priors")
            if key == "vector":
                s = value(o.val)
                c.need(isinstance(s, Sparse) and len(s.dims) == 1 and (s.dims[0] is num(1352) or "ACTION_SPACE_SIZE" in show(s.dims[0])), key + ":size", "the priors have the size %s" % [show(x) for x in s.dims])
    S = sym("store"); N = field(S, "nodes")
    cnt = sym("games", "usize"); bv = mk("bv", 77)
    ids = mk("comp", cnt, (((), (("e", bv),)),), bv)
    r = Run(c, prog, fn(prog, "utils::turn_policy_to_probs_tensor_parallel"), [S, ids, pol], trusted=TR)
    for o in tidy(r.outs):
        if o.kind == "panic": continue
        nn = proj(N, ("i", B0)); mv = field(nn, "expandable_moves")
        co = code(field(nn, "state"), proj(mv, ("i", B1))); nest = [(cnt, B0), (length(mv), B1)]
        v = entry(pol, [B0, co])
        is_sparse(c, "batch", o.val, [("like", pol)], nest, [B0, co], fdiv(v, total(Items(nest, None), v, 1)), "the priors of many games")
    c.floor("tensors", 3)

def c20(c, prog):
    st, root, S = sym("state"), sym("root", "usize"), sym("store"); N = field(S, "nodes")
    ks = field(proj(N, ("i", root)), "children"); n = length(ks); child = proj(N, ("i", proj(ks, ("i", B0))))
    r = Run(c, prog, fn(prog, "utils::get_prob_tensor"), [st, root, S], trusted=TR)
    for o in tidy(r.outs):
        if o.kind == "panic":
            c.need(any(l.op == "isv" and "action_taken" in show(l) and not b for l, b in o.st.facts.d.items() if isinstance(l, T)), "one:panic", "the answer stops (%s) when %s" % (show(o.val) if isinstance(o.val, T) else o.val, where(o))); continue
        for f, none in refine(o.st.facts, lambda ask: ask(eq(n, ZERO))):
            c.count("answers")
            if none: c.need(implied_eq(o.val, NONE, f), "one:none", "a root without children yields %s" % show(o.val)[:100]); continue
            if not c.need(o.val.op == "agg" and tm.variant(o.val) == "Some", "one:some", "a root with children yields %s" % show(o.val)[:100]): continue
            v = field(child, "visits")
            is_sparse(c, "one", o.val.args[2][0], None, [(n, B0)], [code(st, just(field(child, "action_taken")))], fdiv(v, total(Items([(n, B0)], None), v)), "the answer")
            s = value(o.val.args[2][0])
            c.need(isinstance(s, Sparse) and len(s.dims) == 1 and "ACTION_SPACE_SIZE" in show(s.dims[0]), "one:size", "the answer has another size than the action space")
    nodes = sym("nodes"); nd = proj(nodes, ("i", B0)); ks = field(nd, "children"); child = proj(N, ("i", proj(ks, ("i", B1))))
    r = Run(c, prog, fn(prog, "utils::get_prob_tensor_parallel"), [nodes, S], trusted=TR)
    for o in tidy(r.outs):
        if o.kind == "panic":
            c.need(any(l.op == "isv" and "action_taken" in show(l) and not b for l, b in o.st.facts.d.items() if isinstance(l, T)), "many:panic", "the answers stop (%s) when %s" % (show(o.val) if isinstance(o.val, T) else o.val, where(o))); continue
        c.count("answers")
        v = field(child, "visits"); nest = [(length(nodes), B0), (length(ks), B1)]
        is_sparse(c, "many", o.val, None, nest, [B0, code(field(nd, "state"), just(field(child, "action_taken")))], fdiv(v, total(Items(nest, None), v, 1)), "the answers")
        s = value(o.val)
        c.need(isinstance(s, Sparse) and len(s.dims) == 2 and s.dims[0] is length(nodes) and "ACTION_SPACE_SIZE" in show(s.dims[1]), "many:size", "the answers have another size than games x action space")
    c.floor("answers", 3); c.floor("tensors", 2)
