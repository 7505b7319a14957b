"""Hash-consed terms of the value domain: numbers in polynomial normal form, canonical
comparison literals, records and functional updates.  Equality of terms is identity."""
import itertools
from fractions import Fraction
from math import gcd

class T:
    __slots__ = ("op", "args", "uid", "fp")
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.uid < o.uid

_tab = {}
_n = [0]
TYPES = {}            # uid -> integer type name, for atoms whose type is known

def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.uid = _n[0]; t.fp = None
        _n[0] += 1
        _tab[k] = t
    return t

def reset():
    """keep the table (terms stay valid) - nothing to do"""

# ---------------------------------------------------------------- numbers
def num(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, Fraction) and x.denominator == 1: x = int(x)
    return mk("num", x)
ZERO = num(0); ONE = num(1); TRUE = mk("b", True); FALSE = mk("b", False)
def boolc(x): return TRUE if x else FALSE
UNIT = mk("agg", "tuple", (), ())
def isnum(t): return t.op == "num"
def nval(t): return t.args[0]

def poly(t):
    """-> (const, {mono: coeff}); mono = tuple of (atom, exp) sorted"""
    if t.op == "num": return t.args[0], {}
    if t.op == "poly": return t.args[0], dict(t.args[1])
    return 0, {((t, 1),): 1}

def unpoly(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m: return num(c)
    if c == 0 and len(m) == 1:
        (mono, co), = m.items()
        if co == 1 and len(mono) == 1 and mono[0][1] == 1: return mono[0][0]
    if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
    items = tuple(sorted(((k, (int(v) if isinstance(v, Fraction) and v.denominator == 1 else v)) for k, v in m.items()), key=lambda kv: tuple((a.uid, e) for a, e in kv[0])))
    return mk("poly", c, items)

def bad(t): return t.op in ("str", "agg", "vec", "with", "fn")
def add(a, b):
    ca, ma = poly(a); cb, mb = poly(b)
    for k, v in mb.items(): ma[k] = ma.get(k, 0) + v
    return unpoly(ca + cb, ma)
def scale(a, s):
    c, m = poly(a)
    return unpoly(c * s, {k: v * s for k, v in m.items()})
def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b))
def mono_mul(x, y):
    d = dict(x)
    for a, e in y: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].uid))
def mul(a, b):
    ca, ma = poly(a); cb, mb = poly(b)
    if len(ma) * len(mb) > 64: return mk("mul", *sorted((a, b)))
    r = {}
    c = ca * cb
    def acc(k, v):
        nonlocal c
        if not k: c += v
        else: r[k] = r.get(k, 0) + v
    for k, v in ma.items():
        if cb: acc(k, v * cb)
    for k, v in mb.items():
        if ca: acc(k, v * ca)
    for k1, v1 in ma.items():
        for k2, v2 in mb.items(): acc(mono_mul(k1, k2), v1 * v2)
    return unpoly(c, r)
def inv(b):
    if b.op == "num":
        if b.args[0] == 0: return mk("inv0")
        return num(Fraction(1) / Fraction(b.args[0]))
    c, m = poly(b)
    if c == 0 and len(m) == 1:
        (mono, co), = m.items()
        return unpoly(0, {tuple((a, -e) for a, e in mono): Fraction(1) / Fraction(co)})
    lead = next(iter(dict(unpoly(c, m).args[1]).values()))
    base = scale(b, Fraction(1) / Fraction(lead))
    return unpoly(0, {((base, -1),): Fraction(1) / Fraction(lead)})
def fdiv(a, b): return mul(a, inv(b))
def idiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b is ONE: return a
    if a.op == "poly" and b.op not in ("num", "poly") and poly(a)[0] == -1 and poly(a)[1].get(((b, 1),)) == 1 and TYPES.get(b.uid) in (None, "usize", "u64", "u32", "u16", "u8"):
        return mk("cdiv", add(sub(a, b), ONE), b)        # rounded up
    return mk("idiv", a, b)
def irem(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        q = idiv(a, b); return num(a.args[0] - q.args[0] * b.args[0])
    return mk("irem", a, b)

# ---------------------------------------------------------------- booleans
def norm_form(d):
    """difference d -> (p, c, sgn) with d = sgn*s*(p) + c', leading coefficient of p positive.
    returns (p, k, sgn, g): d == sgn*g*p + k"""
    c, m = poly(d)
    t = unpoly(0, m)
    items = t.args[1] if t.op == "poly" else ((((t, 1),), 1),)
    lead = items[0][1]
    sgn = 1 if lead > 0 else -1
    g = Fraction(0)
    for _, v in items:
        v = Fraction(v)
        g = Fraction(gcd(g.numerator * v.denominator, v.numerator * g.denominator), g.denominator * v.denominator) if g else abs(v)
    p = scale(t, Fraction(sgn) / g)
    return p, c, sgn, g

def eq(a, b):
    if a is b: return TRUE
    numeric = lambda t: t.op in ("num", "poly")
    if a.op == "b" or b.op == "b":
        if a.op == "b" and b.op == "b": return boolc(a is b)
        x, k = (b, a) if a.op == "b" else (a, b)
        return x if k is TRUE else bnot(x)
    if numeric(a) or numeric(b):
        d = sub(a, b)
        if d.op == "num": return boolc(d.args[0] == 0)
        p, c, sgn, g = norm_form(d)
        v = Fraction(-c * sgn) / g
        if v.denominator == 1: v = int(v)
        return mk("eqc", p, v)
    ra, rb = rigid(a), rigid(b)
    if ra and rb:
        if a.op == "agg" and b.op == "agg":
            if a.args[0] != b.args[0]: return FALSE
            if len(a.args[2]) != len(b.args[2]): return FALSE
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]): r = band(r, eq(x, y))
            return r
        if a.op == "vec" and b.op == "vec":
            if len(a.args) != len(b.args): return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args): r = band(r, eq(x, y))
            return r
        if a.op != b.op or a.op in ("str", "chr"): return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and isinstance(x.args[0], tuple) and x.args[0][0] == "adt" and x.args[0][3]:
            # enum constant against an opaque value
            r = isv(y, x.args[0][2], x.args[0][3])
            for f, v in zip(x.args[1], x.args[2]): r = band(r, eq(proj(proj(y, ("v", x.args[0][2])), ("f", f)), v))
            return r
        if x.op == "agg" and x.args[0] == "tuple":
            r = TRUE
            for f, v in zip(x.args[1], x.args[2]): r = band(r, eq(proj(y, ("f", f)), v))
            return r
        if x.op == "vec" and not x.args: return eq(length(y), ZERO)
    # opaque values of unknown type: may be numeric
    d = sub(a, b)
    p, c, sgn, g = norm_form(d)
    if not (isinstance(a, T) and rigid(a)) and not rigid(b):
        return mk("eqc", p, 0) if c == 0 else mk("eqc", p, -c * sgn)
    return mk("eq", *sorted((a, b)))

def rigid(t): return t.op in ("agg", "vec", "str", "num", "chr", "b", "fn")

def le(a, b, isint=True):
    d = sub(a, b)
    if d.op == "num": return boolc(d.args[0] <= 0)
    p, c, sgn, g = norm_form(d)
    k = Fraction(-c) / g
    if sgn > 0:                      # p <= k
        if isint: k = Fraction(k.numerator // k.denominator)
        return mk("le", p, int(k) if k.denominator == 1 else k)
    k = -k                           # -p <= -k  <=> p >= k
    if isint:
        k = -((-k.numerator) // k.denominator)   # ceil
        return bnot(mk("le", p, k - 1))
    return bnot(mk("lt", p, int(k) if k.denominator == 1 else k))

def lt(a, b, isint=True):
    if isint: return le(add(a, ONE), b, True)
    return bnot(le(b, a, False))

def bnot(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "not": return x.args[0]
    return mk("not", x)
def _flat(op, xs):
    out = set()
    for x in xs:
        if x.op == op: out.update(x.args)
        else: out.add(x)
    return out
def band(*xs):
    s = _flat("and", xs); s.discard(TRUE)
    if FALSE in s or any(bnot(x) in s for x in s): return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk("and", *sorted(s))
def bor(*xs): return bnot(band(*[bnot(x) for x in xs]))

def isv(v, variant, nvar):
    """v is of enum variant `variant`; nvar = tuple of all variant names"""
    if v.op == "agg": return boolc(v.args[0][2] == variant)
    if v.op == "ite" and (v.args[1].op in ("agg", "ite") or v.args[2].op in ("agg", "ite")):
        return bor(band(v.args[0], isv(v.args[1], variant, nvar)), band(bnot(v.args[0]), isv(v.args[2], variant, nvar)))
    if len(nvar) == 1: return TRUE
    if v.op == "cmp":
        a, b, i = v.args
        f = {"Less": lambda: lt(a, b, bool(i)), "Equal": lambda: eq(a, b), "Greater": lambda: lt(b, a, bool(i))}.get(variant)
        if f: return f()
    if len(nvar) == 2 and variant == nvar[0] and variant != "Ok":
        return bnot(mk("isv", v, nvar[1]))
    if len(nvar) == 2 and variant == "Err": return bnot(mk("isv", v, "Ok"))
    return mk("isv", v, variant)

# ---------------------------------------------------------------- structures
def agg(kind, names, vals): return mk("agg", kind, tuple(names), tuple(vals))
def tup(*vals): return agg("tuple", [str(i) for i in range(len(vals))], vals)
OPT = ("None", "Some"); RES = ("Ok", "Err"); CF = ("Continue", "Break")
def some(x): return agg(("adt", "Option", "Some", OPT), ("0",), (x,))
NONE = agg(("adt", "Option", "None", OPT), (), ())
def ok(x): return agg(("adt", "Result", "Ok", RES), ("0",), (x,))
def err(x): return agg(("adt", "Result", "Err", RES), ("0",), (x,))
def variant(t): return t.args[0][2] if t.op == "agg" and isinstance(t.args[0], tuple) and t.args[0][0] == "adt" else None

def vec(*xs): return mk("vec", *xs)

DISTINCT = set()      # pairs of index terms a check assumes to be different (documented per check)

def apart(x, y):
    if x is y: return False
    if frozenset((x, y)) in DISTINCT: return True
    if rigid(x) and rigid(y): return eq(x, y) is FALSE
    try: d = sub(x, y)
    except Exception: return False
    return d.op == "num" and d.args[0] != 0

def elem_rel(e, f):
    """same / apart / maybe for two path elements"""
    if e == f: return "same"
    if e[0] != f[0]: return "apart" if {e[0], f[0]} <= {"f", "v"} else "maybe"
    if e[0] == "f": return "apart"
    if e[0] == "v": return "apart"
    if e[0] in ("i", "n"):
        return "apart" if apart(e[1], f[1]) else "maybe"
    return "maybe"

def proj(v, e):
    k = e[0]
    op = v.op
    if op == "agg":
        if k == "v": return v
        if k == "f":
            if e[1] in v.args[1]: return v.args[2][v.args[1].index(e[1])]
            if str(e[1]).isdigit() and int(e[1]) < len(v.args[2]): return v.args[2][int(e[1])]
    elif op == "vec":
        if k == "i" and e[1].op == "num" and 0 <= e[1].args[0] < len(v.args): return v.args[e[1].args[0]]
        if k == "i" and v.args and all(x is v.args[0] for x in v.args): return v.args[0]
    elif op == "rep":
        if k == "i": return v.args[0]
    elif op == "with":
        b, f, x = v.args
        r = elem_rel(e, f)
        if r == "same": return x
        if r == "apart": return proj(b, e)
    elif op == "ext":
        b, xs = v.args
        if k == "i":
            d = sub(e[1], length(b))
            if d.op == "num" and 0 <= d.args[0] < len(xs): return xs[d.args[0]]
            if d.op == "num" and d.args[0] < 0: return proj(b, e)
    elif op == "comp" and k == "i":
        n, alts, bv = v.args
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "e":
            return subst(alts[0][1][0][1], {bv: e[1]})
    elif op == "slice" and k == "i":
        return proj(v.args[0], ("i", add(v.args[1], e[1])))
    elif op == "inserted" and k == "i":
        d = sub(e[1], v.args[1])
        if d.op == "num": return v.args[2] if d is ZERO else proj(v.args[0], e if d.args[0] < 0 else ("i", sub(e[1], ONE)))
    elif op == "reversed" and k == "i":
        return proj(v.args[0], ("i", sub(sub(length(v.args[0]), ONE), e[1])))
    elif op == "cat" and k == "i" and e[1].op == "num":
        at = e[1]
        for x in v.args:
            n = length(x)
            if n.op != "num": break
            if at.args[0] < n.args[0]: return proj(x, ("i", at))
            at = sub(at, n)
    elif op == "ite":
        return ite(v.args[0], proj(v.args[1], e), proj(v.args[2], e))
    elif op == "phi" and k == "f":
        if v in FRAMES and e[1] in FRAMES[v]: return FRAMES[v][e[1]]
    elif op == "post" and k == "f" and isinstance(v.args[1], int) and e[1] in KEPT(v.args[0], v.args[1]):
        return proj(v.args[2 + v.args[1]], e)
    return mk("p", v, e)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    return mk("ite", c, a, b)

def mk_with(v, e, x):
    if v.op == "agg" and e[0] == "f" and (e[1] in v.args[1] or str(e[1]).isdigit()):
        i = v.args[1].index(e[1]) if e[1] in v.args[1] else int(e[1])
        fs = list(v.args[2]); fs[i] = x
        return mk("agg", v.args[0], v.args[1], tuple(fs))
    if e[0] == "v" and v.op == "agg": return x
    if v.op == "vec" and e[0] == "i" and e[1].op == "num" and 0 <= e[1].args[0] < len(v.args):
        fs = list(v.args); fs[e[1].args[0]] = x
        return mk("vec", *fs)
    if v.op == "ext" and e[0] == "i":
        d = sub(e[1], length(v.args[0]))
        if d.op == "num" and 0 <= d.args[0] < len(v.args[1]):
            xs = list(v.args[1]); xs[d.args[0]] = x
            return mk("ext", v.args[0], tuple(xs))
        if d.op == "num" and d.args[0] < 0:
            return mk("ext", mk_with(v.args[0], e, x), v.args[1])
    if v.op == "with":
        b, f, y = v.args
        r = elem_rel(e, f)
        if r == "same": return mk_with(b, e, x)
        if r == "apart" and ekey(e) < ekey(f):
            return mk("with", mk_with(b, e, x), f, y)
    if proj(v, e) is x: return v
    return mk("with", v, e, x)
def ekey(e):
    a = e[1]
    if isinstance(a, T): return (e[0], 1, 0 if a.op != "num" else a.args[0], a.uid)
    return (e[0], 0, str(a), 0)

def put(v, path, x):
    if not path: return x
    e = path[0]
    return mk_with(v, e, put(proj(v, e), path[1:], x))
def get(v, path):
    for e in path: v = proj(v, e)
    return v

FRAMES = {}        # loop variables with fields the loop does not change
KEPT = lambda name, i: frozenset()     # the fields a call leaves alone in what it is given by &mut
LENS = {}          # loop variables that are vectors of unchanging length
def exhaustive(alts):
    """one of the alternatives always holds"""
    if any(not a[0] for a in alts): return True
    atoms = list(dict.fromkeys(c.args[0] if c.op == "not" else c for a in alts for c in a[0]))
    if len(atoms) > 6: return False
    for vs in itertools.product((True, False), repeat=len(atoms)):
        env = dict(zip(atoms, vs))
        if not any(all((not env[c.args[0]]) if c.op == "not" else env[c] for c in a[0]) for a in alts): return False
    return True
def length(v):
    if v.op == "phi" and v in LENS: return LENS[v]
    if v.op == "vec": return num(len(v.args))
    if v.op == "rep": return v.args[1]
    if v.op == "ext": return add(length(v.args[0]), num(len(v.args[1])))
    if v.op == "with" and v.args[1][0] == "i": return length(v.args[0])
    if v.op == "slice": return sub(v.args[2], v.args[1])
    if v.op == "str": return num(len(v.args[0].encode()))
    if v.op == "comp":
        n, alts, bv = v.args
        ks = {len(a[1]) if all(x[0] == "e" for x in a[1]) else None for a in alts}
        if len(ks) == 1 and None not in ks and exhaustive(alts): return mul(n, num(ks.pop()))
    if v.op == "cat": 
        r = ZERO
        for x in v.args: r = add(r, length(x))
        return r
    if v.op == "reversed": return length(v.args[0])
    if v.op == "inserted": return add(length(v.args[0]), ONE)
    if v.op == "removed": return sub(length(v.args[0]), ONE)
    if v.op == "shuf": return length(v.args[0])
    if v.op == "call" and v.args[0] == "Distribution::sample":       # a Dirichlet sample has as many parts as there are concentrations
        d = v.args[1]
        while d.op == "p": d = d.args[0]
        if d.op == "call" and d.args[0] == "Dirichlet::new": return length(d.args[1])
    t = mk("len", v)
    TYPES[t.uid] = "usize"
    return t

def push(v, x):
    if v.op == "vec": return mk("vec", *(v.args + (x,)))
    if v.op == "ext": return mk("ext", v.args[0], v.args[1] + (x,))
    return mk("ext", v, (x,))

def concat(a, b):
    if a.op == "vec" and not a.args: return b
    if b.op == "vec":
        for x in b.args: a = push(a, x)
        return a
    xs = (a.args if a.op == "cat" else (a,)) + (b.args if b.op == "cat" else (b,))
    return mk("cat", *xs)

# ---------------------------------------------------------------- traversal
def kids(t):
    """all terms directly inside t's args (through nested tuples)"""
    st = list(t.args)
    while st:
        x = st.pop()
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): st.extend(x)

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(kids(x))

def mentions(t, pred):
    return any(pred(x) for x in subterms(t))

def rebuild(op, args):
    """re-normalising constructor"""
    if op == "poly":
        r = num(args[0])
        for mono, co in args[1]:
            t = num(co)
            for a, e in mono:
                for _ in range(abs(e)): t = mul(t, a) if e > 0 else mul(t, inv(a))
            r = add(r, t)
        return r
    if op == "p": return proj(args[0], args[1])
    if op == "with": return mk_with(args[0], args[1], args[2])
    if op == "eqc": return eq(args[0], num(args[1]))
    if op == "eq": return eq(args[0], args[1])
    if op == "le":
        d = args[0]
        return le(d, num(args[1]), True) if isinstance(args[1], int) else le(d, num(args[1]), False)
    if op == "lt": return lt(args[0], num(args[1]), False)
    if op == "not": return bnot(args[0])
    if op == "and": return band(*args)
    if op == "len": return length(args[0])
    if op == "idiv": return idiv(*args)
    if op == "irem": return irem(*args)
    if op == "ite": return ite(*args)
    if op == "isv" and args[0].op == "agg": return boolc(args[0].args[0][2] == args[1])
    if op == "ext":
        r = args[0]
        for x in args[1]: r = push(r, x)
        return r
    if op == "abs" and args[0].op == "num": return num(abs(args[0].args[0]))
    if op in ("max", "min") and all(x.op == "num" for x in args): return num((max if op == "max" else min)(x.args[0] for x in args))
    if op in ("max", "min") and len(set(args)) == 1: return args[0]
    if op == "any" : return mk_any(*args)
    h = REBUILD_HOOK.get(op)
    if h: return h(*args)
    if op == "cat":
        r = vec()
        for x in args: r = concat(r, x)
        return r
    return mk(op, *args)

REBUILD_HOOK = {}

BINDERS = {"any": (1, 2), "first": (1, 2), "sum": (1, 2), "comp": (1, 2), "fold": (3, 4), "argmax": (1, 2)}   # positions in the scope of the variable (the last argument)
def subst_any(x, m):
    if not m: return x
    if isinstance(x, T): return subst(x, m)
    if isinstance(x, tuple): return tuple(subst_any(y, m) for y in x)
    return x

def subst(t, m, memo=None):
    if not m: return t
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, T):
            if x in m: return m[x]
            r = memo.get(x)
            if r is not None: return r
            if x.op in BINDERS and x.args[-1] in m:
                # the bound variable hides an outer one of the same name
                inner = {a: b for a, b in m.items() if a is not x.args[-1]}
                na = tuple(subst_any(y, inner) if i in BINDERS[x.op] else go(y) for i, y in enumerate(x.args))
                r = x if na == x.args else rebuild(x.op, na)
                memo[x] = r
                return r
            na = go(x.args) if x.args else x.args
            r = x if na == x.args else rebuild(x.op, na)
            memo[x] = r
            return r
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    return go(t)

def mk_any(n, cond, bv):
    if cond is FALSE: return FALSE
    if n.op == "num":
        if n.args[0] <= 0: return FALSE
        if n.args[0] <= 8:
            return bor(*[subst(cond, {bv: num(i)}) for i in range(n.args[0])])
    return mk("any", n, cond, bv)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12: return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "num": return str(a[0])
    if o == "b": return "true" if a[0] else "false"
    if o == "str": return repr(a[0])
    if o == "sym": return str(a[0])
    if o == "poly":
        out = []
        for m, c in a[1]:
            ms = "*".join(s(x) + ("" if e == 1 else "^%s" % e) for x, e in m)
            out.append(ms if c == 1 else "-" + ms if c == -1 else "%s*%s" % (c, ms))
        if a[0]: out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if o == "p":
        e = a[1]
        if e[0] == "f": return s(a[0]) + "." + str(e[1])
        if e[0] == "v": return s(a[0]) + "!" + str(e[1])
        if e[0] in "in": return s(a[0]) + "[" + s(e[1]) + "]"
    if o == "agg":
        k = a[0]
        nm = "" if k == "tuple" else (k[1].split("::")[-1] + ("::" + k[2] if k[0] == "adt" and k[3] else ""))
        if k == "tuple": return "(" + ", ".join(s(x) for x in a[2]) + ")"
        return nm + "{" + ", ".join("%s:%s" % (n, s(x)) for n, x in zip(a[1], a[2])) + "}"
    if o == "vec": return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "with":
        e = a[1]
        return s(a[0]) + "{" + (("." + str(e[1])) if e[0] == "f" else "[" + s(e[1]) + "]" if e[0] in "in" else str(e)) + "=" + s(a[2]) + "}"
    if o == "not": return "!" + s(a[0])
    if o == "eqc": return "(%s == %s)" % (s(a[0]), a[1])
    if o == "le": return "(%s <= %s)" % (s(a[0]), a[1])
    if o == "lt": return "(%s < %s)" % (s(a[0]), a[1])
    if o == "isv": return "(%s is %s)" % (s(a[0]), a[1])
    if o == "len": return "len(%s)" % s(a[0])
    if o == "and": return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "call": return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "ref": return "&mut %s%s" % (s(a[0]), "".join("." + s(x[1] if len(x) > 1 else x) for x in a[1]))
    if o == "L": return "L%s" % (a[1],)
    if o == "comp": return "[for %s<%s: %s]" % (s(a[2]), s(a[0]), "; ".join(" ".join(s(c) for c in al[0]) + "=>" + ",".join(("*" if x[0] == "s" else "") + s(x[1]) for x in al[1]) for al in a[1]))
    if o == "phi": return "φ%s.%s%s" % (a[0], a[1][-1], "".join("." + s(x[1]) for x in a[2]))
    if o == "k": return "k%s" % a[0]
    if o == "bv": return "b%s" % a[0]
    if o == "post": return "post:%s(%s)" % (a[0].split("::")[-1] if isinstance(a[0], str) else a[0], ", ".join(s(x) for x in a[2:]))
    if o == "first": return "first(%s<%s: %s)" % (s(a[2]), s(a[0]), s(a[1]))
    if o == "any": return "any(%s<%s: %s)" % (s(a[2]), s(a[0]), s(a[1]))
    if o == "fmt": return "fmt<" + "".join(x if isinstance(x, str) else "{" + s(x) + "}" for x in a[0]) + ">"
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
