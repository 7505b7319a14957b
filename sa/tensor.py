"""Shape and contents of tensors built from known values by layout operations of tch."""
from .terms import *
from .rules import NotFinite

def ints(t):
    if t.op == "num": return [t.args[0]]
    if t.op == "vec" and all(x.op == "num" for x in t.args): return [x.args[0] for x in t.args]
    raise NotFinite("tensor size " + show(t)[:80])
def prod(l):
    r = 1
    for x in l: r *= x
    return r
def unravel(n, sh):
    out = []
    for s in reversed(sh): out.append(n % s); n //= s
    return out[::-1]
def ravel(ix, sh):
    n = 0
    for i, s in zip(ix, sh): n = n * s + i
    return n
def dim(d, n):
    d = ints(d)[0]
    return d + n if d < 0 else d

class Tn:
    def __init__(self, shape, at): self.shape = shape; self.at = at
    def flat(self): return [self.at(unravel(i, self.shape)) for i in range(prod(self.shape))]

CMP = {"Tensor::eq": lambda a, b: eq(a, b), "Tensor::ne": lambda a, b: bnot(eq(a, b)), "Tensor::eq_tensor": eq, "Tensor::lt": lambda a, b: lt(a, b), "Tensor::gt": lambda a, b: lt(b, a), "Tensor::le": lambda a, b: le(a, b), "Tensor::ge": lambda a, b: le(b, a)}
def arith(op): return lambda a, b: op(b2n(a), b2n(b))
def b2n(x): return ite(x, ONE, ZERO) if x.op in ("b", "eqc", "le", "lt", "not", "and", "any", "eq") or x.op == "sym" and TYPES.get(x.uid) == "bool" else x
AR = {"Tensor::multiply_scalar": mul, "Tensor::mul_scalar": mul, "Mul::mul": mul, "Add::add": add, "Sub::sub": sub, "Tensor::mul": mul, "Tensor::add": add, "Tensor::sub": sub, "Div::div": fdiv}

def tensor(t, n=None):
    """the tensor a term denotes"""
    o, a = t.op, t.args
    if o == "poly":
        k, m = poly(t)
        parts = []
        for mono, co in m.items():
            ts = [(tensor(x), e) for x, e in mono]
            parts.append((co, ts))
        sh = parts[0][1][0][0].shape
        def at(ix):
            r = num(k)
            for co, ts in parts:
                v = num(co)
                for x, e in ts:
                    for _ in range(abs(e)): v = mul(v, x.at(ix)) if e > 0 else fdiv(v, x.at(ix))
                r = add(r, v)
            return r
        return Tn(sh, at)
    if o != "call": raise NotFinite("tensor " + show(t)[:120])
    f = a[0]
    if f in ("Tensor::from_slice", "Tensor::of_slice", "From::from", "Tensor::from", "Tensor::from_slice2"):
        v = a[1]
        l = length(v)
        if l.op != "num": raise NotFinite("slice of unknown length " + show(v)[:80])
        return Tn([l.args[0]], lambda ix: b2n(proj(v, ("i", num(ix[0])))))
    if f in ("Tensor::full",):
        sh = ints(a[1]); return Tn(sh, lambda ix: b2n(a[2]))
    if f in ("Tensor::zeros", "Tensor::ones"):
        sh = ints(a[1]); v = ZERO if f.endswith("zeros") else ONE
        return Tn(sh, lambda ix: v)
    if f in ("Tensor::full_like", "Tensor::zeros_like", "Tensor::ones_like"):
        x = tensor(a[1]); v = b2n(a[2]) if f.endswith("full_like") else ZERO if "zeros" in f else ONE
        return Tn(x.shape, lambda ix: v)
    if f in ("Tensor::view", "Tensor::reshape", "Tensor::view_"):
        x = tensor(a[1]); sh = ints(a[2])
        if -1 in sh:
            i = sh.index(-1); sh = list(sh); sh[i] = prod(x.shape) // prod([s for s in sh if s != -1])
        if prod(sh) != prod(x.shape): raise NotFinite("view of %s as %s" % (x.shape, sh))
        return Tn(sh, lambda ix: x.at(unravel(ravel(ix, sh), x.shape)))
    if f in ("Tensor::flatten",):
        x = tensor(a[1]); sh = [prod(x.shape)]
        return Tn(sh, lambda ix: x.at(unravel(ix[0], x.shape)))
    if f in ("Tensor::stack", "Tensor::cat", "Tensor::concat"):
        if a[1].op != "vec": raise NotFinite("list of tensors " + show(a[1])[:80])
        xs = [tensor(x) for x in a[1].args]
        if f == "Tensor::stack":
            d = dim(a[2], len(xs[0].shape) + 1)
            if any(x.shape != xs[0].shape for x in xs): raise NotFinite("stack of different shapes")
            sh = xs[0].shape[:d] + [len(xs)] + xs[0].shape[d:]
            return Tn(sh, lambda ix: xs[ix[d]].at(ix[:d] + ix[d + 1:]))
        d = dim(a[2], len(xs[0].shape))
        if any(x.shape[:d] + x.shape[d + 1:] != xs[0].shape[:d] + xs[0].shape[d + 1:] for x in xs): raise NotFinite("cat of different shapes")
        sh = list(xs[0].shape); sh[d] = sum(x.shape[d] for x in xs)
        def at(ix):
            i = ix[d]
            for x in xs:
                if i < x.shape[d]: return x.at(ix[:d] + [i] + ix[d + 1:])
                i -= x.shape[d]
        return Tn(sh, at)
    if f == "Tensor::permute":
        x = tensor(a[1]); p = [d % len(x.shape) for d in ints(a[2])]
        sh = [x.shape[d] for d in p]
        def at(ix):
            j = [0] * len(p)
            for i, d in enumerate(p): j[d] = ix[i]
            return x.at(j)
        return Tn(sh, at)
    if f == "Tensor::transpose":
        x = tensor(a[1]); d1, d2 = dim(a[2], len(x.shape)), dim(a[3], len(x.shape))
        sh = list(x.shape); sh[d1], sh[d2] = sh[d2], sh[d1]
        def at(ix):
            j = list(ix); j[d1], j[d2] = j[d2], j[d1]; return x.at(j)
        return Tn(sh, at)
    if f == "Tensor::unsqueeze":
        x = tensor(a[1]); d = dim(a[2], len(x.shape) + 1)
        return Tn(x.shape[:d] + [1] + x.shape[d:], lambda ix: x.at(ix[:d] + ix[d + 1:]))
    if f in ("Tensor::squeeze_dim",):
        x = tensor(a[1]); d = dim(a[2], len(x.shape))
        return Tn(x.shape[:d] + x.shape[d + 1:], lambda ix: x.at(ix[:d] + [0] + ix[d:]))
    if f in ("Tensor::squeeze",):
        x = tensor(a[1]); keep = [i for i, s in enumerate(x.shape) if s != 1]
        def at(ix):
            j = [0] * len(x.shape)
            for i, d in enumerate(keep): j[d] = ix[i]
            return x.at(j)
        return Tn([x.shape[i] for i in keep], at)
    if f in ("Tensor::repeat", "Tensor::expand"):
        x = tensor(a[1]); r = ints(a[2])
        pad = [1] * (len(r) - len(x.shape)) + x.shape
        sh = [p * q for p, q in zip(pad, r)] if f == "Tensor::repeat" else [p if q == -1 else q for p, q in zip(pad, r)]
        k = len(r) - len(x.shape)
        return Tn(sh, lambda ix: x.at([i % p for i, p in zip(ix, pad)][k:]))
    if f in ("Tensor::to_dtype", "Tensor::to_kind", "Tensor::contiguous", "Tensor::copy", "Tensor::to", "Tensor::totype", "Tensor::clone"):
        x = tensor(a[1]); return Tn(x.shape, lambda ix: b2n(x.at(ix)))
    if f in CMP or f in AR:
        x = tensor(a[1]); op = CMP.get(f) or arith(AR[f])
        try: y = tensor(a[2])
        except NotFinite: y = None
        if y is None: return Tn(x.shape, lambda ix: op(x.at(ix), a[2]))
        if y.shape != x.shape: raise NotFinite("%s of %s and %s" % (f, x.shape, y.shape))
        return Tn(x.shape, lambda ix: op(x.at(ix), y.at(ix)))
    raise NotFinite("tensor operation " + show(t)[:120])
