"""Branch facts: literals known on a path, with intervals for linear forms."""
from fractions import Fraction
from .terms import *

INF = float("inf")
UNSIGNED = ("u8", "u16", "u32", "u64", "usize", "u128")

class Facts:
    __slots__ = ("d", "iv", "lits")
    def __init__(self):
        self.d = {}; self.iv = {}; self.lits = ()
    def copy(self):
        f = Facts.__new__(Facts); f.d = dict(self.d); f.iv = dict(self.iv); f.lits = self.lits
        return f

    # -------- intervals
    def atom_range(self, a):
        r = self.iv.get(a)
        lo, hi = (r[0], r[1]) if r else (-INF, INF)
        t = TYPES.get(a.uid)
        if t in UNSIGNED: lo = max(lo, 0)
        if t == "u8": hi = min(hi, 255)
        if t == "i8": lo = max(lo, -128); hi = min(hi, 127)
        if a.op == "len" or a.op == "k" or a.op == "sumlen": lo = max(lo, 0)
        if a.op == "irem" and a.args[1].op == "num":
            m = a.args[1].args[0]
            hi = min(hi, m - 1); lo = max(lo, 0 if self.rng(a.args[0])[0] >= 0 else 1 - m)
        if a.op == "idiv" and a.args[1].op == "num" and a.args[1].args[0] > 0:
            l, h = self.rng(a.args[0])
            if l >= 0: lo = max(lo, l // a.args[1].args[0]) if l != INF else lo
            if h >= 0 and h != INF: hi = min(hi, h // a.args[1].args[0])
        if a.op == "min":
            hi = min([hi] + [self.rng(x)[1] for x in a.args]); lo = max(lo, min(self.rng(x)[0] for x in a.args))
        if a.op == "max":
            lo = max([lo] + [self.rng(x)[0] for x in a.args]); hi = min(hi, max(self.rng(x)[1] for x in a.args))
        if a.op == "abs": lo = max(lo, 0)
        if a.op == "ite":
            r1, r2 = self.rng(a.args[1]), self.rng(a.args[2])
            lo = max(lo, min(r1[0], r2[0])); hi = min(hi, max(r1[1], r2[1]))
        return lo, hi
    def rng(self, p):
        if p.op == "num": return p.args[0], p.args[0]
        if p.op != "poly": return self.atom_range(p)
        lo = hi = p.args[0]
        for mono, co in p.args[1]:
            if len(mono) == 1 and mono[0][1] == 1:
                l, h = self.atom_range(mono[0][0])
            else:
                l, h = self.mono_range(mono)
            if co < 0: l, h = h, l
            lo = lo + co * l if abs(l) != INF else -INF
            hi = hi + co * h if abs(h) != INF else INF
        r = self.iv.get(p)
        if r: lo = max(lo, r[0]); hi = min(hi, r[1])
        # x/c lies within a step of a c-th of x, for x >= 0
        for mono, co in p.args[1]:
            a = mono[0][0]
            if len(mono) == 1 and mono[0][1] == 1 and a.op == "idiv" and a.args[1].op == "num" and a.args[1].args[0] > 0 and self.rng(a.args[0])[0] >= 0 and any(len(m) == 1 and m[0][0] is a.args[0] for m, _ in p.args[1]):
                k = a.args[1].args[0]; top = mul(num(Fraction(1, k)), a.args[0]); bot = sub(top, num(Fraction(k - 1, k))); rest = sub(p, mul(num(co), a))
                u, v = self.rng(add(rest, mul(num(co), bot))), self.rng(add(rest, mul(num(co), top)))
                lo = max(lo, min(u[0], v[0])); hi = min(hi, max(u[1], v[1]))
        return lo, hi
    def mono_range(self, mono):
        lo, hi = 1, 1
        for a, e in mono:
            if e < 0: return -INF, INF
            l, h = self.atom_range(a)
            if abs(l) == INF or abs(h) == INF:
                if l >= 0 and lo >= 0: lo, hi = 0, INF; continue
                return -INF, INF
            for _ in range(e):
                if hi == INF: return (0, INF) if l >= 0 and lo >= 0 else (-INF, INF)
                c = [lo * l, lo * h, hi * l, hi * h]; lo, hi = min(c), max(c)
        return lo, hi

    def ev(self, f):
        o = f.op
        if o == "b": return f.args[0]
        v = self.d.get(f)
        if v is not None: return v
        if o == "not":
            v = self.ev(f.args[0]); return None if v is None else not v
        if o == "and":
            allt = True
            for x in f.args:
                v = self.ev(x)
                if v is False: return False
                if v is None: allt = False
            return True if allt else None
        if o == "eqc":
            lo, hi = self.rng(f.args[0]); c = f.args[1]
            if c < lo or c > hi: return False
            if lo == hi == c: return True
            return None
        if o == "le":
            lo, hi = self.rng(f.args[0]); c = f.args[1]
            if hi <= c: return True
            if lo > c: return False
            return None
        if o == "lt":
            lo, hi = self.rng(f.args[0]); c = f.args[1]
            if hi < c: return True
            if lo >= c: return False
            return None
        if o == "isv":
            r = self.iv.get(("v", f.args[0]))
            if r: return r == f.args[1]
        if o == "eq":
            # equality of two values one of which is known to be a constant
            pass
        if o == "ite":
            c = self.ev(f.args[0])
            if c is True: return self.ev(f.args[1])
            if c is False: return self.ev(f.args[2])
        return None

    def _tight(self, p, lo, hi):
        l, h = self.rng(p)
        lo = max(lo, l); hi = min(hi, h)
        if lo > hi: return False
        if p.op != "num":
            self.iv[p] = (lo, hi)
            # excluded end points
            while lo == lo and abs(lo) != INF and self.d.get(mk("eqc", p, lo)) is False and isinstance(lo, int):
                lo += 1; self.iv[p] = (lo, hi)
                if lo > hi: return False
            while abs(hi) != INF and self.d.get(mk("eqc", p, hi)) is False and isinstance(hi, int):
                hi -= 1; self.iv[p] = (lo, hi)
                if lo > hi: return False
        return True

    def add(self, f, val, record=True):
        """assume f == val; False when contradictory"""
        v = self.ev(f)
        if v is not None: return v == val
        if f.op == "not": return self.add(f.args[0], not val, record)
        if f.op == "and" and val:
            return all(self.add(x, True, record) for x in f.args)
        self.d[f] = val
        if record: self.lits = self.lits + ((f, val),)
        if f.op == "eqc":
            p, c = f.args
            if val: return self._tight(p, c, c)
            return self._tight(p, -INF, INF)
        if f.op == "le":
            p, c = f.args
            if val: return self._tight(p, -INF, c)
            return self._tight(p, c + 1 if isinstance(c, int) else c, INF)
        if f.op == "lt":
            p, c = f.args
            if val: return self._tight(p, -INF, c)
            return self._tight(p, c, INF)
        if f.op == "isv" and val:
            self.iv[("v", f.args[0])] = f.args[1]
        if f.op == "and" and not val:
            rest = [x for x in f.args if self.ev(x) is None]
            if len(rest) == 1: return self.add(rest[0], False, False)
        return True

    def __repr__(self): return " & ".join(("" if v else "!") + show(f) for f, v in self.lits)

def split(f, facts):
    """all ways to decide the formula: [(facts', truth value)], one literal at a time"""
    v = facts.ev(f)
    if v is not None: return [(facts, v)]
    if f.op == "not": return [(g, not b) for g, b in split(f.args[0], facts)]
    if f.op == "and":
        out = []; cur = [facts]
        for x in f.args:
            nxt = []
            for g in cur:
                for h, b in split(x, g):
                    (nxt.append(h) if b else out.append((h, False)))
            cur = nxt
        return out + [(g, True) for g in cur]
    if f.op == "ite":
        out = []
        for g, b in split(f.args[0], facts): out += split(f.args[1 if b else 2], g)
        return out
    out = []
    for b in (True, False):
        g = facts.copy()
        if g.add(f, b): out.append((g, b))
    return out
