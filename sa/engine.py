"""Path-sensitive value-flow analysis of MIR.

Every function is interpreted over the value-numbering domain of terms.py: memory maps abstract
locations to terms, branches are decided by the facts of facts.py or kept apart as separate traces,
loops are summarised by a fixpoint over the set of locations they change (never unrolled), calls of
functions of the crate are analysed in their context, and library calls go through models.py."""
import sys
from . import terms as tm
from .terms import *
from .facts import Facts, split, INF
from . import mir, frames

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass

class State:
    __slots__ = ("mem", "facts", "trace")
    def __init__(self, mem=None, facts=None, trace=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.trace = trace
    def copy(self): return State(dict(self.mem), self.facts.copy(), self.trace)
    def with_facts(self, f): return State(dict(self.mem), f, self.trace)
    def ev(self, name, args, ret=None, where=None):
        self.trace = self.trace + (Ev(name, tuple(args), ret, where),)

class Ev:
    __slots__ = ("name", "args", "ret", "where")
    def __init__(self, n, a, r, w): self.name = n; self.args = a; self.ret = r; self.where = w
    def __repr__(self): return "%s(%s)" % (self.name, ", ".join(show(x) for x in self.args)) + (" -> " + show(self.ret) if isinstance(self.ret, T) else "")
    def key(self): return ("ev", self.name, self.args, self.ret)
    def __eq__(self, o): return isinstance(o, Ev) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def map(self, g): return Ev(self.name, tuple(g(x) for x in self.args), g(self.ret) if isinstance(self.ret, T) else self.ret, self.where)

class LoopRec:
    """summary of one loop: N (trip count or None), k, phis, back paths, exits"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def key(self): return ("loop", self.lid, self.N, self.inits, getattr(self, "exhaust", None), getattr(self, "exit_k", None), tuple((b.conds, b.trace, b.nexts) for b in self.backs))
    def __eq__(self, o): return isinstance(o, LoopRec) and self.key() == o.key()
    def __hash__(self): return hash((self.lid, self.N, self.inits, getattr(self, "exhaust", None), getattr(self, "exit_k", None)))
    def map(self, g):
        r = LoopRec(**self.__dict__)
        r.N = g(r.N) if r.N is not None else None
        r.inits = tuple(g(x) for x in r.inits)
        r.backs = [BackPath(tuple((g(f), v) for f, v in b.conds), map_trace(b.trace, g), tuple(g(x) for x in b.nexts), b.facts) for b in r.backs]
        return r
    def __repr__(self):
        return "loop%s N=%s {%s}" % (self.lid, show(self.N) if self.N is not None else "?", " | ".join(
            "[%s] %s => %s" % (" & ".join(("" if v else "!") + show(f) for f, v in b.conds), list(b.trace), ", ".join(show(p) + ":=" + show(x) for p, x in zip(self.phis, b.nexts))) for b in self.backs))

class BackPath:
    def __init__(self, conds, trace, nexts, facts): self.conds = conds; self.trace = trace; self.nexts = nexts; self.facts = facts

def map_trace(tr, g): return tuple(x.map(g) for x in tr)

def flatten(tr):
    """all events of a trace including those inside loops, as (event, tuple of enclosing loops)"""
    def go(tr, st):
        for x in tr:
            if isinstance(x, Ev): yield x, st
            else:
                for b in x.backs:
                    yield from go(b.trace, st + ((x, b),))
    return list(go(tr, ()))

class Out:
    __slots__ = ("kind", "st", "val")
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

_ids = {}
def intern_id(*k):
    r = _ids.get(k)
    if r is None: r = _ids[k] = len(_ids)
    return r

UNINIT = mk("uninit")
SBITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
ATOMTYPES = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "usize", "isize")

def settype(t, ty):
    if isinstance(ty, str) and ty in ATOMTYPES and t.op not in ("num", "poly", "b"): TYPES.setdefault(t.uid, ty)
    return t

class Frame:
    def __init__(self, body, fid, depth): self.body = body; self.fid = fid; self.depth = depth
    def root(self, l): return ("l", self.fid, l)

class Engine:
    def __init__(self, prog, opaque=(), inline=(), pure=(), max_states=6000, unroll=0, trusted=(), typed=(), prints=False):
        self.unroll = unroll
        self.typed = set(typed)       # functions whose type arguments are recorded with the call
        self.tmaps = {}               # function -> its type parameters as of the last call
        self.prints = prints
        self.trusted = set(trusted)   # fields of vectors every index into which is taken to be valid
        self.prog = prog; tm.FRAMES.clear(); tm.KEPT = lambda name, i: frames.kept(prog, name, i)
        self.opaque = set(opaque); self.pure = set(pure); self.force_inline = set(inline)
        self.stack = []
        self.max_states = max_states
        self.analysed = {}            # body name -> times analysed
        self.callsites = set()
        self.loopinfo = {}
        self.narrow = set()
        self.nstates = 0
        self.unknown = set()
        self.loopstack = []
        from . import models
        self.models = models

    def trusted_vec(self, v):
        while v.op in ("with", "ext", "cat"):
            v = v.args[0]
        if v.op == "p": return v.args[1][0] == "f" and v.args[1][1] in self.trusted
        if v.op == "phi": return bool(v.args[2]) and v.args[2][-1] in {("f", x) for x in self.trusted}
        return False
    # ------------------------------------------------------------ memory
    def read_loc(self, st, root, path):
        v = st.mem.get(root)
        if v is None: raise Unsupported("read of dead location %r" % (root,))
        return get(v, path)
    def write_loc(self, st, root, path, x):
        if not path: st.mem[root] = x; return
        v = st.mem.get(root, UNINIT)
        st.mem[root] = put(v, path, x)

    def deref(self, st, t):
        while t.op == "ref": t = self.read_loc(st, t.args[0], t.args[1])
        return t
    def full(self, st, t, seen=0):
        """value of t with mutable references replaced by the values they point to"""
        if not isinstance(t, T): return t
        if t.op == "ref": return self.full(st, self.read_loc(st, *t.args))
        if not mentions(t, lambda x: x.op == "ref"): return t
        m = {}
        for x in list(subterms(t)):
            if x.op == "ref" and x not in m:
                m[x] = self.full(st, self.read_loc(st, *x.args))
        return subst(t, m)

    def place(self, st, fr, pl, write=False):
        """-> ("loc", root, path) or ("val", term)"""
        cur = ("loc", fr.root(pl[0]), ())
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.load(st, cur) if (cur[0] == "val" or not write or cur[1] in st.mem) else None
                if v is not None and v.op == "ref": cur = ("loc", v.args[0], v.args[1])
                continue
            if k == "f": el = ("f", e[2] if e[2] is not None else str(e[1]))
            elif k == "v": el = ("v", e[2])
            elif k == "i": el = ("i", self.load(st, ("loc", fr.root(e[1]), ())))
            elif k == "ci":
                if e[3]: 
                    base = self.load(st, cur); el = ("i", sub(length(base), num(e[1])))
                else: el = ("i", num(e[1]))
            elif k == "ss":
                v = self.load(st, cur)
                hi = sub(length(v), num(e[2])) if e[3] else num(e[2])
                cur = ("val", mkslice(v, num(e[1]), hi)); continue
            else: raise Unsupported("projection %r" % (e,))
            if cur[0] == "loc":
                # a location holding a mutable reference behind a transparent reference
                v = st.mem.get(cur[1])
                if v is not None:
                    w = get(v, cur[2])
                    if w.op == "ref": cur = ("loc", w.args[0], w.args[1])
                cur = ("loc", cur[1], cur[2] + (el,))
            else:
                v = cur[1]
                if v.op == "ref": cur = ("loc", v.args[0], v.args[1] + (el,))
                else: cur = ("val", proj(v, el))
        return cur
    def load(self, st, cur):
        if cur[0] == "val": return cur[1]
        return self.read_loc(st, cur[1], cur[2])
    def readp(self, st, fr, pl):
        v = self.load(st, self.place(st, fr, pl))
        return v
    def writep(self, st, fr, pl, x):
        cur = self.place(st, fr, pl, True)
        if cur[0] == "val": raise Unsupported("write through a shared value")
        self.write_loc(st, cur[1], cur[2], x)

    # ------------------------------------------------------------ operands
    def const(self, c, fr):
        k = c["c"]
        if k == "int": return num(c["v"])
        if k == "bool": return boolc(c["v"])
        if k == "float":
            try: return num(Fraction(str(c["v"])))
            except Exception: return mk("float", str(c["v"]))
        if k == "str": return mk("str", c["v"])
        if k == "bytes": return mk("bytes", tuple(c["v"]) if isinstance(c["v"], list) else c["v"])
        if k == "char": return mk("chr", c["v"])
        if k == "fn":
            return self.zst(c) if isinstance(c.get("ty"), list) and c["ty"][0] in ("fn", "closure") else mk("fn", c.get("path") or c.get("v"), _freeze(c))
        if k == "zst": return self.zst(c)
        if k == "agg":
            ty = c["ty"]; fs = [self.const(x, fr) for x in c["fields"]]
            return self.mkagg_ty(ty, c.get("variant"), fs)
        if k == "promoted":
            b = self.prog.prom.get((c["of"], c["v"]))
            if b is None: return mk("promoted", c["of"], c["v"])
            outs = self.run_body(b, [], State(), ("prom", c["of"], c["v"]))
            if len(outs) == 1 and outs[0].kind == "ret": return self.full(outs[0].st, outs[0].val)
            raise Unsupported("promoted constant with %d outcomes" % len(outs))
        if k == "uneval":
            p = c.get("path") or c.get("v")
            v = self.prog.consts.get(p)
            if v is not None and v.get("c") not in ("opaque", "uneval"): return self.const(v, fr)
            b = self.prog.bodies.get(p)
            if b is not None and b.argc == 0 and not p.startswith("die_e::base"):
                outs = self.run_body(b, [], State(), ("const", p))
                if len(outs) == 1 and outs[0].kind == "ret": return self.full(outs[0].st, outs[0].val)
            return settype(mk("const", mir.short(p) if p else _freeze(c)), c.get("ty"))
        if k == "refto": return self.const(c["v"], fr)
        if k == "named": return mk("const", c["v"])
        if k == "raw" or k == "opaque" or k == "static":
            if k == "opaque" and isinstance(c.get("ty"), list) and c["ty"][0] == "closure": return agg(("closure", c["ty"][1]), (), ())
            return mk(k, _freeze(c))
        raise Unsupported("constant %r" % (c,))
    def zst(self, c):
        ty = c.get("ty")
        if isinstance(ty, list):
            if ty[0] == "fn": return mk("fn", ty[1], _freeze(ty))
            if ty[0] == "closure": return agg(("closure", ty[1]), (), ())
            if ty[0] == "tuple": return UNIT
            if ty[0] == "adt": return self.mkagg_ty(ty, None, [])
            if ty[0] == "array": return vec()
        return mk("zst", _freeze(ty))
    def mkagg_ty(self, ty, variant, fs):
        if ty[0] == "tuple": return tup(*fs)
        if ty[0] in ("array", "slice"): return vec(*fs)
        if ty[0] == "closure": return agg(("closure", ty[1]), [str(i) for i in range(len(fs))], fs)
        if ty[0] == "adt":
            return self.mkadt(ty[1], variant, fs)
        if ty[0] == "ref": return fs[0] if fs else UNIT
        raise Unsupported("aggregate of type %r" % (ty,))
    def mkadt(self, path, variant, fs):
        a = self.prog.adts.get(path)
        vs = self.prog.variants(path)
        if a is None: return agg(("adt", path, variant, None), [str(i) for i in range(len(fs))], fs)
        v = a["variants"][variant or 0] if not isinstance(variant, str) else next(x for x in a["variants"] if x["name"] == variant)
        names = [f[0] for f in v["fields"]][:len(fs)]
        sh = {"std::option::Option": "Option", "std::result::Result": "Result"}.get(path, path)
        return agg(("adt", sh, v["name"], vs), names, fs)

    def operand(self, st, fr, op):
        if op[0] == "const": return self.const(op[1], fr)
        return self.readp(st, fr, op[1])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use": return self.operand(st, fr, rv[1])
        if k == "repeat":
            n = rv[2]
            n = num(int(n)) if isinstance(n, (int, str)) and str(n).lstrip("-").isdigit() else mk("const", str(n))
            x = self.operand(st, fr, rv[1])
            if n.op == "num" and n.args[0] <= 64: return vec(*([x] * n.args[0]))
            return mk("rep", x, n)
        if k == "ref":
            cur = self.place(st, fr, rv[2], write=True)
            if not rv[1]: return self.load(st, cur)
            if cur[0] == "val":
                return cur[1]
            # a mutable borrow of a location that itself holds a mutable reference stays a reference to it
            return mk("ref", cur[1], cur[2])
        if k == "cast": return self.cast(st, fr, rv)
        if k == "bin": return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            x = self.operand(st, fr, rv[2])
            if rv[1] == "Neg": return neg(x)
            if rv[1] == "Not":
                return bnot(x) if rv[3] == "bool" else mk("call", "Not", x)
            if rv[1] == "PtrMetadata": return length(self.deref(st, x))
            raise Unsupported("unary %s" % rv[1])
        if k == "discr":
            return self.discr(self.deref(st, self.readp(st, fr, rv[1])), rv[2])
        if k == "agg":
            return self.aggregate(st, fr, rv[1], [self.operand(st, fr, o) for o in rv[2]])
        if k == "len":
            return length(self.readp(st, fr, rv[1]))
        raise Unsupported("rvalue %r" % (rv[:2],))
    def discr(self, v, ty):
        if v.op == "agg" and isinstance(v.args[0], tuple) and v.args[0][0] == "adt":
            a = self.prog.adts.get({"Option": "std::option::Option", "Result": "std::result::Result"}.get(v.args[0][1], v.args[0][1]))
            if a:
                for x in a["variants"]:
                    if x["name"] == v.args[0][2]: return num(int(x["discr"] or 0))
        return mk("discr", v, _freeze(ty))
    def aggregate(self, st, fr, kind, vals):
        k = kind[0]
        if k == "tuple": return tup(*vals)
        if k == "array": return vec(*vals)
        if k == "closure": return agg(("closure", kind[1]), [str(i) for i in range(len(vals))], vals)
        if k == "adt":
            return self.mkadt(kind[1], kind[2], vals)
        if k in ("rawptr", "other"): return vals[0]
        raise Unsupported("aggregate %r" % (kind,))
    RANGE = {"i8": (-128, 127), "u8": (0, 255), "i32": (-2**31, 2**31-1), "u32": (0, 2**32-1), "i64": (-2**63, 2**63-1),
             "u64": (0, 2**64-1), "usize": (0, 2**64-1), "isize": (-2**63, 2**63-1), "i16": (-2**15, 2**15-1), "u16": (0, 65535)}
    def cast(self, st, fr, rv):
        kind, op, fty, tty = rv[1], rv[2], rv[3], rv[4]
        x = self.operand(st, fr, op)
        if kind == "IntToInt":
            if x.op == "discr": return x
            if fty == "bool":
                return ite(x, ONE, ZERO) if x.op != "b" else num(int(x.args[0]))
            if x.op == "chr" or fty == "char": return mk("call", "char_as", x) 
            R = self.RANGE.get(tty)
            if R:
                lo, hi = st.facts.rng(x)
                f = self.RANGE.get(fty)
                if f: lo, hi = max(lo, f[0]), min(hi, f[1])
                if lo < R[0] or hi > R[1]:
                    if x.op == "num":
                        n = R[1] - R[0] + 1
                        return num((x.args[0] - R[0]) % n + R[0])
                    self.narrow.add((fr.body.name, fty, tty))
            return x
        if kind == "FloatToInt": return mk("trunc", x) if x.op != "num" else num(int(x.args[0]))
        return x
    def divrem(self, facts, a, b):
        """quotient and remainder when the part of a that b does not divide lies in [0, b)"""
        if b.op != "num" or not isinstance(b.args[0], int) or b.args[0] <= 1 or a.op == "num": return None
        m = b.args[0]; c, mono = tm.poly(a)
        if not isinstance(c, int) or any(not isinstance(v, int) for v in mono.values()): return None
        r = tm.unpoly(c % m, {k: v for k, v in mono.items() if v % m})
        q = tm.unpoly(c // m, {k: v // m for k, v in mono.items() if v % m == 0})
        lo, hi = facts.rng(r)
        if lo < 0 or hi >= m: return None
        if facts.rng(q)[0] < 0: return None
        return q, r
    def binop(self, st, op, a, b, ty):
        isint = ty not in ("f32", "f64")
        if op in ("Add", "AddUnchecked"): return add(a, b)
        if op in ("Sub", "SubUnchecked"): return sub(a, b)
        if op in ("Mul", "MulUnchecked"): return mul(a, b)
        if op in ("Div", "Rem") and isint:
            qr = self.divrem(st.facts, a, b)
            if qr: return qr[op == "Rem"]
        if op == "Div": return idiv(a, b) if isint else fdiv(a, b)
        if op == "Rem": return irem(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            return tup(f(a, b), FALSE)
        if ty == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd": return band(a, b)
            if op == "BitOr": return bor(a, b)
            return bor(band(a, bnot(b)), band(bnot(a), b))
        if op == "Eq": return self.eqv(st, a, b)
        if op == "Ne": return bnot(self.eqv(st, a, b))
        if op == "Le": return le(a, b, isint)
        if op == "Lt": return lt(a, b, isint)
        if op == "Ge": return le(b, a, isint)
        if op == "Gt": return lt(b, a, isint)
        return mk("call", "bin:" + op, a, b)
    def eqv(self, st, a, b):
        a = self.full(st, a); b = self.full(st, b)
        if a.op == "discr" and b.op == "discr" and a.args[1] == b.args[1]:
            return eq(a.args[0], b.args[0])
        for x, y in ((a, b), (b, a)):
            if x.op == "discr" and y.op == "num":
                n = self.variant_by_discr(x.args[1], y.args[0])
                if n: return isv(x.args[0], n[0], n[1])
            if x.op == "discr" or y.op == "discr": pass
        return eq(a, b)
    def variant_by_discr(self, ty, val):
        p = ty[1] if isinstance(ty, tuple) else None
        a = self.prog.adts.get(p)
        if not a: return None
        for v in a["variants"]:
            if (int(v["discr"] if v["discr"] is not None else 0) - int(val)) % 256 == 0: return v["name"], tuple(x["name"] for x in a["variants"])
        return None

    # ------------------------------------------------------------ functions
    def run(self, path, args, st=None, label="top"):
        b = self.prog.bodies.get(path)
        if b is None:
            c = self.prog.find(path)
            if len(c) != 1: raise Unsupported("function %s not found (%d candidates)" % (path, len(c)))
            b = c[0]
        return self.run_body(b, args, st or State(), (label, b.path))

    def type_arg(self, t):
        """a type argument of a call, with the type parameters of the function it is made in resolved"""
        if isinstance(t, (list, tuple)) and len(t) == 2 and t[0] == "param" and self.stack:
            p = self.stack[-1]
            while p not in self.tmaps and "::{closure" in p: p = p.rsplit("::{closure", 1)[0]
            return (self.tmaps.get(p) or {}).get(t[1], t)
        return t

    def run_body(self, body, args, st, callpath, targs=None):
        if len(self.stack) > 60: raise Unsupported("call depth")
        if targs is not None and len(targs) == len(body.generics or []): self.tmaps[body.path] = {g: self.type_arg(t) for g, t in zip(body.generics, targs)}
        self.analysed[body.name] = self.analysed.get(body.name, 0) + 1
        fid = intern_id("frame", callpath)
        fr = Frame(body, fid, len(self.stack))
        self.stack.append(body.path)
        try:
            for i, a in enumerate(args): st.mem[fr.root(i + 1)] = a
            back, exits, outs = self.region(fr, 0, [st], None, None)
            res = []
            for o in outs:
                if o.kind == "ret":
                    m = o.st.mem
                    for r in [r for r in m if r[0] == "l" and r[1] == fid]: del m[r]
                res.append(o)
            return self.merge_outs(res)
        finally:
            self.stack.pop()

    def merge_outs(self, outs):
        groups = {}
        for o in outs:
            k = (o.kind, o.val, tuple(sorted(((r, t.uid) for r, t in o.st.mem.items()), key=repr)), tuple(hash(x) for x in o.st.trace))
            groups.setdefault(k, []).append(o)
        res = []
        for g in groups.values():
            sts = exact_merge([o.st for o in g])
            res += [Out(g[0].kind, s, g[0].val) for s in sts]
        return res

    def merge_states(self, sts):
        if len(sts) < 2: return sts
        groups = {}
        for s in sts:
            k = (tuple(sorted(((r, t.uid) for r, t in s.mem.items()), key=repr)), tuple(hash(x) for x in s.trace))
            groups.setdefault(k, []).append(s)
        res = []
        for g in groups.values(): res += exact_merge(g)
        return res

    def region(self, fr, entry, sts, blocks, header):
        """run the blocks from `entry`; -> (states back at header, [(target, state)] leaving, outcomes)"""
        body = fr.body
        rpo, idx, preds, loops = body.cfg()
        pend = {entry: list(sts)}
        back = []; exits = []; outs = []
        first = header is not None
        def route(t, s):
            if header is not None and t == header: back.append(s)
            elif blocks is not None and t not in blocks: exits.append((t, s))
            else: pend.setdefault(t, []).append(s)
        while pend:
            b = min(pend, key=lambda x: idx[x])
            cur = self.merge_states(pend.pop(b))
            self.nstates += len(cur)
            if len(cur) > self.max_states: raise Unsupported("too many paths in %s" % body.name)
            for s in cur:
                if b in loops and not (b == header and first):
                    ex, os = self.mir_loop(fr, b, s)
                    outs += os
                    for t, s2 in ex: route(t, s2)
                else:
                    for kind, t, s2 in self.block(fr, b, s):
                        if kind == "go": route(t, s2)
                        elif kind == "skip":
                            if header is None: raise Unsupported("filtered next() outside a loop")
                            back.append(s2)
                        else: outs.append(Out(kind, s2, t))
            first = False
        return back, exits, outs

    def block(self, fr, b, st):
        blk = fr.body.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                self.writep(st, fr, s[1], self.rvalue(st, fr, s[2]))
            elif k == "dead":
                st.mem.pop(fr.root(s[1]), None)
            elif k == "live": st.mem.pop(fr.root(s[1]), None)
            elif k == "setd":
                raise Unsupported("set discriminant")
        t = blk["t"]; k = t[0]
        if k == "goto": return [("go", t[1], st)]
        if k == "return":
            v = st.mem.get(fr.root(0), UNIT)
            return [("ret", v, st)]
        if k == "unreachable": return []
        if k == "switch": return self.switch(fr, st, t)
        if k == "drop":
            pl = t[1]
            if not pl[1]:
                ty = fr.body.locals[pl[0]]["ty"]
                n = ty[1] if isinstance(ty, list) and ty[0] == "adt" else ""
                if n.split("::")[-1] in ("NoGradGuard", "BufWriter") and fr.root(pl[0]) in st.mem:
                    st.ev("drop:" + n.split("::")[-1], [], None, t[3])
                st.mem.pop(fr.root(pl[0]), None)
            return [("go", t[2], st)]
        if k == "assert":
            return [("go", t[4], st)]
        if k == "call": return self.call_term(fr, b, st, t)
        if k in ("resume", "other"): return []
        raise Unsupported("terminator %r" % (t,))

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        res = []; cur = [st.facts]
        rest = t[4]
        conds = []
        for val, bb in t[3]:
            val = int(val)
            if isinstance(t[2], str) and t[2] in SBITS and val >> (SBITS[t[2]] - 1): val -= 1 << SBITS[t[2]]
            if v.op == "discr":
                n = self.variant_by_discr(v.args[1], val)
                f = isv(v.args[0], n[0], n[1]) if n else mk("eqc", v, val)
            elif v.op == "ite":
                f = self.eq_ite(v, val, t[2])
            elif t[2] == "bool": f = v if val else bnot(v)
            elif v.op == "chr" or t[2] == "char": f = eq(v, mk("chr", val))
            else: f = eq(v, num(val))
            conds.append((f, bb))
        for f, bb in conds:
            nxt = []
            for g in cur:
                for h, b in split(f, g):
                    if b: res.append(("go", bb, State(dict(st.mem), h, st.trace)))
                    else: nxt.append(h)
            cur = nxt
        if v.op == "discr" and cur:
            # the remaining variants, when exactly one is left
            vs = self.prog.variants(v.args[1][1]) if isinstance(v.args[1], tuple) and len(v.args[1]) > 1 else None
            if vs:
                tested = {self.variant_by_discr(v.args[1], int(val))[0] for val, _ in t[3]}
                left = [x for x in vs if x not in tested]
                if not left: cur = []
                elif len(left) == 1:
                    n2 = []
                    for g in cur:
                        h = g.copy()
                        if h.add(isv(v.args[0], left[0], vs), True): n2.append(h)
                    cur = n2
        if t[2] == "bool" and len(t[3]) == 2: cur = []
        if rest is not None:
            for g in cur: res.append(("go", rest, State(dict(st.mem), g, st.trace)))
        return res
    def eq_ite(self, v, val, ty):
        if v.op == "ite":
            a = self.eq_ite(v.args[1], val, ty); b = self.eq_ite(v.args[2], val, ty)
            return bor(band(v.args[0], a), band(bnot(v.args[0]), b))
        if ty == "bool": return v if val else bnot(v)
        if v.op == "discr":
            n = self.variant_by_discr(v.args[1], val); return isv(v.args[0], n[0], n[1])
        return eq(v, num(val))

    # ------------------------------------------------------------ calls
    def call_term(self, fr, b, st, t):
        _, callee, argops, dest, target, span, destty = t[:7]
        args = [self.operand(st, fr, a) for a in argops]
        cs = (fr.fid, b)
        self.muts = {i for i, op in enumerate(t[2]) if op[0] in ("move", "copy") and not op[1][1] and isinstance(fr.body.locals[op[1][0]]["ty"], list) and fr.body.locals[op[1][0]]["ty"][0] == "ref" and fr.body.locals[op[1][0]]["ty"][2]}
        if "ind" in callee:
            f = self.operand(st, fr, callee["ind"])
            outs = self.call_value(st, f, args, cs, span)
        else:
            outs = self.call(st, callee, args, cs, span, destty)
        res = []
        for o in outs:
            if o.kind == "ret":
                if target is None:
                    res.append(("panic", o.val, o.st)); continue
                settype(o.val, destty)
                self.writep(o.st, fr, dest, o.val)
                res.append(("go", target, o.st))
            elif o.kind == "skip":
                res.append(("skip", None, o.st))
            else: res.append((o.kind, o.val, o.st))
        return res

    def call_value(self, st, f, args, cs, span=None):
        """call of a closure or function value"""
        while f.op == "ref":
            f = self.read_loc(st, *f.args)
        if f.op == "agg" and f.args[0][0] == "closure":
            body = self.prog.bodies.get(f.args[0][1])
            if body is None: raise Unsupported("closure body %s" % f.args[0][1])
            n = body.argc - 1
            if n != len(args):
                if len(args) == 1 and args[0].op == "agg": args = list(args[0].args[2])
            return self.run_body(body, [f] + list(args), st, (cs, body.path))
        if f.op == "fn":
            ta = list(f.args[1][2]) if isinstance(f.args[1], tuple) and len(f.args[1]) > 2 and f.args[1][0] == "fn" else []
            return self.call(st, {"path": f.args[0], "resolved": None, "trait": None, "body": f.args[0] in self.prog.bodies, "args": ta}, list(args), cs, span, None)
        v = mk("call", "apply", f, *[self.full(st, a) for a in args])
        st.ev("apply", [f] + [self.full(st, a) for a in args], v, span)
        return [Out("ret", st, v)]

    def call(self, st, callee, args, cs, span, destty):
        path = callee["path"]; res = callee.get("resolved")
        name = mir.short(path)
        lname = mir.short(res) if res else name
        key = (cs, )
        self.callsites.add((cs, path))
        is_opaque = name in self.opaque or (res or path) in self.opaque or lname in self.opaque
        body = None
        for p in (res, path):
            if p and p in self.prog.bodies: body = self.prog.bodies[p]; break
        if body is not None and body.kind != "Closure" and body.path.startswith("die_e::base::LearnableGame") : body = None
        quiet = self.models.QUIET_LOCAL
        if body is not None and body.kind == "Closure" and len(args) == 2 and mir.short(path) in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            t = args[1]      # the arguments arrive as one tuple
            n = body.argc - 1
            args = [args[0]] + [proj(t, ("f", str(i))) for i in range(n)]
        if body is None and len(args) == 2 and name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):    # a call of a parameter that may be any function
            me = args[0]; f = me
            while f.op == "ref":
                g = self.read_loc(st, *f.args)
                if g.op == "ref": me = g
                f = g
            t = args[1]; n = None
            if f.op == "agg" and f.args[0][0] == "closure" and f.args[0][1] in self.prog.bodies: n = self.prog.bodies[f.args[0][1]].argc - 1
            elif f.op == "fn": n = len(t.args[2]) if t.op == "agg" else None
            if n is not None:
                al = [proj(t, ("f", str(i))) for i in range(n)]
                if f.op == "fn": return self.call_value(st, f, al, cs, span)
                b = self.prog.bodies[f.args[0][1]]
                if b.path not in self.stack: return self.run_body(b, [me] + al, st, (cs, b.path))
        if body is not None and not is_opaque and body.path not in self.stack and name not in quiet:
            if not (body.path.startswith("<") and name in self.models.MODELS and name not in self.force_inline and self.derived(body)):
                return self.run_body(body, args, st, (cs, body.path), callee.get("args"))
        if body is not None and body.path in self.stack and not is_opaque:
            vals = [self.full(st, a) for a in args]
            v = mk("call", "rec:" + name, *vals)
            st.ev("rec:" + name, vals, v, span)
            self.post_refs(st, "rec:" + name, args, vals)
            return [Out("ret", st, v)]
        if not is_opaque:
            m = self.models.lookup(name, path)
            if m is not None:
                r = m(self, st, args, Call(path, name, callee, cs, span, destty))
                if r is not None: return r
        if name in self.typed: args = list(args) + [mk("str", ",".join(type_name(self.type_arg(x)) for x in callee.get("args") or []))]
        return self.opaque_call(st, name, args, span, destty, path)

    def derived(self, body):
        return body.path.endswith("Clone>::clone") or body.path.endswith("PartialEq>::eq")

    def post_refs(self, st, name, args, vals):
        for i, a in enumerate(args):
            if a.op == "ref":
                if not self.models.keeps(name, i):
                    self.write_loc(st, a.args[0], a.args[1], mk("post", name, i, *vals))
            elif a.op == "agg" and mentions(a, lambda x: x.op == "ref"):
                for x in list(subterms(a)):
                    if x.op == "ref":
                        self.write_loc(st, x.args[0], x.args[1], mk("post", name, (i, x.args[1]), *vals))

    def opaque_call(self, st, name, args, span, destty, path=None, effect=None):
        vals = [self.full(st, a) for a in args]
        pure = self.models.is_pure(name) or name in self.pure
        if pure and name.startswith(self.models.CHANGES) and name not in self.pure and any(i < len(args) and args[i].op == "ref" for i in self.muts): pure = False    # takes what it is given by &mut
        if not pure and name not in self.opaque and not self.models.known(name): self.unknown.add(name)
        if effect is not None: pure = not effect
        extra = ()
        if not pure:
            n = sum(1 for e, _ in flatten(st.trace) if e.name == name and e.args == tuple(vals))
            if n: extra = (mk("nth", n),)
        v = mk("call", name, *(tuple(vals) + extra))
        settype(v, destty)
        if destty == ["tuple", []]: v = UNIT
        if not pure:
            st.ev(name, vals, v, span)
            self.post_refs(st, name, args, tuple(vals) + extra)
        if destty == "!": return [Out("panic", st, v)]
        return [Out("ret", st, v)]

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, h, st):
        blocks = fr.body.cfg()[3][h]
        lid = intern_id("loop", fr.fid, h)
        def step(s):
            back, exits, outs = self.region(fr, h, [s], blocks, h)
            r = [("back", None, x) for x in back] + [("exit", t, x) for t, x in exits]
            r += [(o.kind, o.val, o.st) for o in outs]
            return r
        span = fr.body.blocks[h]["t"][-1]
        ex = self.loop(st, lid, step, fr.body.name)
        return ([(t, s) for kind, t, s in ex if kind == "exit"], [Out(kind, s, t) for kind, t, s in ex if kind != "exit"])

    def loop(self, st, lid, step, where=""):
        """summarise a loop. step(state at the header) -> [(back|exit|ret|panic, payload, state)]"""
        if self.unroll:
            # a loop over a literal: the iterations are followed one by one when their number is a small constant
            sts = [st.copy()]; out = []; n = 0
            while sts and n <= self.unroll:
                nxt = []
                for s in sts:
                    for kd, t, x in step(s):
                        if kd == "back": nxt.append(x)
                        else: out.append((kd, t, x))
                sts = self.merge_states(nxt); n += 1
            if not sts: return out
        r = self.literal_loop(st, step)
        if r is not None: return r
        k = mk("k", lid); TYPES[k.uid] = "usize"
        mods = {}                     # (root, path) -> phi term
        induct = {}                   # (root, path) -> step
        base_lits = len(st.facts.lits)
        roots = dict(st.mem)
        rounds = 0
        frames_before = dict(tm.FRAMES); framed = set()
        while True:
            rounds += 1
            for x in [x for x in tm.FRAMES if x not in frames_before and x not in mods.values()]: tm.FRAMES.pop(x)   # of loops inside this one, last round
            if rounds > 40: raise Unsupported("loop in %s does not stabilise" % where)
            s0 = st.copy(); s0.trace = ()
            for (root, path), phi in sorted(mods.items(), key=lambda kv: len(kv[0][1])):
                if (root, path) in induct:
                    iv, d = get(roots[root], path), induct[(root, path)]
                    if d == "pop": phi = mkslice(iv, ZERO, sub(length(iv), k))
                    elif d == "front": phi = mkslice(iv, k, length(iv))
                    elif isinstance(d, tuple): phi = mul(d[1], k)
                    else: phi = add(iv, mul(d, k))
                self.write_loc(s0, root, path, phi)
            head = dict(s0.mem)
            self.loopstack.append(k)
            try: results = step(s0)
            finally: self.loopstack.pop()
            for (root, path), d in induct.items():
                if isinstance(d, tuple):
                    for kd, _, s in results:
                        if kd != "back" and root in s.mem and get(s.mem[root], path) is mul(d[1], k): self.write_loc(s, root, path, mk_min([mul(d[1], k), d[2]]))
            backs = [s for kd, _, s in results if kd == "back"]
            new = set()
            for s in backs:
                for r, v in head.items():
                    w = s.mem.get(r)
                    if w is None or w is v: continue
                    for p in diff(v, w): new.add((r, p))
            changed = False
            for (r, p) in new:
                # is it already covered by an equal or shorter modified path?
                if (r, p) in mods: continue
                cov = [m for m in mods if m[0] == r and (m[1] == p[:len(m[1])])]
                if any(m not in induct for m in cov): continue
                if cov and all(m in induct and m[1] == p for m in cov): continue
                under = [m for m in mods if m[0] == r and m[1][:len(p)] == p]
                for m in under: mods.pop(m); induct.pop(m, None)
                for m in cov: mods.pop(m); induct.pop(m, None)
                iv = get(roots[r], p)
                ph = mk("phi", lid, r, p)
                settype(ph, typeof(iv)); tm.FRAMES.pop(ph, None); framed.discard(ph)
                mods[(r, p)] = ph; changed = True
            if changed: continue
            # inductions
            newind = False
            for (r, p), ph in mods.items():
                if (r, p) in induct: continue
                nx = [get(s.mem[r], p) for s in backs if r in s.mem]
                if not nx: continue
                iv = get(roots[r], p)
                if all(x.op == "removed" and x.args[0] is ph for x in nx):
                    at = {x.args[1] for x in nx}
                    if at == {sub(length(ph), ONE)}: induct[(r, p)] = "pop"; newind = True; continue
                    if at == {ZERO}: induct[(r, p)] = "front"; newind = True; continue
                if iv is ZERO and len(set(nx)) == 1 and nx[0].op == "min" and len(nx[0].args) == 2:
                    # counting up to a limit: under the limit it has not been cut off yet
                    L = [x for x in nx[0].args if not mentions(x, lambda y: y is ph)]; own = lambda x: x.op in ("phi", "k") and x.args[0] == lid
                    if len(L) == 1 and L[0].op == "len" and not mentions(L[0], own) and all(s.facts.ev(lt(ph, L[0])) is True for s in backs):
                        d = sub([x for x in nx[0].args if x is not L[0]][0], ph)
                        if not mentions(d, own): induct[(r, p)] = ("cap", d, L[0]); newind = True; continue
                if iv.op not in ("num", "poly") and typeof(iv) is None and iv.op not in ("len",): continue
                ds = {sub(x, ph) for x in nx}
                if len(ds) == 1:
                    d = ds.pop()
                    if d.op == "num" and d.args[0] != 0:
                        induct[(r, p)] = d; newind = True
                    elif d is not ZERO and d.op in ("sym", "p", "const", "poly", "call") and not mentions(d, lambda x: x.op in ("phi", "k") and (x.args[0] == lid)) and (typeof(d) or all(x.op == "poly" for x in nx)):
                        induct[(r, p)] = d; newind = True
            if newind: continue
            # vectors whose length the loop does not change
            fixed = False
            for (r, p), ph in mods.items():
                if (r, p) in induct or ph in LENS: continue
                nx = [get(s.mem[r], p) for s in backs if r in s.mem]
                if any(x.op == "with" for x in nx) and all(length(x) is length(ph) for x in nx): LENS[ph] = length(get(roots[r], p)); fixed = True
            if fixed: continue
            # fields that nothing in the loop writes (every iteration hands the whole to calls that leave them alone)
            for (r, p), ph in mods.items():
                if (r, p) in induct or ph in framed: continue
                nx = [get(s.mem[r], p) for s in backs if r in s.mem]
                cand = [tm.KEPT(x.args[0], x.args[1]) if x.op == "post" else frozenset(tm.FRAMES.get(x, ())) for x in nx if x is not ph]
                if not cand: continue
                fs = frozenset.intersection(*cand)
                fs = {f for f in fs if all(proj(x, ("f", f)) is proj(ph, ("f", f)) for x in nx)}
                if fs: tm.FRAMES[ph] = {f: proj(get(roots[r], p), ("f", f)) for f in fs}; fixed = True; framed.add(ph)
            if fixed: continue
            break
        r = self.close_loop(st, lid, k, mods, induct, results, base_lits, head, where)
        for ph in mods.values():
            LENS.pop(ph, None)
            fr = tm.FRAMES.pop(ph, None)
            if fr is not None: fr = {f: x for f, x in fr.items() if ph not in frames_before or frames_before[ph].get(f) is x}
            elif ph in frames_before: fr = {}
            if fr is not None: tm.FRAMES[ph] = fr      # (several ways into the loop have to agree)
        return r

    def literal_loop(self, st, step):
        """a loop over the elements of a literal is followed element by element"""
        def literal(t):
            if t.op != "agg": return False
            if t.args[0] == ("iter", "seq"):
                src, pos = proj(t, ("f", "src")), proj(t, ("f", "pos"))
                return src.op == "vec" and pos.op == "num" and 0 < len(src.args) - pos.args[0] <= 8 and any(x.op not in ("num", "poly") for x in src.args)
            return any(literal(x) for x in t.args[2])
        own = [r for r, v in st.mem.items() if literal(v)]
        if not own: return None
        sts = [st.copy()]; out = []
        for n in range(10):
            nxt = []
            for s in sts:
                r = step(s)
                backs = [x for kd, t, x in r if kd == "back"]
                if n == 0 and not (backs and any(all(x.mem.get(r0) is not st.mem[r0] for x in backs) for r0 in own)): return None
                out += [x for x in r if x[0] != "back"]; nxt += backs
            if not nxt: return out
            sts = self.merge_states(nxt)
            if len(sts) > 64: return None
        return None

    def close_loop(self, st, lid, k, mods, induct, results, base_lits, head, where):
        iskphi = lambda x: (x.op == "k" and x.args[0] == lid) or (x.op == "phi" and x.args[0] == lid)
        isphi = lambda x: (x.op == "phi" and x.args[0] == lid)
        backs = [s for kd, _, s in results if kd == "back"]
        others = [(kd, t, s) for kd, t, s in results if kd != "back"]
        phis = [(m, mods[m]) for m in sorted(mods, key=repr) if m not in induct]
        newlits = lambda s: s.facts.lits[base_lits:]
        # trip count: bounds on k that hold on every back path
        bound_lits = {}
        if backs:
            common = set(newlits(backs[0]))
            for s in backs[1:]: common &= set(newlits(s))
            for f, v in newlits(backs[0]):
                if (f, v) in common:
                    n = trip(f, v, k, iskphi)

                    if n is not None: bound_lits[(f, v)] = n
        N = None
        if bound_lits:
            ns = []
            for n in bound_lits.values():
                if n not in ns: ns.append(n)
            N = ns[0] if len(ns) == 1 else mk_min(ns)
        # back paths
        bps = []
        for s in backs:
            conds = tuple((f, v) for f, v in newlits(s) if (f, v) not in bound_lits)
            nexts = tuple(get(s.mem[m[0]], m[1]) if m[0] in s.mem else UNINIT for m, _ in phis)
            bps.append(BackPath(conds, s.trace, nexts, s.facts))
        inits = tuple(get(st.mem[m[0]], m[1]) for m, _ in phis)
        rec = LoopRec(lid=lid, N=N, k=k, phis=[p for _, p in phis], locs=[m for m, _ in phis], inits=inits, backs=bps, where=where,
                      bounds=dict(bound_lits), early=False, induct={m: induct[m] for m in induct})
        # a loop inside another is analysed again and again until that one is stable: the last analysis counts;
        # an outer one may be entered on several paths: all count
        self.loopinfo[(lid, inits, N, tuple(st.facts.lits)) if not self.loopstack else lid] = rec
        rec.early = any(kd not in ("panic",) and not any((f, not v) in bound_lits for f, v in newlits(s)) for kd, _, s in others)
        rec.facts0 = st.facts
        closed = self.closed_forms(rec)
        exits = []
        early = []
        for kd, t, s in others:
            lits = newlits(s)
            neg_b = [(f, v) for f, v in lits if (f, not v) in bound_lits]
            exhaust = bool(neg_b)
            m = {}
            if exhaust:
                n = bound_lits[(neg_b[0][0], not neg_b[0][1])]
                if len(bound_lits) > 1: n = N
                at = n
            else: at = k
            for (mm, ph), cl in zip(phis, closed):
                if cl is not None: m[ph] = cl(at)
            if exhaust: m[k] = at
            exits.append((kd, t, s, exhaust, m, lits))
        res = []
        effects = any(b.trace for b in bps)
        # early exits: the iteration at which the loop is left is the first one whose exit condition holds
        early = []                      # (id of state, own condition)
        for kd, t, s, exhaust, m, lits in exits:
            if exhaust or kd == "panic": continue
            c = band(*[f if v else bnot(f) for f, v in lits if (f, v) not in bound_lits])
            c = subst(c, {ph: cl(k) for (mm, ph), cl in zip(phis, closed) if cl is not None})
            early.append((id(s), c))
        clean_early = N is not None and not effects and early and not any(mentions(c, isphi) for _, c in early)
        allc = bor(*[c for _, c in early]) if early else FALSE
        anyq = quant("any", N, allc, k) if clean_early else None
        at_first = mkfirst(N, allc, k) if clean_early else None
        for kd, t, s, exhaust, m, lits in exits:
            f = st.facts.copy(); okf = True
            if not exhaust and kd != "panic" and clean_early:
                m = {ph: subst(cl(k), {k: at_first}) for (mm, ph), cl in zip(phis, closed) if cl is not None}
                m[k] = at_first
                okf = f.add(anyq, True)
                rng_first(f, at_first, N)
                own = subst([c for i, c in early if i == id(s)][0], {k: at_first})
                f.add(own, True, record=len({c for _, c in early}) > 1) if len({c for _, c in early}) > 1 else addquiet(f, own)
            g = (lambda x, m=m: subst(x, m)) if m else (lambda x: x)
            ns = State({r: g(v) for r, v in s.mem.items()}, None, None)
            if exhaust:
                for fl, v in lits:
                    if (fl, not v) in bound_lits: continue
                    okf = f.add(g(fl), v) and okf
                if kd != "panic" and anyq is not None: okf = f.add(anyq, False) and okf
            elif kd == "panic" or not clean_early:
                for fl, v in lits: okf = f.add(g(fl), v) and okf
            if not okf: continue
            ns.facts = f
            tr = map_trace(s.trace, g) if m else s.trace
            if effects:
                r2 = LoopRec(**rec.__dict__); r2.exhaust = exhaust; r2.exit_k = at_of(exhaust, m, k)
                ns.trace = st.trace + (r2,) + tr
            else: ns.trace = st.trace + tr
            res.append((kd, g(t) if isinstance(t, T) else t, ns))
        return res

    def closed_forms(self, rec):
        """for every phi a function: iteration number -> value at the start of that iteration (or None)"""
        lid, k = rec.lid, rec.k
        out = []
        phiset = set(rec.phis)
        # a vector that grows by the same number of elements in every iteration has a known length
        lens = {}
        for i, ph in enumerate(rec.phis):
            ps = [pieces(b.nexts[i], ph) for b in rec.backs]
            if ps and all(p is not None and all(t == "e" for t, _ in p) for p in ps) and len({len(p) for p in ps}) == 1 and ps[0]:
                lens[length(ph)] = add(length(rec.inits[i]), mul(num(len(ps[0])), k))
        if lens:
            rec = LoopRec(**rec.__dict__)
            rec.backs = [BackPath(tuple((subst(f, lens), v) for f, v in b.conds), b.trace,
                         tuple(self.subst_len(x, ph, lens) for x, ph in zip(b.nexts, rec.phis)), b.facts) for b in rec.backs]
        rec = self.fresh_keys(rec)
        rec = self.each_once(rec)
        best = self.best_forms(rec)
        for i, ph in enumerate(rec.phis):
            init = rec.inits[i]
            nx = [b.nexts[i] for b in rec.backs]
            out.append(best.get(i) or self.closed1(rec, ph, init, nx, phiset))
        # dependencies: a closed form may mention other phis that have closed forms themselves
        done = {}
        for i, ph in enumerate(rec.phis):
            if out[i] is not None: done[ph] = out[i]
        memo = {}
        def wrap(cl):
            def f(at):
                t = cl(k)
                for _ in range(6):
                    m = {p: done[p](k) for p in phiset if p in done and mentions(t, lambda x: x is p)}
                    if not m: break
                    t = subst(t, m)
                return t
            return f
        res = []
        bad = {p for p in phiset if p not in done}
        for i, ph in enumerate(rec.phis):
            if out[i] is None:
                res.append(self.fold_form(rec, i)); continue
            res.append(out[i])
        return res

    def under(self, t, facts):
        from .rules import norm
        return norm(t, facts)
    def best_forms(self, rec):
        """variables that hold the element with the largest (smallest) score seen so far: {variable: closed form}"""
        k = rec.k
        if rec.N is None or rec.early or any(b.trace for b in rec.backs) or len(rec.backs) < 2: return {}
        phiset = set(rec.phis)
        clean = lambda x: not mentions(x, lambda y: y in phiset)
        for P in ([i for i, ph in enumerate(rec.phis) if all(b.nexts[i] is ph or clean(b.nexts[i]) for b in rec.backs)],):
            if not P: continue
            own = {rec.phis[i] for i in P}
            keep = [b for b in rec.backs if all(b.nexts[i] is rec.phis[i] for i in P)]
            take = [b for b in rec.backs if b not in keep]
            if not keep or not take: continue
            takes = {tuple(b.nexts[i] for i in P) for b in take}
            score = {}; sign = None; bound = False
            ok_ = True
            # the value taken may itself depend on conditions that do not concern the variables
            groups = {}
            for b in rec.backs:
                cl = frozenset((f, v) for f, v in b.conds if clean(f))
                groups.setdefault(cl, []).append(b)
            vals = {i: [] for i in P}; scores = []
            for cl, bs in groups.items():
                cond = band(*[f if v else bnot(f) for f, v in cl])
                tk = [b for b in bs if b in take]
                if not tk: ok_ = False; break
                tau = {rec.phis[i]: tk[0].nexts[i] for i in P}
                if any(b.nexts[i] is not tau[rec.phis[i]] for b in tk for i in P): ok_ = False; break
                s = None
                for b in bs:
                    lits = [(f, v) for f, v in b.conds if not clean(f)]
                    cmpl = [(f, v) for f, v in lits if f.op in ("le", "lt")]
                    iss = [(f, v) for f, v in lits if f.op == "isv"]
                    if len(cmpl) > 1 or len(cmpl) + len(iss) != len(lits): ok_ = False; break
                    if any(v is False for _, v in iss):
                        if b in keep: ok_ = False; break
                        bound = True; continue
                    if len(cmpl) != 1: ok_ = False; break
                    f, v = cmpl[0]
                    if f.args[1] not in (0, -1): ok_ = False; break
                    c0, m = poly(f.args[0])
                    A = unpoly(0, {mo: co for mo, co in m.items() if any(not clean(a) for a, _ in mo)})
                    B = neg(sub(f.args[0], A))
                    up = None
                    for sg in (1, -1):
                        if subst(scale(A, sg), tau) is scale(B, sg):
                            # sg*A is the score kept, sg*B the one of this element: f says sg*(kept - this) <= 0
                            lit_says_kept_smaller = (sg > 0) == v
                            up = lit_says_kept_smaller if b in take else not lit_says_kept_smaller
                            sc = scale(B, sg); ka = scale(A, sg)
                            # both signs fit a linear score: prefer the one in which the score is not negated
                            if not neg_led(sc): break
                    if up is None or sign not in (None, up) or (s is not None and s is not sc): ok_ = False; break
                    sign = up; s = sc; kept = ka
                if not ok_: break
                if s is None: ok_ = False; break
                scores.append((cond, s))
                for i in P: vals[i].append((cond, tau[rec.phis[i]]))
            if not ok_ or sign is None: continue
            chain = lambda xs: xs[0][1] if len(xs) == 1 else ite(xs[0][0], xs[0][1], chain(xs[1:]))
            order = lambda xs: sorted(xs, key=lambda z: z[0].uid)
            key = chain(order(scores)); val = {i: chain(order(vals[i])) for i in P}
            if sign is False: key = neg(key)
            inits = [rec.inits[i] for i in P]
            low = any(variant(x) == "None" for x in inits) and bound or any(isfloor(subst(kept, {rec.phis[i]: rec.inits[i] for i in P}), sign) for _ in (0,))
            first = all(self.under(subst(val[i], {k: num(-1)}), rec.facts0) is self.under(rec.inits[i], rec.facts0) for i in P)
            def form(i, first=first, key=key, val=val):
                def f(at):
                    if first:
                        b = fresh_bv((key,))
                        return subst(val[i], {k: sub(mkargmax(add(at, ONE), subst(key, {k: sub(b, ONE)}), b), ONE)})
                    b = fresh_bv((key,))
                    return ite(eq(at, ZERO), rec.inits[i], subst(val[i], {k: mkargmax(at, subst(key, {k: b}), b)}))
                return f
            if first or low: return {i: form(i) for i in P}
        return {}
    def fresh_keys(self, rec):
        """a map that starts empty and gets an entry under a key that differs from one iteration to the next is the sequence of its entries"""
        for i, ph in enumerate(rec.phis):
            nx = [b.nexts[i] for b in rec.backs]
            ins = {x.args[1] for x in nx if x.op == "mapped" and x.args[0] is ph}
            if rec.inits[i] is not vec() or len(ins) != 1 or not all(x is ph or x.op == "mapped" and x.args[0] is ph for x in nx): continue
            key = next(iter(ins)); d = sub(key, rec.k)
            if mentions(d, lambda y: y is rec.k or y in rec.phis): continue
            old = mk("has", ph, key); backs = []
            for b, x in zip(rec.backs, nx):
                if any(f is old and v for f, v in b.conds): continue
                pair = tup(key, x.args[2]) if x.op == "mapped" else None
                nexts = list(b.nexts)
                if pair is not None: nexts[i] = push(ph, pair)
                backs.append(BackPath(tuple((f, v) for f, v in b.conds if f is not old), b.trace, tuple(nexts), b.facts))
            rec = LoopRec(**rec.__dict__); rec.backs = backs
        return rec
    def each_once(self, rec):
        """a loop that changes element k of a vector in iteration k finds it as it was before the loop"""
        own = {}
        for i, ph in enumerate(rec.phis):
            nx = [b.nexts[i] for b in rec.backs]; at = ("i", rec.k)
            if any(x.op == "with" for x in nx) and all(x is ph or x.op == "with" and x.args[0] is ph and x.args[1] == at for x in nx):
                own[proj(ph, at)] = proj(rec.inits[i], at); own[length(ph)] = length(rec.inits[i])
        if not own: return rec
        rec = LoopRec(**rec.__dict__)
        rec.backs = [BackPath(tuple((subst(f, own), v) for f, v in b.conds), b.trace, tuple(subst(x, own) for x in b.nexts), b.facts) for b in rec.backs]
        return rec
    def subst_len(self, x, ph, lens):
        return subst(x, lens)
    def closed1(self, rec, ph, init, nx, phiset):
        k = rec.k; lid = rec.lid
        def clean(x): return not mentions(x, lambda y: y in phiset)
        conds = [band(*[f if v else bnot(f) for f, v in b.conds]) for b in rec.backs]
        # vector accumulator
        alts = []
        okv = True
        for b, x in zip(rec.backs, nx):
            pcs = pieces(x, ph)
            if pcs is None or not all(clean(p[1]) for p in pcs) or not all(clean(f) for f, _ in b.conds if pcs): okv = False; break
            alts.append((tuple(f if v else bnot(f) for f, v in b.conds), tuple(pcs)))
        if okv and any(a[1] for a in alts):
            al = [a for a in alts if a[1]]
            if not all(clean(c) for a in al for c in a[0]): return None
            return lambda at: concat(init, mkcomp(at, al, k))
        # every element replaced in turn
        if any(x.op == "with" for x in nx) and all(x is ph or x.op == "with" and x.args[0] is ph and x.args[1] == ("i", k) and clean(x.args[2]) for x in nx) and all(clean(f) for b in rec.backs for f, _ in b.conds):
            old = proj(init, ("i", k))
            al = [(tuple(f if v else bnot(f) for f, v in b.conds), (("e", old if x is ph else x.args[2]),)) for b, x in zip(rec.backs, nx)]
            return lambda at: concat(mkcomp(at, al, k), mkslice(init, at, length(init)))
        # boolean latch
        cs = {x for x in nx if x is not ph}
        if len(cs) == 1 and ph is not None and (cs <= {TRUE} or cs <= {FALSE}):
            c = next(iter(cs))
            cond = bor(*[cd for cd, x in zip(conds, nx) if x is c])
            if clean(cond):
                if c is TRUE: return lambda at: bor(init, quant("any", at, cond, k))
                return lambda at: band(init, bnot(quant("any", at, cond, k)))
        # numeric accumulator
        ts = []
        oks = True
        for x in nx:
            d = sub(x, ph) if x.op not in ("agg", "vec", "str", "b", "ref") else None
            if d is None or not clean(d): oks = False; break
            ts.append(d)
        if oks and ts and typeof(init) != "x" and all(clean(c) for c in conds):
            al = tuple((c, d) for c, d in zip(conds, ts) if d is not ZERO)
            if al and numericlike(init, ts): return lambda at: add(init, quant("sum", at, al, k))
        # plain overwrite with loop-independent value on every path
        return None

    def fold_form(self, rec, i):
        k = rec.k
        def f(at):
            raw = tuple((b.conds, b.nexts) for b in rec.backs)
            bvv = fresh_bv(raw)
            m = {p: mk("ph", bvv.args[0], j) for j, p in enumerate(rec.phis)}
            m[k] = bvv
            body = subst_any(raw, m)
            return mk("fold", at, i, rec.inits, body, bvv)
        # when nothing is known about the number of iterations the phi itself is the value at the exit
        if rec.N is None or rec.early or any(b.trace for b in rec.backs): return None
        return f

def at_of(exhaust, m, k): return m.get(k) if exhaust else k

class Call:
    def __init__(self, path, name, callee, cs, span, destty):
        self.path = path; self.name = name; self.callee = callee; self.cs = cs; self.span = span; self.destty = destty

def _freeze(x):
    if isinstance(x, list): return tuple(_freeze(y) for y in x)
    if isinstance(x, dict): return tuple(sorted((k, _freeze(v)) for k, v in x.items()))
    return x

def type_name(t): return t if isinstance(t, str) else str(t[1]).split("::")[-1] if isinstance(t, (list, tuple)) and len(t) > 1 else str(t)

def typeof(t):
    if t.op == "num": return "num"
    return TYPES.get(t.uid) or ("poly" if t.op == "poly" else None)

def numericlike(init, ts):
    return init.op in ("num", "poly") or typeof(init) or all(t.op in ("num", "poly") for t in ts)

def mkslice(v, lo, hi):
    if v.op == "slice": return mkslice(v.args[0], add(v.args[1], lo), add(v.args[1], hi))
    if lo is ZERO and hi is length(v): return v
    if lo is hi: return vec()
    if v.op == "vec" and lo.op == "num" and hi.op == "num": return vec(*v.args[lo.args[0]:hi.args[0]])
    return mk("slice", v, lo, hi)

def mkargmax(n, key, b):
    t = mk("argmax", n, key, b)
    TYPES[t.uid] = "usize"
    return t
def neg_led(x):
    c, m = poly(x)
    return bool(m) and all(v < 0 for v in m.values())
def isfloor(x, up):
    if x.op == "float": return x.args[0] in (("-inf", "-Infinity") if up else ("inf",))
    if x.op == "poly": return any("float(inf)" in show(a) for mo, co in x.args[1] for a, _ in mo if (co < 0) == up and a.op == "float")
    if x.op == "num": return x.args[0] <= -10**30 if up else x.args[0] >= 10**30
    return False
def mk_min(xs):
    xs = sorted(set(xs))
    nums = [x for x in xs if x.op == "num"]; rest = [x for x in xs if x.op != "num"]
    if nums: rest.append(min(nums, key=lambda x: x.args[0]))
    if len(rest) == 1: return rest[0]
    # min(x, x + c)
    for a in list(rest):
        for b in list(rest):
            if a is not b and a in rest and b in rest:
                d = sub(a, b)
                if d.op == "num": rest.remove(a if d.args[0] > 0 else b)
    if len(rest) == 1: return rest[0]
    return mk("min", *sorted(rest))
def mk_max(xs):
    xs = sorted(set(xs))
    nums = [x for x in xs if x.op == "num"]; rest = [x for x in xs if x.op != "num"]
    if nums: rest.append(max(nums, key=lambda x: x.args[0]))
    if len(rest) == 1: return rest[0]
    return mk("max", *sorted(rest))

def trip(f, v, k, iskphi):
    """number of iterations allowed by the loop literal (f == v), or None"""
    if f.op == "le":
        p, c = f.args
        m = poly(p)[1]; ks = [(mono, q) for mono, q in m.items() if any(x is k for x, _ in mono)]
        if len(ks) == 1 and ks[0][1] == (1 if v else -1):        # counting up by a step that is no constant
            step = [(x, e) for x, e in ks[0][0] if x is not k]
            if len(step) == 1 and step[0][1] == 1 and (k, 1) in ks[0][0] and typeof(step[0][0]) in (None, "usize", "u64", "u32", "u16", "u8"):
                d = step[0][0]; rest = sub(p, scale(mul(d, k), ks[0][1]))
                if not mentions(rest, iskphi) and not mentions(d, iskphi):
                    return mk("cdiv", add(sub(num(c), rest), ONE) if v else sub(rest, num(c)), d)
        co, rest = lin(p, k)
        if co is None or mentions(rest, iskphi): return None
        if v and co > 0: n = add(sub(num(c), rest), ONE); a = co        # a*k <= c - rest
        elif not v and co < 0: n = sub(rest, num(c)); a = -co            # -a*k + rest > c -> a*k < rest - c
        else: return None
        if n.op == "num" and isinstance(n.args[0], (int, Fraction)):
            import math
            return num(max(0, math.ceil(Fraction(n.args[0]) / Fraction(a))))
        if a == 1: return n
        return mk("cdiv", n, num(a)) if not isinstance(a, Fraction) else None
    if f.op == "eqc" and not v:
        p, c = f.args
        co, rest = lin(p, k)
        if co is None or mentions(rest, iskphi): return None
        n = sub(num(c), rest) if co > 0 else sub(rest, num(c))
        if abs(co) != 1: return None
        return n
    if f.op == "le" or f.op == "lt": return None
    return None

def lin(p, k):
    """p = co*k + rest with co a number; (None, None) when not linear in k"""
    c, m = poly(p)
    co = 0; r = {}
    for mono, v in m.items():
        if mono == ((k, 1),): co = v
        elif any(a is k for a, _ in mono): return None, None
        else: r[mono] = v
    if co == 0: return None, None
    return co, unpoly(c, r)

def pieces(x, ph):
    """x as ph followed by pushed elements: [("e", elem) | ("s", vec)], or None"""
    if x is ph: return []
    if x.op == "ext":
        p = pieces(x.args[0], ph)
        return None if p is None else p + [("e", y) for y in x.args[1]]
    if x.op == "cat":
        p = pieces(x.args[0], ph)
        return None if p is None else p + [("s", y) for y in x.args[1:]]
    return None

def bvdepth(x, memo={}):
    if isinstance(x, tuple):
        return max([bvdepth(y) for y in x], default=0)
    if not isinstance(x, T): return 0
    r = memo.get(x)
    if r is None:
        if x.op == "bv": r = x.args[0]
        else: r = max([bvdepth(y) for y in kids(x)], default=0)
        memo[x] = r
    return r
def fresh_bv(body):
    t = mk("bv", bvdepth(body) + 1)
    TYPES[t.uid] = "usize"
    return t
def subst_any(x, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, T): return subst(x, m, memo)
    if isinstance(x, tuple): return tuple(subst_any(y, m, memo) for y in x)
    return x

COMP_HOOKS = []                                        # rules about particular lists, given by the checks
def mkcomp(n, alts, k):
    """comprehension over k < n; alts: [(conds, pieces)]"""
    alts = tuple((tuple(sorted(set(a[0]))), tuple(a[1])) for a in alts)
    alts = merge_alts(alts)
    if len(alts) > 1 and all(len(a[1]) == 1 and a[1][0][0] == "e" for a in alts): alts = merge_cases(alts)
    b = fresh_bv(alts)
    alts = subst_any(alts, {k: b})
    if n is ZERO: return vec()
    for h in COMP_HOOKS:
        r = h(n, alts, b)
        if r is not None: return r
    # identity: [v[i] for i < len v]
    if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "e":
        e = alts[0][1][0][1]
        if e.op == "p" and e.args[1] == ("i", b) and length(e.args[0]) is n and not mentions(e.args[0], lambda x: x is b): return e.args[0]
        if not mentions(e, lambda x: x is b): return mk("rep", e, n)
    if n.op == "num" and 0 < n.args[0] <= 9 and all(not a[0] for a in alts) and len(alts) == 1:
        out = vec()
        for i in range(n.args[0]):
            for tag, x in alts[0][1]:
                y = subst(x, {b: num(i)})
                out = push(out, y) if tag == "e" else concat(out, y)
        return out
    return mk("comp", n, alts, b)

def merge_cases(alts):
    """one element per iteration whose value depends on complementary conditions: one alternative with a conditional value"""
    cur = [(frozenset(c), p[0][1]) for c, p in alts]
    ch = True
    while ch and len(cur) > 1:
        ch = False
        for i in range(len(cur)):
            for j in range(i + 1, len(cur)):
                d = cur[i][0] ^ cur[j][0]
                if len(d) == 2:
                    x, y = d
                    if bnot(x) is y:
                        l = x if x in cur[i][0] else y
                        cur[i] = (cur[i][0] & cur[j][0], ite(l, cur[i][1], cur[j][1])); del cur[j]; ch = True; break
            if ch: break
    if len(cur) == 1 and not cur[0][0]: return (((), (("e", cur[0][1]),)),)
    return alts
def merge_alts(alts):
    """alternatives with equal pieces: merge pairs of conditions differing in one sign"""
    groups = {}
    for c, p in alts: groups.setdefault(p, []).append(frozenset(c))
    out = []
    for p, cs in groups.items():
        cs = dnf_merge(cs)
        for c in cs: out.append((tuple(sorted(c)), p))
    return tuple(sorted(out, key=lambda a: (tuple(x.uid for x in a[0]), repr([y[1].uid for y in a[1]]))))

def dnf_merge(cs):
    cs = list(dict.fromkeys(cs))
    ch = True
    while ch:
        ch = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                a, b = cs[i], cs[j]
                d = a ^ b
                if len(d) == 2:
                    x, y = d
                    if bnot(x) is y and ((x in a) != (y in a)):
                        cs[i] = a & b; del cs[j]; ch = True; break
                if a <= b: del cs[j]; ch = True; break
                if b <= a: cs[i] = b; del cs[j]; ch = True; break
            if ch: break
    return list(dict.fromkeys(cs))

def quant(kind, n, body, k):
    if kind == "any":
        if body is FALSE: return FALSE
        if not mentions(body, lambda x: x is k):
            return band(body, bnot(le(n, ZERO)))
        b = fresh_bv((body,))
        return mk_any(n, subst(body, {k: b}), b)
    if kind == "sum":
        b = fresh_bv(body)
        body = subst_any(body, {k: b})
        if len(body) == 1 and body[0][0] is TRUE and not mentions(body[0][1], lambda x: x is b): return mul(n, body[0][1])
        return mk("sum", n, body, b)

def mkfirst(n, cond, k):
    """the smallest iteration k < n with cond (which exists)"""
    if n.op == "num" and n.args[0] <= 32:
        for i in range(n.args[0]):
            ci = subst(cond, {k: num(i)})
            if ci is TRUE: return num(i)
            if ci is not FALSE: break
    b = fresh_bv((cond,))
    t = mk("first", n, subst(cond, {k: b}), b)
    TYPES[t.uid] = "usize"
    return t
def rng_first(f, t, n):
    lo, hi = f.rng(n)
    f._tight(t, 0, hi - 1 if hi != INF else INF)
def addquiet(f, c):
    n = f.lits
    f.add(c, True, False)
    f.lits = n

def diff(a, b):
    """paths (through record fields) at which two values differ"""
    if a is b: return []
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]):
        r = []
        for n, x, y in zip(a.args[1], a.args[2], b.args[2]):
            r += [(("f", n),) + p for p in diff(x, y)]
        return r
    if b.op == "with" and b.args[1][0] == "f":
        base, e, x = b.args
        return [(e,) + p for p in diff(proj(a, e), x)] + diff_except(a, base, e)
    if a.op == "with" and a.args[1][0] == "f" :
        base, e, x = a.args
        return [(e,) + p for p in diff(x, proj(b, e))] + diff_except(base, b, e)
    return [()]
def diff_except(a, b, e):
    return [p for p in diff(a, b) if not (p and p[0] == e)]

def exact_merge(sts):
    """states with equal memory and trace: join pairs whose facts differ in the sign of one literal"""
    sts = list(sts)
    ch = True
    while ch and len(sts) > 1:
        ch = False
        for i in range(len(sts)):
            for j in range(i + 1, len(sts)):
                a, b = dict(sts[i].facts.lits), dict(sts[j].facts.lits)
                if a.keys() == b.keys():
                    d = [f for f in a if a[f] != b[f]]
                    if not d: drop = None
                    elif len(d) == 1: drop = d[0]
                    else: continue
                    if drop is None: del sts[j]
                    else:
                        lits = [(f, v) for f, v in sts[i].facts.lits if f is not drop]
                        sts[i] = State(sts[i].mem, join_facts(sts[i].facts, sts[j].facts, drop, lits), sts[i].trace); del sts[j]
                    ch = True; break
                sa, sb = set(a.items()), set(b.items())
                if sa <= sb: del sts[j]; ch = True; break
                if sb <= sa: sts[i] = sts[j]; del sts[j]; ch = True; break
            if ch: break
    return sts

def join_facts(f, g, drop, lits):
    """what both of two fact sets know; they differ in the sign of one literal"""
    h = Facts()
    h.d = {k: v for k, v in f.d.items() if g.d.get(k) == v}
    for k, r in f.iv.items():
        q = g.iv.get(k)
        if q is None: continue
        if isinstance(r, tuple) and isinstance(q, tuple): h.iv[k] = (min(r[0], q[0]), max(r[1], q[1]))
        elif r == q: h.iv[k] = r
    h.lits = tuple(lits)
    return h

def _resum(n, body, b):
    if n.op == "num" and n.args[0] <= 9:
        r = ZERO
        for i in range(n.args[0]):
            for c, t in body:
                c = subst(c, {b: num(i)}); t = subst(t, {b: num(i)})
                r = add(r, t if c is TRUE else ZERO if c is FALSE else ite(c, t, ZERO))
        return r
    return mk("sum", n, body, b)
def _recomp(n, alts, b):
    if n.op == "num" and n.args[0] == 0: return vec()
    if n.op == "num" and n.args[0] <= 9 and len(alts) == 1 and not alts[0][0]: return mkcomp(n, alts, b)
    keep = []
    for c, p in alts:
        if any(x is FALSE for x in c): continue
        keep.append((tuple(x for x in c if x is not TRUE), p))
    for h in COMP_HOOKS:
        r = h(n, tuple(keep), b)
        if r is not None: return r
    return mk("comp", n, tuple(keep), b)
def mk_removed(v, i):
    if v.op == "slice":
        w, lo, hi = v.args
        if i is ZERO: return mkslice(w, add(lo, ONE), hi)
        if i is sub(sub(hi, lo), ONE): return mkslice(w, lo, sub(hi, ONE))
    if v.op == "vec" and i.op == "num" and 0 <= i.args[0] < len(v.args): return vec(*(v.args[:i.args[0]] + v.args[i.args[0] + 1:]))
    return mk("removed", v, i)
tm.REBUILD_HOOK.update({"removed": mk_removed, "first": lambda n, c, b: mkfirst(n, c, b), "min": lambda *a: mk_min(list(a)), "max": lambda *a: mk_max(list(a)), "slice": mkslice, "sum": _resum, "comp": _recomp,
    "rep": lambda x, n: vec(*([x] * n.args[0])) if n.op == "num" and n.args[0] <= 64 else mk("rep", x, n),
    "cdiv": lambda n, c: num(-(-n.args[0] // c.args[0])) if n.op == "num" else mk("cdiv", n, c)})
