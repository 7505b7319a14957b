"""Which fields of what a function is given by `&mut` it may write: a may-write analysis over the MIR, closed over the calls the
reference is handed on to.  What it answers is an upper bound; where it cannot tell it answers None (everything may be written)."""

def locals_in(x, out):
    """every (local, projections) place mentioned in a piece of MIR"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]): out.append(x)
        else:
            for y in x: locals_in(y, out)
    elif isinstance(x, dict):
        for y in x.values(): locals_in(y, out)

def field(pl):
    """the first field a place under the reference goes through, or None for the whole"""
    p = pl[1]
    if len(p) >= 2 and p[0][0] == "d" and p[1][0] == "f": return p[1][2] if p[1][2] is not None else str(p[1][1])
    return None

def writes(prog, body, i, busy=()):
    """the fields of *argument i that `body` may write, or None"""
    memo = prog.__dict__.setdefault("_frames", {})
    if (body.path, i) in memo: return memo[(body.path, i)]
    if (body.path, i) in busy: return frozenset()
    if i >= body.argc: return None
    r = _writes(prog, body, i, busy + ((body.path, i),))
    if not busy: memo[(body.path, i)] = r
    return r

def _writes(prog, body, i, busy):
    alias = {i + 1}; ok = True; out = set()
    changed = True
    while changed:
        changed = False; out = set()
        def note(pl):
            f = field(pl)
            if f is None: return False
            out.add(f); return True
        for blk in body.blocks:
            for s in blk["s"]:
                if s[0] == "setd":
                    ps = []; locals_in(s[1:], ps)
                    if any(p[0] in alias for p in ps): return None
                if s[0] != "=": continue
                d, rv = s[1], s[2]
                if d[0] in alias and d[1]:
                    if not note(d): return None
                ps = []; locals_in(rv, ps)
                ps = [p for p in ps if p[0] in alias]
                if not ps: continue
                if rv[0] == "ref":
                    if not rv[1]: continue
                    if field(rv[2]) is not None: note(rv[2]); continue
                    if [e[0] for e in rv[2][1]] == ["d"] and not d[1]:
                        if d[0] not in alias: alias.add(d[0]); changed = True
                        continue
                    return None
                if rv[0] == "use" and any(not p[1] for p in ps):
                    if d[1]: return None
                    if d[0] not in alias: alias.add(d[0]); changed = True
                    continue
                if rv[0] in ("use", "bin", "un", "discr", "cast", "len", "repeat", "agg") and all(field(p) is not None for p in ps): continue
                return None
            t = blk["t"]
            if t[0] == "call":
                if t[3] is not None and t[3][0] in alias and t[3][1]:
                    if not note(t[3]): return None
                for n, op in enumerate(t[2]):
                    ps = []; locals_in(op, ps)
                    for p in ps:
                        if p[0] not in alias or p[1]: continue
                        callee = t[1]
                        if "ind" in callee: return None
                        b = prog.bodies.get(callee.get("resolved") or callee["path"])
                        w = writes(prog, b, n, busy) if b is not None else None
                        if w is None: return None
                        out |= w
            elif t[0] == "drop":
                ps = []; locals_in(t[1], ps)
                for p in ps:
                    if p[0] in alias and p[1] and not note(p): return None
    return frozenset(out)

PLAIN = {"std::string::String", "alloc::string::String", "std::path::PathBuf", "std::vec::Vec", "alloc::vec::Vec", "std::option::Option", "core::option::Option", "std::time::Duration", "std::collections::HashMap", "std::boxed::Box"}
def plain(prog, ty, busy=()):
    """data without cells, handles or references: only a write through its own place changes it"""
    if ty is None: return False
    if isinstance(ty, str): return True
    k = ty[0]
    if k == "tuple": return all(plain(prog, x, busy) for x in ty[1])
    if k in ("array", "slice"): return plain(prog, ty[1], busy)
    if k == "adt":
        if not all(plain(prog, x, busy) for x in (ty[2] if len(ty) > 2 else []) if isinstance(x, (list, str))): return False
        if ty[1] in busy or ty[1] in PLAIN: return True
        a = prog.adts.get(ty[1])
        if a is None: return False
        return all(plain(prog, f[1], busy + (ty[1],)) for v in a["variants"] for f in v["fields"])
    return False

def may_write(prog, name, i):
    """the fields of *argument i a call of `name` may change, or None when that is not known"""
    bs = prog.by_short.get(name, [])
    if len(bs) != 1 or bs[0].path.startswith("<") or i >= bs[0].argc: return None
    b = bs[0]; ty = b.locals[i + 1]["ty"]
    if not (isinstance(ty, list) and ty[0] == "ref" and isinstance(ty[1], list) and ty[1][0] == "adt"): return None
    a = prog.adts.get(ty[1][1])
    if a is None or a["kind"] != "struct": return None
    w = writes(prog, b, i)
    if w is None: return None
    return frozenset(f[0] for f in a["variants"][0]["fields"] if f[0] in w or not plain(prog, f[1]))

def kept(prog, name, i):
    """the fields of *argument i that a call of `name` leaves as they are"""
    memo = prog.__dict__.setdefault("_kept", {})
    if (name, i) not in memo:
        w = may_write(prog, name, i)
        b = prog.by_short.get(name, [None])[0]
        memo[(name, i)] = frozenset() if w is None else frozenset(f[0] for f in prog.adts[b.locals[i + 1]["ty"][1][1]]["variants"][0]["fields"]) - w
    return memo[(name, i)]
