"""The search tree (C14, C15), playouts and plain search (C16, C18), selection (C19)."""
from .common import *
from sa.engine import Engine, State, Out, BackPath
from sa import terms as tm

NODE = "die_e::mcts::node::Node"
STORE = "die_e::mcts::node_store::NodeStore"
FIELDS = ("state", "idx", "parent", "children", "visits", "value", "policy", "action_taken", "expandable_moves")
TR = ("nodes",)                                  # indices kept in the tree are valid (C14 decides it)

# ---------------------------------------------------------------- rewriting with the tree's invariants
def is_nodes(v):
    while v.op in ("with", "ext", "cat") and (v.op != "with" or v.args[1][0] == "i"): v = v.args[0]
    return v.op == "p" and v.args[1] == ("f", "nodes") or v.op == "phi" and bool(v.args[2]) and v.args[2][-1] == ("f", "nodes")
def is_node(t): return t.op == "p" and t.args[1][0] == "i" and is_nodes(t.args[0])
def field(t, f): return proj(t, ("f", f))
def unchanged(v, f):
    """the vector of nodes with the writes that leave field f alone taken away"""
    while v.op == "with" and v.args[1][0] == "i":
        old = proj(v.args[0], v.args[1])
        if field(v.args[2], f) is not field(old, f): break
        v = v.args[0]
    return v
EXPANDS = ("Node::alpha_expand", "Node::alpha_expand_tensor")
KEEPS = {"simple_mcts::backpropagate": (3, ("visits", "value")), "Node::apply_dirichlet": (3, ("policy",))}   # store argument, fields changed (C15, C22)
def after(v):
    """the vector of nodes v is that of a store after an opaque call: (name, call arguments)"""
    if v.op == "p" and v.args[1] == ("f", "nodes") and v.args[0].op == "post":
        a = v.args[0].args
        if a[0] in KEEPS and a[1] == KEEPS[a[0]][0] or a[0] in EXPANDS and a[1] == 1: return a[0], a[2:]
    return None
def step_post(t):
    b = t.args[0]
    if t.args[1][0] == "f":
        f = t.args[1][1]
        if b.op == "post" and b.args[0] in EXPANDS and b.args[1] == 0 and f not in ("children", "expandable_moves"): return rw(field(b.args[2], f))
        if b.op == "p" and b.args[1][0] == "i":
            x = after(b.args[0])
            if x and x[0] in KEEPS and f not in KEEPS[x[0]][1]: return rw(field(proj(field(x[1][KEEPS[x[0]][0]], "nodes"), b.args[1]), f))
    elif t.args[1][0] == "i":
        x = after(b)
        if x and x[0] in EXPANDS and rw(field(x[1][0], "idx")) is t.args[1][1]: return mk("post", x[0], 0, *x[1])
    return t
def step(t):
    if t.op == "p":
        s = step_post(t)
        if s is not t: return s
    if t.op == "p" and t.args[1][0] == "f" and is_node(t.args[0]):
        f = t.args[1][1]; v, ix = t.args[0].args
        if f == "idx": return ix[1]              # a node's index is its place
        w = unchanged(v, f)
        if w is not v: return rw(field(proj(w, ix), f))
        if f == "parent":                        # a child links to the node that lists it
            i = ix[1]
            if i.op == "p" and i.args[1][0] == "i" and i.args[0].op == "p" and i.args[0].args[1] == ("f", "children") and is_node(i.args[0].args[0]):
                return some(i.args[0].args[0].args[1][1])
    return t
_memo = {}
def rw(t):
    r = _memo.get(t)
    if r is None:
        def go(x):
            if isinstance(x, T): return rw(x)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        na = go(t.args)
        r = t if na == t.args else tm.rebuild(t.op, na)
        r = step(r)
        _memo[t] = r
    return r
def rwfacts(facts, g=rw):
    f = Facts(); okk = True
    for l, v in facts.lits:
        okk = f.add(g(l), v) and okk
    return f if okk else None
def rwout(o, g=rw):
    f = rwfacts(o.st.facts, g)
    if f is None: return None
    st = State({r: g(v) for r, v in o.st.mem.items() if isinstance(v, T)}, f, tuple(x.map(g) for x in o.st.trace))
    return Out(o.kind, st, g(o.val) if isinstance(o.val, T) else o.val)
def tidy(outs): return [x for x in (rwout(o) for o in outs) if x is not None]

# ---------------------------------------------------------------- the vector of nodes as an effect
class Effect:
    """base vector, elements added at the end, places overwritten"""
    def __init__(self, v, base=None):
        self.added = []; self.over = {}; self.base = v
        def go(v):
            if v is base: return v
            if v.op == "ext":
                b = go(v.args[0]); self.added += [("e", x) for x in v.args[1]]; return b
            if v.op == "cat":
                b = go(v.args[0])
                for x in v.args[1:]: self.added.append(("s", x))
                return b
            if v.op == "with" and v.args[1][0] == "i":
                b = go(v.args[0]); self.over[v.args[1][1]] = v.args[2]; return b
            return v
        self.base = go(v)

def node_is(c, key, n, want, facts, what):
    for f in FIELDS:
        if f in want: c.need(implied_eq(field(n, f), want[f], facts), "%s:%s" % (key, f), "%s: %s is %s, expected %s" % (what, f, show(field(n, f))[:160], show(want[f])[:160]))
def moves_of(s): return mk("call", "LearnableGame::get_valid_moves", s)
def played(s, m): return mk("post", "apply_move", 0, s, m)

def post_of(st, s):
    """the state after playing, as the engine names it"""
    return s

# ---------------------------------------------------------------- C14
def c14(c, prog):
    S = sym("store"); N = field(S, "nodes"); mem = {("g", "store"): S}
    a = dict(state=sym("state"), idx=sym("idx", "usize"), parent=sym("parent"), action_taken=sym("action_taken"), policy=sym("policy"))
    fresh = dict(children=vec(), visits=ZERO, value=ZERO, expandable_moves=None)
    r = Run(c, prog, fn(prog, "Node::new"), [a["state"], a["idx"], a["parent"], a["action_taken"], a["policy"]])
    fresh["expandable_moves"] = moves_of(a["state"])
    for o in r.outs:
        c.count("obligations_nodes")
        if c.need(o.kind == "ret", "Node::new:panic", "Node::new stops"): node_is(c, "Node::new", o.val, dict(fresh, **a), o.st.facts, "a new node")
    r = Run(c, prog, fn(prog, "NodeStore::add_node"), [mutref("store"), a["state"], a["parent"], a["action_taken"], a["policy"]], mem=mem)
    for o in r.outs:
        if not c.need(o.kind == "ret", "add_node:panic", "add_node stops"): continue
        c.need(o.val is length(N), "add_node:index", "add_node returns %s, expected the place of the new node" % show(o.val)[:120])
        e = Effect(field(o.st.mem[("g", "store")], "nodes"), N)
        if c.need(e.base is N and not e.over and len(e.added) == 1 and e.added[0][0] == "e", "add_node:effect", "add_node makes the store %s" % show(o.st.mem[("g", "store")])[:200]):
            node_is(c, "add_node", e.added[0][1], dict(fresh, **dict(a, idx=length(N))), o.st.facts, "the node added")
    # access
    i = sym("i", "usize"); n = sym("node")
    for f in ("get_node", "get_node_ref"):
        r = Run(c, prog, fn(prog, "NodeStore::" + f), [S, i], trusted=TR)
        for o in r.rets: c.need(implied_eq(o.val, proj(N, ("i", i)), o.st.facts), f, "%s(i) returns %s" % (f, show(o.val)[:160])); c.count("access")
    r = Run(c, prog, fn(prog, "NodeStore::get_node_as_mut"), [mutref("store"), i], mem=mem, trusted=TR)
    for o in r.rets: c.need(o.val is mk("ref", ("g", "store"), (("f", "nodes"), ("i", i))), "get_node_as_mut", "get_node_as_mut(i) refers to %s" % show(o.val)[:160]); c.count("access")
    r = Run(c, prog, fn(prog, "NodeStore::set_node"), [mutref("store"), n], mem=mem, trusted=TR)
    for o in r.rets:
        c.count("access")
        e = Effect(field(o.st.mem[("g", "store")], "nodes"), N)
        c.need(e.base is N and not e.added and e.over == {field(n, "idx"): n}, "set_node", "set_node makes the nodes %s" % show(field(o.st.mem[("g", "store")], "nodes"))[:200])
    # copies are complete
    for p, b in prog.bodies.items():
        if p.endswith("std::clone::Clone>::clone") and ("::Node<" in p or "Node as" in p and "ActionNode" not in p):
            s = sym("self")
            r = Run(c, prog, b, [s])
            for o in r.outs:
                c.count("access")
                if o.val is not s: node_is(c, "Node::clone", o.val, {f: field(s, f) for f in FIELDS}, o.st.facts, "a copy of a node")
    # expanding one move
    me = sym("self"); mv = field(me, "expandable_moves"); TYPES[field(me, "idx").uid] = "usize"
    mem = {("g", "store"): S, ("g", "self"): me}
    r = Run(c, prog, fn(prog, "Node::expand"), [mutref("self"), mutref("store")], mem=mem, trusted=TR)
    empty = eq(length(mv), ZERO)
    for o in r.outs:
        for g, e in refine(o.st.facts, lambda ask: ask(empty)):
            c.count("expansions")
            if e: c.need(o.kind == "panic", "expand:empty", "a node without untried moves is expanded"); continue
            if not c.need(o.kind == "ret", "expand:panic", "expand stops when %s" % g): continue
            me2 = o.st.mem[("g", "self")]; nodes = field(o.st.mem[("g", "store")], "nodes")
            left = field(me2, "expandable_moves")
            if not c.need(left.op in ("removed", "swap_removed") and left.args[0] is mv, "expand:untried", "after expanding, the untried moves are %s" % show(left)[:160]): continue
            m = proj(mv, ("i", left.args[1]))
            grown(c, "expand", nodes, N, me, me2, [("e", m, ZERO)], left, o, g)
            c.need(implied_eq(o.val, length(N), g), "expand:returns", "expand returns %s, expected the child's index" % show(o.val)[:120])
    # expanding all moves with priors
    pol = sym("policy")
    for f in ("alpha_expand", "alpha_expand_tensor"):
        r = Run(c, prog, fn(prog, "Node::" + f), [mutref("self"), mutref("store"), pol], mem=mem, trusted=TR)
        for o in r.outs:
            c.count("expansions")
            if o.kind != "ret":
                # an action outside the action space cannot be looked up
                c.need(f == "alpha_expand" and any("encode" in show(l) or "policy" in show(l) for l, _ in o.st.facts.lits), f + ":panic", "%s stops when %s" % (f, where(o))); continue
            me2 = o.st.mem[("g", "self")]; nodes = field(o.st.mem[("g", "store")], "nodes")
            c.need(field(me2, "expandable_moves") is vec(), f + ":untried", "after expanding, the untried moves are %s" % show(field(me2, "expandable_moves"))[:160])
            code = lambda m: mk("call", "LearnableGame::encode", field(me, "state"), m)
            prior = (lambda m: proj(pol, ("i", code(m)))) if f == "alpha_expand" else (lambda m: mk("call", "Tensor::double_value", pol, vec(code(m))))
            grown(c, f, nodes, N, me, me2, "all", vec(), o, o.st.facts, prior)
    c.floor("expansions", 4); c.floor("access", 4)

def grown(c, key, nodes, N, me, me2, what, left, o, g, prior=lambda m: ZERO):
    mv = field(me, "expandable_moves")
    e = Effect(nodes, N)
    if not c.need(e.base is N, key + ":store", "the store becomes %s" % show(nodes)[:200]): return
    ix = field(me, "idx")
    if c.need(list(e.over) == [ix], key + ":stored", "the expanded node is %s" % ("not stored back at its place" if not e.over else "stored at %s" % [show(x)[:60] for x in e.over])):
        st = e.over[ix]
        for f in FIELDS: c.need(implied_eq(field(st, f), field(me2, f), g), key + ":stored", "the stored copy of the expanded node differs in %s" % f)
    for f in FIELDS:
        if f not in ("children", "expandable_moves"): c.need(implied_eq(field(me2, f), field(me, f), g), key + ":kept", "expanding changes %s of the node" % f)
    ch = Effect(field(me2, "children"), field(me, "children"))
    if not c.need(ch.base is field(me, "children") and not ch.over and len(ch.added) == 1 and len(e.added) == 1 and ch.added[0][0] == e.added[0][0], key + ":children", "the children become %s and the nodes added are %s" % (show(field(me2, "children"))[:160], [show(x[1])[:80] for x in e.added])): return
    if what == "all":
        one = each(e.added[0][1]); idx = each(ch.added[0][1])
        if not c.need(one is not None and idx is not None and one[0] is length(mv) and idx[0] is length(mv), key + ":every", "not one child is added for every untried move: %s" % show(e.added[0][1])[:200]): return
        b = one[2]; n = one[1]; k = subst(idx[1], {idx[2]: b})
        took = field(n, "action_taken")
        m = proj(took, ("f", "0")) if variant(took) == "Some" else None
        if not c.need(m is not None and m.op == "p" and m.args[0] is mv and m.args[1][0] == "i" and m.args[1][1] in (b, sub(length(mv), add(b, ONE))), key + ":action_taken", "the child's move is %s, expected each of the untried moves" % show(took)[:160]): return
        c.need(implied_eq(k, add(length(N), b), g), key + ":children", "the child's index listed is %s, expected its place in the store" % show(k)[:100])
    else:
        n = e.added[0][1]; m = what[0][1]; b = ZERO
        c.need(implied_eq(ch.added[0][1], length(N), g), key + ":children", "the child's index listed is %s, expected its place in the store" % show(ch.added[0][1])[:100])
    s = field(n, "state")
    good = s.op == "post" and s.args[0].endswith("apply_move") and s.args[2] is field(me, "state") and s.args[3] is m
    c.need(good, key + ":state", "the child's position is %s, expected the position after its move" % show(s)[:200])
    node_is(c, key, n, dict(idx=add(length(N), b), parent=some(field(me, "idx")), children=vec(), visits=ZERO, value=ZERO, policy=prior(m), action_taken=some(m), expandable_moves=moves_of(s)), g, "the child")

def each(v):
    """(count, element, variable) of a comprehension with exactly one element per iteration"""
    if v.op == "comp" and len(v.args[1]) == 1 and not v.args[1][0][0] and len(v.args[1][0][1]) == 1 and v.args[1][0][1][0][0] == "e":
        return v.args[0], v.args[1][0][1][0][1], v.args[2]
    return None

# ---------------------------------------------------------------- repeated steps: recursion or a loop
class Steps:
    """a function that walks the tree by calling itself or in one loop, as the list of its single steps
    (facts, current node, value of the store before and after, next node or None, value returned)"""
    def __init__(self, c, r, start, key):
        self.list = []; self.bad = None
        outs = tidy(r.outs)
        self.panics = [o for o in outs if o.kind == "panic"]
        loops = list(r.e.loopinfo.values())
        loops = [l for l in loops if l.backs and l.N is None]
        rec = [e for o in outs for e, _ in flatten(o.st.trace) if e.name.startswith("rec:")]
        self.form = "loop" if loops and not rec else "recursion"
        if self.form == "recursion":
            for o in outs:
                if o.kind != "ret": continue
                ev = [e for e, _ in flatten(o.st.trace) if e.name.startswith("rec:")]
                self.list.append((o.st.facts, start, o, ev))
            return
        if len(loops) != 1: self.bad = "%d loops" % len(loops); return
        l = loops[0]
        self.loop = l
        self.outs = outs

def backed_step(c, key, facts, i, V, new, cont, result, player):
    """one node is visited: its visits and value, and where the walk goes on"""
    e = Effect(new, V)
    if not c.need(e.base is V and not e.added and list(e.over) == [i], key + ":writes", "one step writes %s, expected exactly the visited node %s" % ([show(x)[:80] for x in e.over] or show(new)[:160], show(i)[:60])): return
    n = proj(V, ("i", i)); X = e.over[i]
    par = field(n, "parent")
    def spec(ask):
        if ask(isv(par, "Some", OPT)):
            p = proj(proj(par, ("v", "Some")), ("f", "0"))
            ch = mk("call", "LearnableGame::get_player", field(proj(V, ("i", p)), "state"))
            return p, ask(eq(ch, player))
        return None, True
    for f, (p, same) in refine(facts, spec):
        c.count("steps")
        val = add(field(n, "value"), result if same else neg(result))
        want = {k: field(n, k) for k in FIELDS}; want["visits"] = add(field(n, "visits"), ONE); want["value"] = val
        node_is(c, key, X, want, f, "the node visited when %s" % str(f)[:160])
        if p is None: c.need(cont is None, key + ":root", "the walk goes on above a root")
        else: c.need(cont is not None and implied_eq(cont, p, f), key + ":parent", "after a node with a parent the walk goes on at %s" % (show(cont)[:100] if cont is not None else "nothing"))

def walk_loop(r):
    """the loop of a walk: record, index of the phi that holds the current node, its initial value"""
    loops = [l for l in r.e.loopinfo.values() if l.backs]
    return loops

def c15(c, prog):
    S = sym("store"); N = field(S, "nodes"); i0 = sym("node_idx", "usize"); res = sym("result"); pl = sym("player", "i8")
    r = Run(c, prog, fn(prog, "simple_mcts::backpropagate"), [i0, res, pl, mutref("store")], mem={("g", "store"): S}, trusted=TR)
    outs = tidy(r.outs)
    key = "backpropagate"
    for o in outs:
        if o.kind == "panic": c.viol(key + ":panic", "backing up stops when %s" % where(o))
    loops = [l for l in r.e.loopinfo.values() if l.backs]
    if not loops:
        for o in outs:
            if o.kind != "ret": continue
            ev = [e for e, _ in flatten(o.st.trace)]
            rec = [e for e in ev if e.name.startswith("rec:")]
            if not c.need(len(rec) == len(ev) and len(rec) <= 1, key + ":calls", "one step makes the calls %s" % [e.name for e in ev]): continue
            if rec:
                a = rec[0].args
                st = [x for x in a if x.op == "with" or x is S]
                if not c.need(res in a and pl in a and len(st) == 1, key + ":passes", "the result is passed on as %s" % [show(x)[:60] for x in a]): continue
                idx = [x for x in a if x not in (res, pl) and x is not st[0]]
                c.need(o.st.mem[("g", "store")].op == "post" and o.st.mem[("g", "store")].args[0] == rec[0].name, key + ":after", "the store is changed after the ancestors were visited")
                backed_step(c, key, o.st.facts, i0, N, field(st[0], "nodes"), idx[0] if len(idx) == 1 else None, res, pl)
            else: backed_step(c, key, o.st.facts, i0, N, field(o.st.mem[("g", "store")], "nodes"), None, res, pl)
    else:
        if not c.need(len(loops) == 1, key + ":loops", "%d loops" % len(loops)): return
        l = loops[0]
        nod = [j for j, p in enumerate(l.phis) if p.args[2] and p.args[2][-1] == ("f", "nodes") or l.locs[j][0] == ("g", "store")]
        cur = [j for j in range(len(l.phis)) if j not in nod and (l.inits[j] is i0 or l.inits[j] is some(i0))]
        if not c.need(len(nod) == 1 and len(cur) == 1, key + ":walk", "the walk is not over a single current node and the store"): return
        V = l.phis[nod[0]]; cu = l.phis[cur[0]]; opt = l.inits[cur[0]] is some(i0)
        if l.locs[nod[0]][1] == (): V = field(V, "nodes")
        c.need(l.inits[nod[0]] in (N, S), key + ":start", "the walk starts from a changed store")
        i = proj(proj(cu, ("v", "Some")), ("f", "0")) if opt else cu
        for b in l.backs:
            f = rwfacts(b.facts)
            if f is None: continue
            nx = rw(b.nexts[cur[0]])
            new = rw(b.nexts[nod[0]])
            if l.locs[nod[0]][1] == (): new = field(new, "nodes")
            if opt:
                for g, some_ in refine(f, lambda ask: ask(isv(nx, "Some", OPT))):
                    backed_step(c, key, g, i, V, new, proj(proj(nx, ("v", "Some")), ("f", "0")) if some_ else None, res, pl)
            else: backed_step(c, key, f, i, V, new, nx, res, pl)
        for o in outs:
            if o.kind != "ret": continue
            fin = field(o.st.mem[("g", "store")], "nodes")
            if opt: c.need(fin is V and o.st.facts.ev(isv(cu, "Some", OPT)) is False, key + ":ends", "the walk ends before a node without a parent, when %s" % where(o))
            else: backed_step(c, key, o.st.facts, i, V, fin, None, res, pl)
    c.floor("steps", 3)

# ---------------------------------------------------------------- C19
def best_of(t):
    """(children, score of the child at place b, b) when t is the child with the largest score"""
    if t.op == "p" and t.args[1][0] == "i" and t.args[1][1].op == "argmax":
        n, key, b = t.args[1][1].args
        if n is length(t.args[0]): return t.args[0], key, b
    return None

def plain_score(n, p, c):
    v = inv(field(n, "visits"))
    return lambda ask: add(mul(field(n, "value"), v), mk("call", "f32::sqrt", mul(mul(c, mk("call", "f32::ln", field(p, "visits"))), v)))
def alpha_score(n, p, c):
    def spec(ask):
        q = ZERO if ask(eq(field(n, "visits"), ZERO)) else mul(field(n, "value"), inv(field(n, "visits")))
        return add(q, mul(mul(mul(c, mk("call", "f32::sqrt", field(p, "visits"))), inv(add(field(n, "visits"), ONE))), field(n, "policy")))
    return spec

def chosen_child(c, key, t, S, at, cc, score, facts):
    """t is the child of node `at` with the largest score"""
    N = field(S, "nodes")
    t = norm(t, facts)
    b = best_of(t)
    if not c.need(b is not None, key + ":best", "goes on to %s, expected the child with the largest score" % show(t)[:200]): return
    C, k, bv = b
    if not c.need(C is field(proj(N, ("i", at)), "children"), key + ":children", "the candidates are %s, expected the children of the node" % show(C)[:160]): return
    n = proj(N, ("i", proj(C, ("i", bv))))
    for f, want in refine(facts, score(n, proj(N, ("i", at)), cc)):
        c.count("scores")
        f2 = f.copy(); f2.add(isv(field(n, "parent"), "Some", OPT), True)
        have = norm(k, f)
        c.need(implied_eq(have, want, f), key + ":score", "the score of a child is %s, expected %s, when %s" % (show(have)[:200], show(want)[:200], str(f)[-160:]))

def descent(c, prog, name, stop, score):
    S = sym("store"); N = field(S, "nodes"); i0 = sym("node_idx", "usize"); cc = sym("c")
    r = Run(c, prog, fn(prog, name), [i0, S, cc], trusted=TR)
    outs = tidy(r.outs); key = name.split("::")[-1]
    loops = [l for l in r.e.loopinfo.values() if l.backs and any(x is i0 or x is proj(N, ("i", i0)) for x in l.inits)]
    steps = []                       # (facts, current node, returned index or None, next node or None)
    if not loops:
        for o in outs:
            if o.kind != "ret":
                steps.append((o.st.facts, i0, None, None)); continue
            rec = [e for e, _ in flatten(o.st.trace) if e.name.startswith("rec:")]
            if rec:
                a = [x for x in rec[0].args if x is not S and x is not cc]
                if not c.need(len(rec) == 1 and len(a) == 1 and S in rec[0].args and cc in rec[0].args and o.val.op == "call" and o.val.args[0] == rec[0].name, key + ":passes", "goes on with %s" % [show(x)[:80] for x in rec[0].args]): continue
                steps.append((o.st.facts, i0, None, a[0]))
            else: steps.append((o.st.facts, i0, o.val, None))
    else:
        if not c.need(len(loops) == 1 and not any(o.st.trace for o in outs), key + ":loops", "the descent is not a single loop"): return
        l = loops[0]
        j = [j for j, x in enumerate(l.inits) if x is i0 or x is proj(N, ("i", i0))]
        if not c.need(len(j) == 1, key + ":walk", "the descent has no single current node"): return
        j = j[0]; isnode = l.inits[j] is not i0
        cur = l.phis[j]
        # a kept copy of the node is the node at the kept place
        m = {}
        if isnode:
            t = sym("current", "usize"); m = {cur: proj(N, ("i", t))}; cur = t
        g = lambda x: rw(subst(x, m)) if m else rw(x)
        for b in l.backs:
            f = rwfacts(b.facts, g)
            if f is None: continue
            nx = g(b.nexts[j])
            if isnode: nx = nx.args[1][1] if is_node(nx) else nx
            steps.append((f, cur, None, nx))
        for o in outs:
            o = rwout(o, g)
            if o: steps.append((o.st.facts, cur, o.val if o.kind == "ret" else None, None))
    for f, cur, ret, nx in steps:
        n = proj(N, ("i", cur))
        for g, st in refine(f, lambda ask: stop(ask, n)):
            c.count("descents")
            if st: c.need(ret is not None and implied_eq(ret, cur, g), key + ":stop", "does not end at an expandable node but %s" % ("goes on" if nx is not None else "gives %s" % (show(ret)[:100] if ret is not None else "stops")))
            elif c.need(nx is not None, key + ":goes-on", "ends at a node that has to be descended further, when %s" % g):
                chosen_child(c, key, nx, S, cur, cc, score, g)

def c19(c, prog):
    kids_ = lambda n: eq(length(field(n, "children")), ZERO)
    descent(c, prog, "simple_mcts::select_leaf_node", lambda ask, n: ask(kids_(n)) or not ask(eq(length(field(n, "expandable_moves")), ZERO)), plain_score)
    descent(c, prog, "alpha_mcts::alpha_select_leaf_node", lambda ask, n: ask(kids_(n)), alpha_score)
    # the selection functions used on their own
    S = sym("store"); N = field(S, "nodes"); i0 = sym("node_idx", "usize"); cc = sym("c")
    for name, score in (("simple_mcts::select_ucb", plain_score),):
        r = Run(c, prog, fn(prog, name), [i0, S, cc], trusted=TR)
        for o in tidy(r.rets):
            c.need(is_node(o.val), "select_ucb", "gives %s" % show(o.val)[:100])
            if is_node(o.val): chosen_child(c, "select_ucb", o.val.args[1][1], S, i0, cc, score, o.st.facts)
    c.floor("descents", 4); c.floor("scores", 4)

# ---------------------------------------------------------------- C18
SKIP = object()
PLAYERS = (ONE, num(-1))                         # players are 1 and -1
WIN = "LearnableGame::check_winner"
def winner_of(s): return mk("call", WIN, s)
def outcome(ask, w, player):
    """a finished game's result from the player's view"""
    x = proj(proj(w, ("v", "Some")), ("f", "0"))
    for v in (1, -1, 0):
        if ask(eq(x, num(v))): return mul(num(v), player)
    return SKIP                                  # winners are 1, -1 or 0

def random_index(t, v):
    """t is a uniformly drawn place of the list v"""
    if t.op == "choice": return t.args[0] is v
    if t.op == "call" and t.args[0] in ("Rng::gen_range", "Rng::random_range"):
        rg = t.args[2]
        return rg.op == "agg" and rg.args[2][0] is ZERO and rg.args[2][1] is length(v) and "Inclusive" not in str(rg.args[0])
    return False

GAME_EV = ("LearnableGame::apply_move", "LearnableGame::skip_turn")
def quiet_events(tr, names=GAME_EV): return [e for e in tr if isinstance(e, Ev) and e.name in names]
HARMLESS = ("SliceRandom::choose", "Rng::gen_range", "Rng::random_range")

def c18(c, prog):
    for pl in PLAYERS: playout(c, prog, pl)
    c.floor("rounds", 4); c.floor("results", 6)
def playout(c, prog, pl):
    me = sym("self"); lim = sym("sim_limit", "usize"); key = "simulate"
    r = Run(c, prog, fn(prog, "Node::simulate"), [me, pl, lim], trusted=TR)
    s0 = field(me, "state")
    loops = {x.lid: x for o in r.outs for x in o.st.trace if isinstance(x, LoopRec)}
    if not c.need(len(loops) == 1, key + ":loop", "a playout is %d loops" % len(loops)): return
    l = next(iter(loops.values()))
    c.need(l.N is lim, key + ":limit", "the playout's length is bounded by %s, expected the round limit" % (show(l.N)[:100] if l.N is not None else "nothing"))
    if not c.need(s0 in l.inits and len([x for x in l.inits if x is s0]) == 1, key + ":start", "the playout does not start from the node's position"): return
    j = l.inits.index(s0); cur = l.phis[j]
    w = winner_of(cur); mv = moves_of(cur)
    over = isv(w, "Some", OPT); none = eq(length(mv), ZERO)
    for b in l.backs:
        if not (consistent(b.facts)): continue
        for f, (ov, em) in refine(b.facts, lambda ask: (True, None) if ask(over) else (False, ask(none))):
            c.count("rounds")
            if not c.need(not ov, key + ":ends", "the playout goes on although the position reached has a winner"): continue
            ev = [e for e in b.trace if not (isinstance(e, Ev) and e.name in HARMLESS)]
            if not c.need(len(ev) == 1 and isinstance(ev[0], Ev) and ev[0].name in GAME_EV, key + ":one", "one round does %s" % [str(e)[:80] for e in ev]): continue
            e = ev[0]; nx = b.nexts[j]
            c.need(e.args[0] is cur and nx.op == "post" and nx.args[0] == e.name and nx.args[2] is cur, key + ":on", "the round is played on %s" % show(e.args[0])[:100])
            if em: c.need(e.name.endswith("skip_turn"), key + ":pass", "a player without moves does not pass")
            else:
                m = e.args[1] if len(e.args) > 1 else None
                c.need(e.name.endswith("apply_move") and m.op == "p" and m.args[0] is mv and random_index(m.args[1][1], mv), key + ":move", "the move played is %s, expected a uniformly chosen legal move" % (show(m)[:140] if m is not None else "none although there are legal ones"))
    for o in r.outs:
        if o.kind == "panic": c.viol(key + ":panic", "a playout stops when %s" % where(o)); continue
        tr = [x for x in o.st.trace if not isinstance(x, LoopRec)]
        lr = [x for x in o.st.trace if isinstance(x, LoopRec)]
        c.need(not [e for e in tr if e.name not in HARMLESS], key + ":after", "something happens after the playout: %s" % [str(e)[:80] for e in tr])
        if not lr: c.need(o.val is ZERO, key + ":limit", "a playout of no rounds gives %s" % show(o.val)); continue
        def spec(ask):
            k = "exhaust" if lr[0].exhaust else "won" if ask(over) else "open"
            if k == "won": return outcome(ask, w, pl)
            if k == "open": return None
            # at the limit: a draw, or the result if the position is looked at once more
            return ZERO if o.st.facts.ev(over) is not True else outcome(ask, w, pl)
        for f, want in refine(o.st.facts, spec):
            if want is SKIP: continue
            c.count("results")
            if not c.need(want is not None, key + ":early", "the playout ends although the position reached has no winner and rounds are left"): continue
            c.need(implied_eq(o.val, want, f), key + ":result", "the result is %s, expected %s, when %s" % (show(norm(o.val, f))[:100], show(want), str(f)[:200]))

# ---------------------------------------------------------------- C16
def is_empty_move(t): return t.op == "const" and "EMPTY_MOVE" in show(t)
BACK, LEAF, EXPAND, SIM = "simple_mcts::backpropagate", "simple_mcts::select_leaf_node", "Node::expand", "Node::simulate"

def c16(c, prog):
    for pl in PLAYERS: plain_search(c, prog, pl)
    c.floor("iterations", 10); c.floor("answers", 6)

def plain_search(c, prog, pl):
    key = "mct_search"; s0 = sym("state"); cfg = sym("mcts_config")
    r = Run(c, prog, fn(prog, "simple_mcts::mct_search"), [s0, pl, cfg], opaque={BACK, LEAF, EXPAND, SIM}, pure={LEAF}, trusted=TR)
    over = isv(winner_of(s0), "Some", OPT)
    for o in tidy(r.outs):
        if o.kind == "panic":
            c.viol(key + ":panic", "a search stops when %s" % where(o)); continue
        lr = [x for x in o.st.trace if isinstance(x, LoopRec)]
        for f, fin in refine(o.st.facts, lambda ask: ask(over)):
            c.count("answers")
            if fin: c.need(not o.st.trace and is_empty_move(o.val), key + ":finished", "a finished game is searched or answered with %s" % show(o.val)[:100]); continue
            if not c.need(len(lr) == 1 and all(x is lr[0] for x in o.st.trace), key + ":loop", "the search does %s" % [str(x)[:60] for x in o.st.trace]): continue
            l = lr[0]
            iterations(c, key, l, s0, cfg, pl)
            c.need(l.exhaust, key + ":all", "the search stops before all its iterations")
            S = l.phis[store_phi(l)]; N = nodes_of(l, S)
            kids_ = field(proj(N, ("i", ZERO)), "children")
            def answer(ask): return ask(eq(length(kids_), ZERO))
            for g, none in refine(f, answer):
                if none: c.need(is_empty_move(o.val), key + ":no-answer", "a root without children is answered with %s" % show(o.val)[:100]); continue
                v = norm(o.val, g)
                if is_empty_move(v):                 # a child without a move does not occur
                    c.need(any(l2.op == "isv" and "action_taken" in show(l2) and not b for l2, b in g.d.items() if isinstance(l2, T)), key + ":answer", "the search gives no move although the root has children"); continue
                a = v
                if a.op == "p" and a.args[1] == ("f", "0"): a = a.args[0]
                if a.op == "p" and a.args[1] == ("v", "Some"): a = a.args[0]
                if not c.need(a.op == "p" and a.args[1] == ("f", "action_taken") and is_node(a.args[0]), key + ":answer", "the answer is %s" % show(v)[:160]): continue
                b = best_of(a.args[0].args[1][1])
                if c.need(b is not None and b[0] is kids_, key + ":best", "the answer is not the move of the best child of the root: %s" % show(v)[:160]):
                    n = proj(N, ("i", proj(kids_, ("i", b[2]))))
                    c.need(b[1] is field(n, "visits"), key + ":visits", "the answer maximises %s, expected the visits" % show(b[1])[:120])

def store_phi(l):
    for j, p in enumerate(l.phis):
        if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes"): return j
    for j, i in enumerate(l.inits):
        if i.op == "agg" and isinstance(i.args[0], tuple) and str(i.args[0][1]).endswith("NodeStore"): return j
    for j, i in enumerate(l.inits):
        while i.op == "with": i = i.args[0]
        if i.op == "post" and (i.args[0] in KEEPS and i.args[1] == KEEPS[i.args[0]][0] or i.args[0] in EXPANDS and i.args[1] == 1): return j
    for j in range(len(l.inits)):
        if l.locs[j][0] == ("g", "store"): return j
    raise NotFinite("the search keeps no store of nodes")
def nodes_of(l, S):
    j = store_phi(l)
    return S if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes") else field(S, "nodes")
def store_of(l, S):
    """the store as a value passed on"""
    j = store_phi(l)
    return mkstore(S) if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes") else S
def mkstore(n): return agg(("adt", STORE, "NodeStore", ("NodeStore",)), ("nodes",), (n,))

def iterations(c, key, l, s0, cfg, pl):
    c.need(l.N is field(cfg, "iterations"), key + ":count", "the number of iterations is %s, expected the configured one" % show(l.N)[:100])
    j = store_phi(l); S = l.phis[j]; St = store_of(l, S); N = nodes_of(l, S)
    init = l.inits[j]; init = field(init, "nodes") if not l.locs[j][1] or l.locs[j][1][-1] != ("f", "nodes") else init
    if c.need(init.op == "vec" and len(init.args) == 1, key + ":root", "the search starts from the nodes %s" % show(init)[:160]):
        n = init.args[0]
        node_is(c, key + ":root", n, dict(state=s0, idx=ZERO, parent=NONE, children=vec(), visits=ZERO, value=ZERO, expandable_moves=moves_of(s0)), Facts(), "the root")
    others = [i for i in range(len(l.phis)) if i != j]
    leaf = mk("call", LEAF, ZERO, St, field(cfg, "c")); settype(leaf, "usize")
    n = proj(N, ("i", leaf)); w = winner_of(field(n, "state")); mv = field(n, "expandable_moves")
    lim = field(cfg, "simulate_round_limit")
    for b in l.backs:
        f0 = rwfacts(b.facts)
        if f0 is None or not consistent(f0): continue
        tr = [x.map(rw) for x in b.trace]
        back = [e for e in tr if isinstance(e, Ev) and e.name == BACK]
        if not c.need(len(back) == 1 and tr[-1] is back[0], key + ":once", "an iteration backs up %d results" % len(back)): continue
        e = back[0]; rest = tr[:-1]
        def spec(ask):
            if ask(isv(w, "Some", OPT)): return "won", outcome(ask, w, pl)
            return ("pass" if ask(eq(length(mv), ZERO)) else "expand"), None
        for f, (kind, want) in refine(f0, spec):
            if want is SKIP: continue
            c.count("iterations")
            ix, val, who, st = e.args
            c.need(implied_eq(who, pl, f), key + ":player", "a result is backed up for %s, expected the searching player" % show(who)[:60])
            if kind == "won":
                c.need(not rest, key + ":finished-leaf", "at a finished position the search does %s" % [x.name for x in rest if isinstance(x, Ev)])
                c.need(ix is leaf and st is St, key + ":leaf", "the result is backed up from %s, expected the leaf selected" % show(ix)[:100])
                c.need(implied_eq(val, want, f), key + ":result", "a finished game counts %s, expected %s, when %s" % (show(norm(val, f))[:60], show(want), str(f)[-200:]))
            else:
                names = [x.name for x in rest if isinstance(x, Ev)]
                if kind == "pass":
                    if not c.need(names == [SIM], key + ":pass", "at a position without moves to try the search does %s" % names): continue
                    at, n2, st2 = leaf, n, St
                else:
                    if not c.need(names == [EXPAND, SIM], key + ":expand", "at a position with moves to try the search does %s" % names): continue
                    x = rest[0]
                    c.need(x.args[0] is n and x.args[1] is St, key + ":expand", "expands %s, expected the leaf selected" % show(x.args[0])[:100])
                    at = x.ret; st2 = mk("post", EXPAND, 1, *x.args); n2 = proj(field(st2, "nodes"), ("i", at))
                    if st2 is not st: c.need(st.op in ("post", "agg", "with"), key + ":store", "backs up into %s" % show(st)[:100])
                s = rest[-1]
                c.need(s.args[0] is n2, key + ":from", "the playout starts from %s, expected %s" % (show(s.args[0])[:100], "the new child" if kind == "expand" else "the leaf"))
                c.need(implied_eq(s.args[1], pl, f) and s.args[2] is lim, key + ":playout", "the playout is run for %s with limit %s" % (show(s.args[1])[:50], show(s.args[2])[:80]))
                c.need(ix is at, key + ":where", "the playout's result is backed up from %s, expected the node it was run from" % show(ix)[:100])
                c.need(implied_eq(val, s.ret, f), key + ":value", "backs up %s, expected the playout's result" % show(val)[:100])
                c.need(implied_eq(st, st2, f), key + ":store", "backs up into another store than the one searched")
            nx = rw(b.nexts[j]); post = mk("post", BACK, 3, *e.args)
            c.need(nx is post or nx is field(post, "nodes"), key + ":kept", "after an iteration the store is %s" % show(nx)[:120])
