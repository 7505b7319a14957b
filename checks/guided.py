"""Search guided by the network (C17) and the noise at its root (C22)."""
from .common import *
from .tree import (rw, rwfacts, tidy, field, node_is, moves_of, outcome, winner_of, mkstore, nodes_of, store_of, store_phi, SKIP, TR, BACK, EXPANDS, is_nodes)
from . import tree
from sa import terms as tm

PICK = "alpha_mcts::alpha_select_leaf_node"
PROBS, PROBS_T, PROBS_P = "utils::turn_policy_to_probs", "utils::turn_policy_to_probs_tensor", "utils::turn_policy_to_probs_tensor_parallel"
FWD, POL = "ResNet::forward_t", "ResNet::forward_policy"
NOISE_N, NOISE_T = "Node::apply_dirichlet", "noise::apply_dirichlet"
ANSWER = "utils::get_prob_tensor"
PURE = {PICK, PROBS, PROBS_T, PROBS_P, ANSWER}
OPAQUE = PURE | {FWD, POL, NOISE_N, NOISE_T, BACK} | set(EXPANDS)

def call(name, *a): return mk("call", name, *a)
def is_call(t, name): return t.op == "call" and t.args[0] == name
def player_of(s): return call("LearnableGame::get_player", s)
def shown(s): return call("LearnableGame::as_tensor", s)
def quiet(e): return isinstance(e, Ev) and (e.name.endswith("no_grad_guard") or e.name.startswith("drop:"))
def doing(tr): return [e for e in tr if not quiet(e)]
def names(tr): return [e.name if isinstance(e, Ev) else "loop" for e in tr]

# ---------------------------------------------------------------- tensors
def ix(v):
    """index list given as a vector of terms"""
    return list(v.args) if v.op == "vec" else None
def strip0(t, k):
    """(tensor, index) pairs that t may be read as: element k of the tensor's first dimension"""
    if t.op == "call":
        n, a = t.args[0], t.args[1:]
        if n == "Tensor::get" and a[1] is k: return a[0]
        if n == "Tensor::select" and a[1] is ZERO and a[2] is k: return a[0]
        if k is ZERO and n == "Tensor::squeeze_dim" and a[1] is ZERO: return a[0]
    return None
def is_row(t, base, k): return strip0(t, k) is base
def is_value(t, base, k):
    """the single number of row k of a batch of values"""
    if not is_call(t, "Tensor::double_value"): return False
    x, i = t.args[1], ix(t.args[2])
    if i is None: return False
    if x is base: return len(i) >= 1 and i[0] is k and all(z is ZERO for z in i[1:])
    return strip0(x, k) is base and all(z is ZERO for z in i)
def is_priors(t, pol, k, n):
    """priors of node n made from row k of the policies pol"""
    return t.op == "call" and t.args[0] in (PROBS, PROBS_T) and is_row(t.args[1], pol, k) and same_node(t.args[2], n)
def same_node(a, b):
    return a is b or all(rw(field(a, f)) is rw(field(b, f)) for f in ("state", "idx", "parent", "children", "expandable_moves"))
def is_batch(t, f):
    """the states of a list stacked into one batch; f(seq) accepts the list of their tensors"""
    if is_call(t, "Tensor::squeeze_dim") and t.args[2] is ONE and is_call(t.args[1], "Tensor::stack") and t.args[1].args[2] is ZERO: return f(t.args[1].args[1])
    if is_call(t, "Tensor::cat") and t.args[2] is ZERO: return f(t.args[1])
    if is_call(t, "Tensor::concat") and t.args[2] is ZERO: return f(t.args[1])
    return False

# ---------------------------------------------------------------- one game
def c17(c, prog):
    single(c, prog)
    many(c, prog)
    c.floor("iterations", 8); c.floor("roots", 3)

def single(c, prog):
    key = "alpha_mcts"; s0 = sym("state"); net = sym("net"); cfg = sym("mcts_config")
    r = Run(c, prog, fn(prog, "alpha_mcts::alpha_mcts"), [s0, net, cfg], opaque=OPAQUE, pure=PURE, trusted=TR)
    for o in tidy(r.outs):
        if o.kind == "panic":
            c.viol(key + ":panic", "a search stops when %s" % where(o)); continue
        tr = doing(o.st.trace)
        for f, fin in refine(o.st.facts, lambda ask: ask(isv(winner_of(s0), "Some", OPT))):
            c.count("answers")
            if fin:
                c.need(not tr and implied_eq(o.val, NONE, f), key + ":finished", "a finished game is searched (%s) or answered with %s" % (names(tr), show(o.val)[:80])); continue
            ls = [x for x in tr if isinstance(x, LoopRec)]
            if not c.need(len(ls) == 1 and tr[-1] is ls[0], key + ":loop", "the search does %s" % names(tr)): continue
            l = ls[0]
            root_of_one(c, key, tr[:-1], l, s0, net, f)
            evaluate(c, key, l, s0, net, cfg)
            j = store_phi(l); S = store_of(l, l.phis[j])
            c.need(is_call(o.val, ANSWER) and o.val.args[1] is s0 and o.val.args[2] is ZERO and rw(field(o.val.args[3], "nodes")) is rw(nodes_of(l, l.phis[j])), key + ":answer", "the search answers %s" % show(o.val)[:200])

def root_node(s): return dict(state=s, parent=NONE, children=vec(), visits=ZERO, value=ZERO, expandable_moves=moves_of(s))

def root_of_one(c, key, tr, l, s0, net, f):
    """the root is expanded once with the network's policy for the position searched"""
    c.count("roots")
    ns = [n for n in names(tr) if n != NOISE_N]
    if not c.need(len(ns) == 2 and ns[0] in (POL, FWD) and ns[1] in EXPANDS, key + ":root", "before the first iteration the search does %s" % names(tr)): return
    ev = {e.name: e for e in tr}
    q = tr[0]; x = [e for e in tr if e.name in EXPANDS][0]
    c.need(q.args[0] is net and q.args[1] is shown(s0), key + ":root-policy", "the root's policy is asked for %s" % show(q.args[1])[:120])
    pol = q.ret if q.name == POL else proj(q.ret, ("f", "0"))
    n, S, pr = x.args
    node_is(c, key + ":root-node", n, dict(root_node(s0), idx=ZERO), f, "the root")
    c.need(is_priors(pr, pol, ZERO, n), key + ":root-priors", "the root is expanded with %s" % show(pr)[:160])
    N = field(S, "nodes")
    if c.need(N.op == "vec" and len(N.args) == 1, key + ":root-store", "the root is expanded in %s" % show(S)[:120]): node_is(c, key + ":root-node", N.args[0], dict(root_node(s0), idx=ZERO), f, "the root")
    # the tree searched is the one after the expansion (and noise)
    j = store_phi(l); init = l.inits[j]
    init = init if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes") else field(init, "nodes")
    e = tree.Effect(init)
    post = mk("post", x.name, 1, *x.args)
    noise = [y for y in tr if y.name == NOISE_N]
    base = field(post, "nodes")
    if noise:
        a = noise[0].args
        before = tree.Effect(field(a[3], "nodes"))     # the root may be stored again, with its visits set, before the noise
        c.need(len(noise) == 1 and rw(before.base) is rw(base) and not before.added, key + ":root-noise", "noise is added %d times, to %s" % (len(noise), show(a[3])[:100]))
        for i, w in before.over.items(): same_but_visits(c, key, x, i, w)
        base = field(mk("post", NOISE_N, 3, *a), "nodes")
    c.need(rw(e.base) is rw(base) and not e.added, key + ":searched", "the tree searched is %s" % show(init)[:160])
    for i, w in e.over.items(): same_but_visits(c, key, x, i, w)

def same_but_visits(c, key, x, i, w):
    """what is stored over node i after the expansion x is the expanded root, but for its visits"""
    c.need(rw(i) is ZERO and all(rw(field(w, g)) is rw(field(mk("post", x.name, 0, *x.args), g)) for g in tree.FIELDS if g != "visits"), key + ":searched", "before the search node %s becomes %s" % (show(i)[:40], show(w)[:100]))

def evaluate(c, key, l, s0, net, cfg):
    c.need(l.N is field(cfg, "iterations"), key + ":count", "the number of iterations is %s, expected the configured one" % show(l.N)[:100])
    c.need(l.exhaust, key + ":all", "the search stops before all its iterations")
    j = store_phi(l); S = l.phis[j]; St = store_of(l, S); N = nodes_of(l, S)
    leaf = call(PICK, ZERO, St, field(cfg, "c")); settype(leaf, "usize")
    n = proj(N, ("i", leaf)); w = winner_of(field(n, "state"))
    for b in l.backs:
        f0 = rwfacts(b.facts)
        if f0 is None or not consistent(f0): continue
        tr = [x.map(rw) for x in doing(b.trace)]
        one_tree(c, key, tr, f0, leaf, n, St, w, s0, net, lambda st, b=b: rw(b.nexts[j]) in (st, field(st, "nodes")))

def result_for(ask, w, who):
    for pl in tree.PLAYERS:
        if ask(eq(who, pl)): return outcome(ask, w, pl)
    return SKIP                                  # players are 1 or -1

def one_tree(c, key, tr, f0, leaf, n, St, w, s0, net, kept):
    back = [e for e in tr if isinstance(e, Ev) and e.name == BACK]
    if not c.need(len(back) == 1 and tr[-1] is back[0], key + ":once", "an iteration backs up %d results: %s" % (len(back), names(tr))): return
    at, val, who, st = back[0].args; rest = tr[:-1]
    rp = player_of(s0)
    def spec(ask):
        if not ask(isv(w, "Some", OPT)): return "goes on", None
        # the winner from the view of the player the result is given for
        return "won", result_for(ask, w, who)
    for f, (kind, want) in refine(f0, spec):
        if want is SKIP or not consistent(f): continue
        c.count("iterations")
        c.need(at is leaf, key + ":leaf", "the result is backed up from %s, expected the leaf selected" % show(at)[:120])
        if kind == "won":
            c.need(not rest, key + ":finished-leaf", "at a finished position the search does %s" % names(rest))
            c.need(who in (rp, player_of(field(n, "state"))), key + ":player", "the result is given for %s" % show(who)[:100])
            c.need(st is St, key + ":store", "backs up into another tree: %s" % show(st)[:100])
            c.need(implied_eq(val, want, f), key + ":result", "a finished game counts %s, expected %s, when %s" % (show(norm(val, f))[:60], show(want), str(f)[-200:]))
        else:
            ns = names(rest)
            if not c.need(len(ns) == 2 and ns[0] == FWD and ns[1] in EXPANDS, key + ":evaluate", "at a position where the game goes on the search does %s" % ns): continue
            q, x = rest
            c.need(q.args[0] is net and q.args[1] is shown(field(n, "state")), key + ":asked", "the network is asked about %s, expected the leaf's position" % show(q.args[1])[:120])
            pol, ev = proj(q.ret, ("f", "0")), proj(q.ret, ("f", "1"))
            c.need(same_node(x.args[0], n) and x.args[1] is St, key + ":expand", "expands %s, expected the leaf selected" % show(x.args[0])[:120])
            c.need(is_priors(x.args[2], pol, ZERO, n), key + ":priors", "the leaf is expanded with %s" % show(x.args[2])[:160])
            c.need(st is mk("post", x.name, 1, *x.args), key + ":store", "backs up into %s, expected the tree with the leaf expanded" % show(st)[:100])
            c.need(is_value(val, ev, ZERO), key + ":value", "backs up %s, expected the network's value" % show(val)[:120])
            c.need(who is player_of(field(n, "state")), key + ":mover", "the network's value is taken as that of %s, expected the leaf's mover" % show(who)[:120])
        c.need(kept(mk("post", BACK, 3, *back[0].args)), key + ":kept", "the tree after an iteration is not the one the result was backed up in")

# ---------------------------------------------------------------- many games at once
def place(n): s = sym(n, "usize"); return s
def at(seq, k): return rw(proj(seq, ("i", k)))
def many_rows(c, prog):
    key = "alpha_mcts_parallel"
    S0 = mkstore(vec())
    r = Run(c, prog, fn(prog, "alpha_mcts::alpha_mcts_parallel"), [mutref("store"), sym("states"), sym("net"), sym("mcts_config"), sym("pb")],
            mem={("g", "store"): S0}, opaque=OPAQUE, pure=PURE, trusted=TR)
    return key, sym("states"), sym("net"), sym("mcts_config"), tidy(r.outs), r

def store_index(l): return store_phi(l)
def tree_of(l, j=None):
    j = store_phi(l) if j is None else j
    return store_of(l, l.phis[j]), nodes_of(l, l.phis[j])
def init_nodes(l):
    j = store_phi(l); i = l.inits[j]
    return i if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes") else field(i, "nodes")
def next_nodes(l, b):
    j = store_phi(l); i = b.nexts[j]
    return rw(i if l.locs[j][1] and l.locs[j][1][-1] == ("f", "nodes") else field(i, "nodes"))

def many(c, prog):
    key, states, net, cfg, outs, r = many_rows(c, prog)
    for o in outs:
        if o.kind == "panic":
            c.viol(key + ":panic", "a search stops when %s" % where(o)); continue
        tr = doing(o.st.trace)
        loops = [x for x in tr if isinstance(x, LoopRec)]
        if not c.need(len(loops) == 2 and tr[-2] is loops[0] and tr[-1] is loops[1], key + ":shape", "the search does %s" % names(tr)): continue
        R, I = loops
        pol = many_roots(c, key, tr[:-2], R, states, net)
        if pol is None: continue
        St, N = tree_of(I)
        c.need(rw(init_nodes(I)) is rw(tree_of(R)[1]), key + ":searched", "the trees searched are not the ones just made")
        c.need(I.N is field(cfg, "iterations") and I.exhaust, key + ":count", "the number of iterations is %s, expected the configured one" % show(I.N)[:100])
        c.need(rw(field(o.st.mem[("g", "store")], "nodes")) is rw(N), key + ":result", "the trees left behind are not the ones searched")
        for b in I.backs:
            f0 = rwfacts(b.facts)
            if f0 is None or not consistent(f0): continue
            many_iteration(c, key, I, b, f0, states, net, cfg)

def many_roots(c, key, tr, R, states, net):
    """every position gets its own root, expanded once with the policy for that position"""
    c.count("roots")
    ns = names(tr)
    if not c.need(len([n for n in ns if n in (POL, FWD)]) == 1 and all(n in (POL, FWD, NOISE_T) for n in ns), key + ":root", "before the roots are expanded the search does %s" % ns): return None
    q = tr[0]; pol = q.ret if q.name == POL else proj(q.ret, ("f", "0"))
    c.need(q.args[0] is net and is_batch(q.args[1], lambda s: rw(length(s)) is length(states) and at(s, place("b")) is shown(proj(states, ("i", place("b"))))), key + ":root-policy", "the roots' policies are asked for %s" % show(q.args[1])[:160])
    for z in tr[1:]:
        if c.need(z.name == NOISE_T and z.args[0] is pol, key + ":root-noise", "noise is added to %s" % show(z.args[0])[:100]): pol = z.ret
    k = R.k; I0 = init_nodes(R)
    c.need(R.N is length(states) and R.exhaust and rw(length(I0)) is length(states), key + ":root-all", "roots are made for %s and expanded for %s" % (show(length(I0))[:80], show(R.N)[:80]))
    b = place("b")
    node_is(c, key + ":root-node", at(I0, b), dict(root_node(proj(states, ("i", b))), idx=b), Facts(), "the root of position b")
    St, N = tree_of(R); n = proj(N, ("i", k))
    for bk in R.backs:
        f = rwfacts(bk.facts)
        if f is None or not consistent(f): continue
        t2 = [x.map(rw) for x in doing(bk.trace)]
        if not c.need(len(t2) == 1 and names(t2)[0] in EXPANDS, key + ":root-expand", "to expand a root the search does %s" % names(t2)): continue
        x = t2[0]
        c.need(same_node(x.args[0], n) and x.args[1] is St, key + ":root-expand", "expands %s, expected root k" % show(x.args[0])[:120])
        p = x.args[2]
        okk = is_priors(p, pol, k, n)
        g = strip0(p, k)
        if g is not None and is_call(g, PROBS_P):
            s, ids, po = g.args[1:]
            okk = po is pol and rw(length(ids)) is length(states) and at(ids, b) is b and (rw(field(s, "nodes")) is rw(I0))
        c.need(okk, key + ":root-priors", "root k is expanded with %s" % show(p)[:200])
        c.need(next_nodes(R, bk) is rw(field(mk("post", x.name, 1, *x.args), "nodes")), key + ":root-kept", "the tree is not the one the root was expanded in")
    return pol

LEAFNO = "leaf#"
def many_iteration(c, key, I, b, f0, states, net, cfg):
    tr = [x.map(rw) for x in doing(b.trace)]
    loops = [x for x in tr if isinstance(x, LoopRec)]
    if not c.need(loops and tr[0] is loops[0], key + ":select", "an iteration does %s" % names(tr)): return
    A = loops[0]
    St, N = tree_of(A); js = store_phi(A)
    c.need(rw(init_nodes(A)) is rw(tree_of(I)[1]), key + ":select", "leaves are selected in another tree")
    c.need(A.N is length(states) and A.exhaust, key + ":every-tree", "leaves are selected for %s trees" % show(A.N)[:80])
    leaf = call(PICK, A.k, St, field(cfg, "c")); settype(leaf, "usize")
    n = proj(N, ("i", leaf)); w = winner_of(field(n, "state")); root = proj(N, ("i", A.k))
    others = [i for i in range(len(A.phis)) if i != js]
    pushed = {}; ways = []
    for bk in A.backs:
        f1 = rwfacts(bk.facts)
        if f1 is None or not consistent(f1): continue
        t1 = [x.map(rw) for x in doing(bk.trace)]
        def spec(ask):
            if not ask(isv(w, "Some", OPT)): return "goes on", None
            back = [e for e in t1 if isinstance(e, Ev) and e.name == BACK]
            return "won", (result_for(ask, w, back[0].args[2]) if len(back) == 1 else None)
        for f, (kind, want) in refine(f1, spec):
            if want is SKIP or not consistent(f): continue
            c.count("iterations")
            nx = [rw(x) for x in bk.nexts]
            if kind == "won":
                if not c.need(names(t1) == [BACK], key + ":finished", "at a finished position the search does %s" % names(t1)): continue
                ix_, val, who, st = t1[0].args
                c.need(ix_ is leaf and st is St, key + ":leaf", "the result is backed up from %s" % show(ix_)[:120])
                c.need(who in (player_of(field(root, "state")), player_of(proj(states, ("i", A.k))), player_of(field(n, "state"))), key + ":player", "the result is given for %s" % show(who)[:120])
                c.need(implied_eq(val, want, f), key + ":outcome", "a finished game counts %s, expected %s, when %s" % (show(norm(val, f))[:60], show(want), str(f)[-200:]))
                c.need(next_nodes(A, bk) is rw(field(mk("post", BACK, 3, *t1[0].args), "nodes")), key + ":kept", "the tree is not the one the result was backed up in")
                for i in others: c.need(nx[i] is A.phis[i], key + ":not-evaluated", "a finished position joins the ones to be evaluated: %s" % show(nx[i])[:120])
            else:
                put = set(); ways.append(put)
                c.need(not t1 and next_nodes(A, bk) is rw(N), key + ":wait", "before it is evaluated a leaf is treated by %s" % names(t1))
                for i in others:
                    x = nx[i]
                    if x is A.phis[i]: continue
                    if c.need(x.op == "ext" and x.args[0] is A.phis[i] and len(x.args[1]) == 1, key + ":collected", "a leaf to be evaluated changes a list to %s" % show(x)[:120]):
                        pushed.setdefault(i, []).append(x.args[1][0]); put.add(i)
    lists = {}
    for i, xs in pushed.items():
        if all(x is leaf for x in xs): lists[i] = "idx"
        elif all(x is shown(field(n, "state")) for x in xs): lists[i] = "tensor"
        elif all(same_node(x, n) for x in xs): lists[i] = "node"
        elif all(x is field(n, "state") for x in xs): lists[i] = "state"
        else: c.viol(key + ":collected", "collects %s, expected the leaf" % show(xs[0])[:160]); return
        ini = rw(A.inits[i])
        c.need(length(ini) is ZERO, key + ":cleared", "the leaves of an iteration are added to those of earlier ones: %s" % show(ini)[:100])
    if not c.need(any(k in ("idx", "node") for k in lists.values()), key + ":collected", "the leaves to be evaluated are not collected"): return
    for put in ways: c.need(put == set(lists), key + ":collected", "in some cases the leaf of a game that goes on is not collected to be evaluated")
    first = [i for i, k in lists.items() if k in ("idx", "node")][0]; L = A.phis[first]
    memo = {}
    def res(t):
        """elements of the collected lists as the leaf numbers they stand for"""
        if not isinstance(t, T):
            return tuple(res(x) for x in t) if isinstance(t, tuple) else t
        r = memo.get(t)
        if r is None:
            na = tuple(res(x) for x in t.args); r = t if na == t.args else tm.rebuild(t.op, na)
            if r.op == "p" and r.args[1][0] == "i":
                for i, k in lists.items():
                    if r.args[0] is A.phis[i]:
                        z = call(LEAFNO, r.args[1][1]); settype(z, "usize"); nd = proj(N, ("i", z))
                        r = {"idx": z, "node": nd, "state": field(nd, "state"), "tensor": shown(field(nd, "state"))}[k]
            if r.op == "len" and any(r.args[0] is A.phis[i] for i in lists): r = length(L)
            r = rw(r); memo[t] = r
        return r
    for f, none in refine(f0, lambda ask: ask(eq(length(L), ZERO))):
        c.count("iterations")
        rest = tr[1:]
        if none:
            bloops = [x for x in rest if isinstance(x, LoopRec)]
            c.need(not rest, key + ":nothing-left", "with no leaf to be evaluated the search does %s" % names(rest))
            c.need(next_nodes(I, b) is rw(N), key + ":kept", "the tree is lost when no leaf is to be evaluated"); continue
        if not c.need(len(rest) == 2 and names(rest) == [FWD, "loop"], key + ":evaluate", "to evaluate the leaves the search does %s" % names(rest)): continue
        q, B = rest
        leafno = lambda x: (lambda z: (settype(z, "usize"), z)[1])(call(LEAFNO, x))
        bb = place("b")
        c.need(q.args[0] is net and is_batch(q.args[1], lambda s: res(length(s)) is length(L) and res(at(s, bb)) is shown(field(proj(N, ("i", leafno(bb))), "state"))), key + ":asked", "the network is asked about %s, expected the leaves collected" % show(q.args[1])[:200])
        pol, ev = res(proj(q.ret, ("f", "0"))), res(proj(q.ret, ("f", "1")))
        StB, NB = tree_of(B); k = B.k; nb = proj(NB, ("i", leafno(k)))
        c.need(rw(init_nodes(B)) is rw(N), key + ":evaluated", "the leaves are expanded in another tree")
        c.need(res(B.N) is length(L) and B.exhaust, key + ":every-leaf", "%s leaves are backed up, expected all" % show(B.N)[:80])
        for bk in B.backs:
            f2 = rwfacts(bk.facts)
            if f2 is None or not consistent(f2): continue
            t2 = [e.map(rw).map(res) for e in doing(bk.trace)]
            if not c.need(len(t2) == 2 and names(t2)[0] in EXPANDS and names(t2)[1] == BACK, key + ":one-result", "for a leaf evaluated the search does %s" % names(t2)): continue
            x, e = t2
            okn = same_node(x.args[0], nb) or same_node(x.args[0], proj(N, ("i", leafno(k))))
            c.need(okn and x.args[1] is res(StB), key + ":expand", "expands %s, expected the leaf evaluated" % show(x.args[0])[:160])
            c.need(is_priors(x.args[2], pol, k, x.args[0]), key + ":priors", "the leaf is expanded with %s" % show(x.args[2])[:240])
            ix_, val, who, st = e.args
            c.need(ix_ is leafno(k), key + ":leaf", "the value is backed up from %s" % show(ix_)[:120])
            c.need(is_value(val, ev, k), key + ":value", "backs up %s, expected the network's value for the leaf" % show(val)[:160])
            c.need(who in (player_of(field(nb, "state")), player_of(field(proj(N, ("i", leafno(k))), "state"))), key + ":mover", "the network's value is taken as that of %s, expected the leaf's mover" % show(who)[:120])
            c.need(st is mk("post", x.name, 1, *x.args), key + ":store", "backs up into %s, expected the tree with the leaf expanded" % show(st)[:100])
            c.need(res(next_nodes(B, bk)) is rw(field(mk("post", BACK, 3, *e.args), "nodes")), key + ":kept", "the tree is not the one the value was backed up in")
        c.need(next_nodes(I, b) is rw(NB), key + ":kept", "the tree after an iteration is not the one its results were backed up in")

# ---------------------------------------------------------------- noise (C22)
def mixture(t):
    """a tensor expression made of sums and products with numbers, as one polynomial over its tensors"""
    if t.op == "call":
        n, a = t.args[0], t.args[1:]
        if n in ("Tensor::add", "Tensor::g_add", "Tensor::f_add"): return add(mixture(a[0]), mixture(a[1]))
        if n in ("Tensor::sub", "Tensor::g_sub"): return sub(mixture(a[0]), mixture(a[1]))
        if n in ("Tensor::mul", "Tensor::multiply", "Tensor::g_mul", "Tensor::g_mul_scalar", "Tensor::multiply_scalar", "Tensor::mul_scalar"): return mul(mixture(a[0]), mixture(a[1]))
        if n in ("Tensor::add_scalar", "Tensor::g_add_scalar"): return add(mixture(a[0]), mixture(a[1]))
        if n == "Tensor::neg": return neg(mixture(a[0]))
        if n == "Tensor::unsqueeze" and a[1] is ZERO or n in ("Tensor::to_kind", "Tensor::from_slice", "Tensor::expand_as"): return mixture(a[0])
    return t
def sample_of(t, alpha, n):
    """t is a Dirichlet sample of n parts with concentration alpha"""
    if not is_call(t, "Distribution::sample"): return False
    d = t.args[1]
    while d.op == "p": d = d.args[0]
    if not is_call(d, "Dirichlet::new"): return False
    v = d.args[1]
    b = sym("b", "usize")
    return length(v) is n and proj(v, ("i", b)) is alpha
def samples(t): return list(dict.fromkeys(x for x in subterms(t) if is_call(x, "Distribution::sample")))

def c22(c, prog):
    # the noise added to a whole batch of policies
    t, al, ep = sym("tensor"), sym("alpha"), sym("eps")
    r = Run(c, prog, fn(prog, NOISE_T), [t, al, ep])
    for o in r.rets:
        c.count("mixtures")
        ss = samples(o.val)
        if not c.need(len(ss) == 1, "tensor:sample", "the noise has %d random parts" % len(ss)): continue
        width = [x for x in subterms(ss[0]) if is_call(x, "Tensor::size")]
        n = proj(call("Tensor::size", t), ("i", ONE))
        c.need(any(sample_of(ss[0], al, m) for m in (n, proj(call("Tensor::size", t), ("i", num(-1))), proj(proj(proj(call("Tensor::size2", t), ("v", "Ok")), ("f", "0")), ("f", "1")))), "tensor:dirichlet", "the noise is %s, expected one part per action with the given concentration" % show(ss[0])[:200])
        c.need(mixture(o.val) is add(mul(sub(ONE, ep), t), mul(ep, ss[0])), "tensor:mix", "the noisy policies are %s" % show(o.val)[:300])
    # the noise added to the children of one node
    nd = sym("node"); S = sym("store"); N = field(S, "nodes"); kids_ = field(nd, "children")
    r = Run(c, prog, fn(prog, NOISE_N), [nd, al, ep, mutref("store")], mem={("g", "store"): S}, trusted=TR)
    for o in r.rets:
        c.count("mixtures")
        V = rw(field(o.st.mem[("g", "store")], "nodes"))
        u = unfold(V)
        if not c.need(u is not None, "node:effect", "the nodes become %s" % show(V)[:200]): continue
        cnt, inits, body, bv, _, phs = u
        if not c.need(len(body) == 1 and len(inits) == 1 and inits[0] is N and not body[0][0], "node:effect", "the nodes become %s" % show(V)[:200]): continue
        ph = phs[0]; ci = proj(kids_, ("i", bv)); new = body[0][1][0] if isinstance(body[0][1], tuple) else body[0][1]
        W = field(sym("tree"), "nodes"); new = rw(subst(new, {ph: W})); ph = W   # the nodes so far
        old = proj(ph, ("i", ci))
        if not c.need(new.op == "with" and new.args[0] is ph and new.args[1] == ("i", ci), "node:children", "noise changes %s, expected exactly the children of the node" % show(new)[:200]): continue
        ss = samples(new)
        if not c.need(len(ss) == 1 and sample_of(ss[0], al, length(kids_)), "node:dirichlet", "the noise is %s, expected one part per child with the given concentration" % [show(x)[:150] for x in ss]): continue
        c.need(norm(cnt, o.st.facts) is length(kids_) or cnt is mk("min", length(kids_), length(kids_)), "node:all", "%s children get noise, expected all" % show(cnt)[:120])
        for g in tree.FIELDS:
            want = field(old, g)
            if g == "policy": want = add(mul(sub(ONE, ep), want), mul(ep, proj(ss[0], ("i", bv))))
            c.need(implied_eq(field(new.args[2], g), want, o.st.facts), "node:mix:" + g, "%s of a child becomes %s, expected %s" % (g, show(field(new.args[2], g))[:160], show(want)[:160]))
    c.floor("mixtures", 2)
    placed(c, prog)

def placed(c, prog):
    cfg = sym("mcts_config"); al, ep = field(cfg, "dirichlet_alpha"), field(cfg, "dirichlet_epsilon")
    known = set()
    r = Run(c, prog, fn(prog, "alpha_mcts::alpha_mcts"), [sym("state"), sym("net"), cfg], opaque=OPAQUE, pure=PURE, trusted=TR)
    known |= set(r.e.analysed)
    for o in tidy(r.outs):
        if o.kind != "ret": continue
        tr = doing(o.st.trace)
        inside = [e for e, ls in flatten(o.st.trace) if ls and e.name in (NOISE_N, NOISE_T)]
        c.need(not inside, "alpha_mcts:once", "noise is added in every iteration")
        exps = [e for e in tr if isinstance(e, Ev) and e.name in EXPANDS]
        if not any(isinstance(x, LoopRec) for x in tr): continue
        noise = [e for e in tr if isinstance(e, Ev) and e.name in (NOISE_N, NOISE_T)]
        if not c.need(len(exps) == 1, "alpha_mcts:root", "the root is expanded %d times" % len(exps)): continue
        x = exps[0]; root = mk("post", x.name, 0, *x.args); n = length(field(root, "children"))
        for f, few in refine(o.st.facts, lambda ask: ask(le(n, ONE))):
            c.count("searches")
            if not noise:
                whole = [e for e in tr if isinstance(e, Ev) and e.name == NOISE_T]
                c.need(few, "alpha_mcts:missing", "no noise is added at the root although it has several children"); continue
            if not c.need(len(noise) == 1 and not few or len(noise) == 1 and noise[0].name == NOISE_T, "alpha_mcts:once", "noise is added %d times (%s children)" % (len(noise), "one or no" if few else "several")): continue
            e = noise[0]
            if e.name == NOISE_T:
                c.need(is_call(e.args[0], POL) and e.args[1] is al and e.args[2] is ep, "alpha_mcts:noise", "noise is added as %s" % show(e.ret)[:160]); continue
            c.need(same_root(e.args[0], root) and e.args[1] is al and e.args[2] is ep, "alpha_mcts:noise", "noise is added to the children of %s with %s, %s; expected the root and the configured values" % (show(e.args[0])[:80], show(e.args[1])[:60], show(e.args[2])[:60]))
            v = field(e.args[0], "visits")
            c.need(f.entails(le(v, ZERO), False) if hasattr(f, "entails") else v.op == "num" and v.args[0] > 0, "alpha_mcts:visits", "noise stops the search: the root has %s visits" % show(v)[:60])
    key, states, net, cfg, outs, r = many_rows(c, prog); known |= set(r.e.analysed)
    for o in outs:
        if o.kind != "ret": continue
        c.count("searches")
        tr = doing(o.st.trace)
        inside = [e for e, ls in flatten(o.st.trace) if ls and e.name in (NOISE_N, NOISE_T)]
        noise = [e for e in tr if isinstance(e, Ev) and e.name == NOISE_T]
        if not c.need(len(noise) == 1 and not inside, key + ":once", "noise is added %d times before and %d times in the iterations" % (len(noise), len(inside))): continue
        e = noise[0]
        c.need((is_call(e.args[0], POL) or e.args[0].op == "p") and e.args[1] is al and e.args[2] is ep, key + ":noise", "noise is added as %s" % show(e.ret)[:160])
    c.floor("searches", 3)
    ok = {"alpha_mcts::alpha_mcts", "alpha_mcts::alpha_mcts_parallel"} | known
    for nm in (NOISE_N, NOISE_T):
        for b in prog.callers(nm):
            c.count("call_sites")
            c.need(b.name in ok or "test" in b.path, "elsewhere:" + b.name, "%s adds noise outside the start of a search" % b.name)
def same_root(a, b): return all(rw(field(a, f)) is rw(field(b, f)) for f in ("idx", "children"))
