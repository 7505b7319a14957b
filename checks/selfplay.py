"""Self-play (C23, C24, C25): one round of a game, sequential and batched, compared with the reference; what is kept, delivered and when."""
from .common import *
from .tree import rw, tidy, field, winner_of, moves_of, HARMLESS, TR
from sa import terms as tm
import itertools
from sa.engine import COMP_HOOKS, mkcomp

SEARCH, MANY, PROBS, PICK = "alpha_mcts::alpha_mcts", "alpha_mcts::alpha_mcts_parallel", "utils::get_prob_tensor_parallel", "AlphaZero::weighted_select_tensor_idx"
OPQ = {SEARCH, MANY, PROBS, PICK}
APPLY, SKIP_T, ROLL = "LearnableGame::apply_move", "LearnableGame::skip_turn", "LearnableGame::roll_die"
QUIET = ("ProgressBar::", "MultiProgress::", "io::_print", "println", "print", "Instant::", "LearnableGame::to_pretty_str")
def quiet(e): return e.name in HARMLESS or any(e.name.startswith(q) for q in QUIET) or e.name in (PICK, SEARCH, PROBS)
def inplace(e): return e.name.startswith("Tensor::") and e.name.endswith("_") and e.name != "Tensor::to_device_"
def some0(t): return proj(proj(t, ("v", "Some")), ("f", "0"))
def call(n, *a): return mk("call", n, *a)
def is_call(t, n): return t.op == "call" and t.args[0] == n

def roots_rule(n, alts, b):
    """after a search of g games the nodes without a parent are the first g (C17): the list of roots is the first g nodes"""
    if n.op != "len" or len(alts) != 1 or len(alts[0][1]) != 1 or len(alts[0][0]) != 1: return None
    ns = n.args[0]
    if ns.op != "p" or ns.args[1] != ("f", "nodes") or ns.args[0].op != "post" or ns.args[0].args[0] != MANY: return None
    x = proj(ns, ("i", b))
    if alts[0][1][0] != ("e", x) or alts[0][0][0] is not bnot(isv(field(x, "parent"), "Some", OPT)): return None
    return mkcomp(length(ns.args[0].args[3]), [((), (("e", x),))], b)
COMP_HOOKS.append(roots_rule)

class Spec:
    """one property's view: obligations of other properties are evaluated but not reported"""
    def __init__(self, c, part): self.c = c; self.part = part
    def need(self, part, cond, key, msg):
        if part != self.part: return cond
        return self.c.need(cond, key, msg)
    def gate(self, part, cond, key, msg):
        """what follows can only be judged where this holds, whichever property it belongs to"""
        return self.c.need(cond, key, msg if part == self.part else "not judged, because " + msg)

# ---------------------------------------------------------------- what the parts are
def temperature_ok(w, pi, temp):
    """w is pi ** (1/T)"""
    return (w.op == "call" and w.args[0] in ("Tensor::pow_tensor_scalar", "Tensor::g_pow_tensor_scalar", "Tensor::pow") and w.args[1] is pi and w.args[2] is fdiv(ONE, temp))

def row_of(t):
    """(matrix, row) of matrix.get(row)"""
    if t.op == "call" and t.args[0] == "Tensor::get": return t.args[1], t.args[2]
    if t.op == "call" and t.args[0] == "Tensor::select" and t.args[2] is ZERO: return t.args[1], t.args[3]
    return None

def chosen(m, S, pis, temp):
    """is m the move decoded in S from a weighted pick of one of the policies, raised to 1/T"""
    if not is_call(m, "LearnableGame::decode") or m.args[1] is not S: return "the move played is %s" % show(m)[:160]
    p = m.args[2]
    if not is_call(p, PICK): return "the code played is %s" % show(p)[:160]
    w = p.args[1]
    for pi in pis:
        if temperature_ok(w, pi, temp): return None
        r, q = row_of(w), row_of(pi)
        if r and q and r[1] is q[1] and temperature_ok(r[0], q[0], temp): return None
    return "the move is drawn from %s" % show(w)[:200]

def result_ok(out, player, w):
    """out is +1 / -1 / 0 for the player, by the winner, for every player and every winner"""
    for p, x in itertools.product((1, -1), (1, -1, 0)):
        v = rw(subst(out, {player: num(p), w: num(x)}))
        want = 1 if x == p else -1 if x == -p else 0
        if v is not num(want): return "a %s for the player to move is recorded as %s" % ({1: "win", -1: "loss", 0: "draw"}[want], show(v)[:80])
    return None

def mem_parts(v, base):
    """how v extends the list base: list of ('e', element) / ('s', comprehension)"""
    if v is base: return []
    if v.op == "ext": 
        r = mem_parts(v.args[0], base); return None if r is None else r + [("e", x) for x in v.args[1]]
    if v.op == "cat":
        r = mem_parts(v.args[0], base); return None if r is None else r + [("s", x) for x in v.args[1:]]
    return None

def delivered(L, kept, rec):
    """the sample made from a record by the list L over kept; None if it is no such list"""
    if L is kept: return rec
    if L.op == "comp":
        n, alts, b = L.args
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "e" and n is length(kept):
            x = subst(alts[0][1][0][1], {proj(kept, ("i", b)): rec})
            return None if mentions(x, lambda z: z is b) else rw(x)
    return None

class Sample:
    def __init__(self, t):
        self.outcome, self.ps, self.state = (proj(t, ("f", f)) for f in ("outcome", "ps", "state"))

# ---------------------------------------------------------------- one game after the other
def sequential(sp, prog):
    c = sp.c; me = sym("self"); key = "self_play"
    model, conf, temp = field(me, "model"), field(me, "mcts_config"), field(field(me, "config"), "temperature")
    r = Run(c, prog, fn(prog, "AlphaZero::self_play"), [me], opaque=OPQ, pure={PICK, SEARCH}, trusted=TR)
    recs = set(); ends = []
    for o in r.outs:
        loops = [x for x in o.st.trace if isinstance(x, LoopRec)]
        if not sp.gate("C23", len(loops) == 1, key + ":loop", "a game is played by %d loops" % len(loops)): continue
        l = loops[0]
        if o.kind == "panic": sp.need("C24", False, key + ":panic", "self-play stops when %s" % where(o)); continue
        before = [e for e in o.st.trace[:o.st.trace.index(l)] if not quiet(e)]
        after = [e for e in o.st.trace[o.st.trace.index(l) + 1:] if isinstance(e, Ev)]
        # the position and the record
        js = [j for j, x in enumerate(l.inits) if mentions(x, lambda z: is_call(z, "LearnableGame::new"))]
        ms = [j for j, x in enumerate(l.inits) if x.op == "vec" and not x.args]
        if not sp.gate("C23", len(js) == 1 and len(ms) == 1, key + ":state", "a game keeps %d positions and %d records" % (len(js), len(ms))): continue
        S, M = l.phis[js[0]], l.phis[ms[0]]
        new = call("LearnableGame::new"); ini = l.inits[js[0]]
        det = o.st.facts.ev(det_const(o.st.facts)) if det_const(o.st.facts) is not None else None
        sp.need("C25", (ini is new and det is True and not before) or (det is False and [e.name for e in before] == [ROLL] and ini.op == "post" and ini.args[0].endswith("roll_die") and ini.args[2] is new), key + ":start", "a game starts from %s (deterministic: %s)" % (show(ini)[:100], det))
        for b in l.backs:
            if consistent(b.facts): step(sp, key, prog, b.facts, b.trace, S, b.nexts[js[0]], M, b.nexts[ms[0]], model, conf, temp, recs, False)
        g = step(sp, key, prog, o.st.facts, tuple(after), S, None, M, None, model, conf, temp, recs, True)
        if g: ends.append((o, S, M, g))
    for o, S, M, (PI, S2) in ends:
        if not sp.gate("C23", len(recs) == 1, key + ":records", "%d different kinds of records are kept" % len(recs)): break
        then = subst(subst(next(iter(recs)), {sym("policy now"): sym("policy then")}), {sym("now"): sym("then")})
        last = subst(subst(next(iter(recs)), {sym("policy now"): PI}), {sym("now"): S})
        sample(sp, key, o.val, push(M, last), then, winner_of(S2))
    c.floor("rounds", 3)

def det_const(f):
    for l in f.d:
        if isinstance(l, T) and l.op == "const" and "IS_DETERMINISTIC" in show(l): return l
    return None

def step(sp, key, prog, facts, trace, S, S2, M, M2, model, conf, temp, recs, last):
    """one round of one game, as a path of the loop"""
    c = sp.c; c.count("rounds")
    ev = [e for e in trace if isinstance(e, Ev) and not quiet(e)]
    sp.need("C23", not any(isinstance(e, LoopRec) for e in trace), key + ":inner", "a round contains a loop with effects")
    pi = call(SEARCH, S, model, conf); PI = some0(pi)
    for e in ev: sp.need("C23", not inplace(e), key + ":inplace", "%s changes a tensor that is kept" % e)
    ev = [e for e in ev if not inplace(e)]
    found = facts.ev(isv(pi, "Some", OPT))
    if not sp.gate("C25", found is not None, key + ":search", "a round that does not look at the answer of a search of the current position"): return None
    if not found:
        sp.need("C25", len(ev) == 1 and ev[0].name == SKIP_T and ev[0].args[0] is S and not last, key + ":pass", "a game without a move does %s" % [str(e)[:80] for e in ev])
        if S2 is not None:
            sp.need("C25", S2.op == "post" and S2.args[0].endswith("skip_turn") and S2.args[2] is S, key + ":pass", "after a pass the position is %s" % show(S2)[:120])
            sp.need("C23", M2 is M, key + ":pass:record", "a pass is recorded")
        return None
    if not sp.gate("C25", len(ev) == 1 and ev[0].name == APPLY and ev[0].args[0] is S, key + ":move", "a round does %s" % [str(e)[:100] for e in ev]): return None
    m = ev[0].args[1]; e = chosen(m, S, [PI], temp)
    sp.need("C25", e is None, key + ":choice", e)
    nxt = S2 if S2 is not None else None
    if S2 is not None:
        sp.need("C25", S2.op == "post" and S2.args[0].endswith("apply_move") and S2.args[2:] == (S, m), key + ":played", "after the move the position is %s" % show(S2)[:120])
        W = isv(winner_of(S2), "Some", OPT)
        sp.need("C24", facts.ev(W) is False, key + ":goes-on", "a game goes on although its winner was not ruled out")
        ps = mem_parts(M2, M)
        if sp.need("C23", ps is not None and len(ps) == 1 and ps[0][0] == "e", key + ":record", "a move is recorded as %s" % show(M2)[:160]): recs.add(subst(subst(ps[0][1], {PI: sym("policy now")}), {S: sym("now")}))
        return None
    ws = [l for l, v in facts.lits if l.op == "isv" and is_call(l.args[0], "LearnableGame::check_winner") and l.args[0].args[1].op == "post"]
    post = [l.args[0].args[1] for l in ws if l.args[0].args[1].args[0].endswith("apply_move") and l.args[0].args[1].args[2:] == (S, m)]
    if not sp.gate("C24", len(post) >= 1 and facts.ev(isv(winner_of(post[0]), "Some", OPT)) is True, key + ":ends", "a game ends without a winner"): return None
    return PI, post[0]

# ---------------------------------------------------------------- many games at once
def batched(sp, prog):
    c = sp.c; me = sym("self"); key = "self_play_parallel"
    model, conf, temp = field(me, "model"), field(me, "mcts_config"), field(field(me, "config"), "temperature")
    limit = field(conf, "simulate_round_limit"); n0 = field(field(me, "config"), "num_self_play_batches")
    r = Run(c, prog, fn(prog, "AlphaZero::self_play_parallel"), [me], opaque=OPQ, pure={PICK, PROBS}, trusted=TR)
    outers = {}
    for o in r.outs:
        for x in o.st.trace:
            if isinstance(x, LoopRec) and any(e.name == MANY for b in x.backs for e in b.trace if isinstance(e, Ev)): outers[x.lid] = (x, o)
    if not sp.gate("C24", len(outers) == 1, key + ":loop", "batched self-play searches in %d loops" % len(outers)): return
    outer, _ = next(iter(outers.values()))
    for o in r.outs:
        if o.kind != "ret": continue
        if not sp.gate("C24", outer.lid in [x.lid for x in o.st.trace if isinstance(x, LoopRec)], key + ":skipped", "self-play returns without playing when %s" % where(o)): continue
        sp.need("C24", not [e for e in o.st.trace if isinstance(e, Ev) and not quiet(e)], key + ":after", "self-play does %s besides playing" % [str(e)[:80] for e in o.st.trace if isinstance(e, Ev) and not quiet(e)])
    for b in outer.backs:
        if consistent(b.facts): one_pass(sp, key, prog, r, outer, b, me, model, conf, temp, limit, n0)
    c.floor("paths", 5)

def slot_parts(e0, b):
    """the initial element of a game's slot: paths of its number and of its position"""
    ids, games = [], []
    def go(t, path):
        if t is b: ids.append(path)
        elif mentions(t, lambda z: is_call(z, "LearnableGame::new")) and t.op in ("call", "post", "ite"): games.append(path)
        elif t.op == "agg":
            for n, x in zip(t.args[1], t.args[2]): go(x, path + (("f", n),))
    go(e0, ())
    return ids, games
def at_path(t, path):
    for e in path: t = proj(t, e)
    return t

def one_pass(sp, key, prog, r, outer, b, me, model, conf, temp, limit, n0):
    """one search of all open games and one round of each"""
    c = sp.c
    ev = [e for e in b.trace if isinstance(e, Ev) and not quiet(e)]
    loops = [x for x in b.trace if isinstance(x, LoopRec)]
    many = [e for e in ev if e.name == MANY]
    if not sp.gate("C25", len(many) == 1, key + ":search", "a pass searches %d times" % len(many)): return
    store0, states, net, cf = many[0].args[:4]
    # the games: one map or list of slots
    if not sp.gate("C25", states.op == "comp" and states.args[0].op == "len" and len(states.args[1]) == 1 and not states.args[1][0][0], key + ":games", "the positions searched are %s" % show(states)[:160]): return
    n, alts, bv = states.args; G = n.args[0]; E = alts[0][1][0][1]
    if not sp.gate("C25", G in outer.phis, key + ":games", "the positions searched are not those of the open games: %s" % show(G)[:100]): return
    for o in r.outs:
        if o.kind == "ret": sp.need("C24", o.st.facts.ev(eq(length(G), ZERO)) is True, key + ":until", "self-play ends although games are open when %s" % where(o))
    sp.need("C25", store0.op == "agg" and length(field(store0, "nodes")) is ZERO, key + ":store", "a pass does not start from an empty tree: %s" % show(store0)[:100])
    sp.need("C25", net is model and cf is conf, key + ":settings", "the games are searched with %s and %s" % (show(net)[:80], show(cf)[:80]))
    jG = outer.phis.index(G); ini = outer.inits[jG]
    # the initial games
    if not sp.gate("C24", ini.op == "comp" and len(ini.args[1]) >= 1, key + ":initial", "the games at the start are %s" % show(ini)[:160]): return
    sp.need("C24", ini.args[0] is n0, key + ":number", "%s games are started, expected the configured number" % show(ini.args[0])[:100])
    ib = ini.args[2]; ids = gms = None
    for gs, parts in ini.args[1]:
        if not sp.gate("C24", len(parts) == 1 and parts[0][0] == "e", key + ":initial", "the games at the start are made with cases"): return
        for cond, x in cases_of(parts[0][1], tuple((y, w) for y, w in gs)):
            i1, g1 = slot_parts(x, ib)
            if ids is None: ids, gms = i1, g1
            if not sp.gate("C24", i1 == ids and g1 == gms and len(gms) == 1, key + ":initial", "a game's slot at the start is %s" % show(x)[:160]): return
            for cond2, y in cases_of(at_path(x, gms[0]), cond): fresh_game(sp, key, cond2, y)
    gp = gms[0]
    slot_b = proj(G, ("i", bv))
    sp.need("C25", E is at_path(slot_b, gp), key + ":games", "the positions searched are %s of the open games" % show(E)[:120])
    # the loop over the games
    inner = [l for l in loops if any(e.name in (APPLY, SKIP_T) for x in l.backs for e in x.trace if isinstance(e, Ev))]
    if not sp.gate("C25", len(inner) == 1, key + ":rounds", "the games are played on in %d loops" % len(inner)): return
    l = inner[0]; k = l.k
    sp.need("C24", l.N is length(G) or l.N is not None and rw(l.N) is length(G), key + ":every", "a pass plays on %s games" % (show(l.N)[:80] if l.N is not None else "some"))
    sp.need("C24", b.trace.index(many[0]) < b.trace.index(l), key + ":order", "the games are played on before the search")
    cur = {}                                             # outer variable -> variable of the inner loop
    for P in outer.phis:
        js = [j for j, x in enumerate(l.inits) if x is P]
        if not sp.gate("C24", len(js) <= 1, key + ":copies", "a variable is copied"): return
        cur[P] = l.phis[js[0]] if js else None
    g = cur[G]
    if not sp.gate("C25", g is not None, key + ":played", "the open games are never changed"): return
    ALL = [o.val for o in r.outs if o.kind == "ret"]
    if not sp.gate("C24", len(set(ALL)) == 1 and ALL[0] in outer.phis and outer.inits[outer.phis.index(ALL[0])] is vec() and cur[ALL[0]] is not None, key + ":samples", "what self-play returns is %s" % [show(x)[:100] for x in ALL[:2]]): return
    all_ = cur[ALL[0]]
    slot = proj(g, ("i", k)); S = at_path(slot, gp)
    post = mk("post", MANY, 0, *many[0].args)
    paths = []
    for q in l.backs:
        nx = dict(zip(l.phis, q.nexts))
        # places of other games are left alone
        w = nx[g]
        sp.need("C24", w is g or (w.op == "with" and w.args[0] is g and w.args[1] == ("i", k)), key + ":others", "a round of one game changes the others: %s" % show(w)[:160])
        paths.append((q, nx))
    # index of the game: every way of writing its number
    idterms = {at_path(slot, p) for p in ids} | {proj(slot, ("f", "0"))} if gp else set()
    counter = None; memory = None; removed = None
    for q, nx in paths:
        for P, v in nx.items():
            if v.op == "with" and v.args[0] is P and v.args[1][0] == "i" and P is not g:
                i = v.args[1][1]
                if v.args[2] is add(proj(P, ("i", i)), ONE): counter = P if counter in (None, P) else "two"
                elif v.args[2].op in ("ext", "cat") and mem_parts(v.args[2], proj(P, ("i", i))): memory = P if memory in (None, P) else "two"
            if P not in (all_, g) and v.op == "ext" and v.args[0] is P: removed = P if removed in (None, P) else "two"
    if not sp.gate("C24", isinstance(counter, T), key + ":counter", "rounds are not counted, one by one, for each game"): return
    if not sp.gate("C23", isinstance(memory, T), key + ":record", "moves are not recorded, one by one, for each game"): return
    if not sp.gate("C24", isinstance(removed, T), key + ":removed", "finished games are not listed"): return
    # counters and records are there for every game and empty at the start
    for P, init, what in ((counter, ZERO, "counter"), (memory, vec(), "record")):
        O = [x for x in outer.phis if cur[x] is P]
        x = outer.inits[outer.phis.index(O[0])] if O else None
        okk = x is not None and (x.op == "rep" and x.args[0] is init and x.args[1] is n0 or x.op == "comp" and x.args[0] is n0 and len(x.args[1]) == 1 and not x.args[1][0][0] and x.args[1][0][1] == (("e", init),))
        sp.need("C24", okk, key + ":" + what, "the games' %ss start as %s" % (what, show(x)[:120] if x is not None else "nothing that lasts"))
    sp.need("C24", removed in l.phis and l.inits[l.phis.index(removed)] is vec(), key + ":removed", "the list of finished games does not start empty")
    # ---- every path of one game's round
    recs = set(); ends = []
    for q, nx in paths:
        if not consistent(q.facts): continue
        ev = [e for e in q.trace if isinstance(e, Ev) and not quiet(e)]
        if not sp.gate("C23", not any(isinstance(x, LoopRec) for x in q.trace), key + ":inner", "a round contains a loop with effects"): continue
        for e in ev: sp.need("C23", not inplace(e), key + ":inplace", "%s changes a tensor that is kept" % str(e)[:120])
        ev = [e for e in ev if not inplace(e)]
        i = index_of(nx, counter, memory, removed, q, idterms)
        if not sp.gate("C24", i is not None and (i in idterms), key + ":number", "a round uses the counter or the record of game %s" % (show(i)[:80] if i is not None else "?")): continue
        rounds = proj(counter, ("i", i)); mem = proj(memory, ("i", i))
        kids_ = field(proj(field(post, "nodes"), ("i", k)), "children")
        def spec(ask):
            if ask(le(limit, rounds)): return "limit"
            if ask(eq(length(kids_), ZERO)): return "none"
            return "some"
        for f, case in refine(q.facts, spec):
            c.count("paths"); kk = key + ":" + case
            S2 = at_path(proj(nx[g], ("i", k)), gp)
            cnt = proj(nx[counter], ("i", i)) if nx[counter] is not counter else rounds
            gone = nx[removed]; out = nx[all_]
            foreign(sp, kk, nx, (counter, memory), i)
            if case == "limit":
                sp.need("C24", not ev, kk, "a game at the round limit is played on: %s" % [str(e)[:80] for e in ev])
                leaves(sp, kk, gone, removed, i, True)
                ps = mem_parts(out, all_)
                if sp.need("C24", ps is not None and len(ps) == 1 and ps[0][0] == "s", kk + ":delivered", "a game at the round limit delivers %s" % show(out)[:160]): ends.append(("limit", ps[0][1], mem, S, None, None, f))
                continue
            if not ev:
                sp.need("C25", False, kk, "a game below the round limit does nothing"); continue
            sp.need("C24", cnt is add(rounds, ONE), kk + ":counted", "a round is counted as %s" % show(cnt)[:100])
            if case == "none":
                sp.need("C25", len(ev) == 1 and ev[0].name == SKIP_T and ev[0].args[0] is S, kk, "a game without a move does %s" % [str(e)[:80] for e in ev])
                sp.need("C25", S2.op == "post" and S2.args[0].endswith("skip_turn") and S2.args[2] is S, kk + ":passed", "after a pass the position is %s" % show(S2)[:120])
                sp.need("C23", nx[memory] is memory, kk + ":record", "a pass is recorded")
                sp.need("C24", out is all_, kk + ":delivered", "a game that passes delivers samples"); leaves(sp, kk, gone, removed, i, False)
                continue
            PT = matrix(q, post, n, k)
            if ev[0].name == SKIP_T:
                # allowed only where the shares of the moves are all zero
                sp.need("C25", PT is not None and zero_shares(f, PT) and len(ev) == 1 and ev[0].args[0] is S, kk + ":passed", "a game with a move passes")
                sp.need("C23", nx[memory] is memory, kk + ":record", "a pass is recorded"); leaves(sp, kk, gone, removed, i, False)
                continue
            if not sp.gate("C25", len(ev) == 1 and ev[0].name == APPLY and ev[0].args[0] is S, kk, "a round does %s" % [str(e)[:100] for e in ev]): continue
            m = ev[0].args[1]
            PI = PT
            if not sp.gate("C25", PI is not None, kk + ":policy", "the policies are not those of the search just made"): continue
            e = chosen(m, S, [PI], temp); sp.need("C25", e is None, kk + ":choice", e)
            sp.need("C25", S2.op == "post" and S2.args[0].endswith("apply_move") and S2.args[2:] == (S, m), kk + ":played", "after the move the position is %s" % show(S2)[:120])
            sp.need("C25", looked_up(f, S, m), kk + ":legal", "a move is played without a check that it is among the legal moves")
            kept = proj(nx[memory], ("i", i)); won = f.ev(isv(winner_of(S2), "Some", OPT))
            if won and kept is vec():                    # the record is taken out when the game is delivered
                full = {x for x in subterms(out) if mem_parts(x, mem) and len(mem_parts(x, mem)) == 1}
                if len(full) == 1: kept = full.pop()
            mp = mem_parts(kept, mem) if nx[memory] is not memory else []
            if not sp.gate("C23", mp is not None and len(mp) == 1 and mp[0][0] == "e", kk + ":record", "a move is recorded as %s" % (show(nx[memory])[:160])): continue
            recs.add(subst(subst(mp[0][1], {PI: sym("policy now")}), {S: sym("now")}))
            if not sp.gate("C24", won is not None, kk + ":looks", "a game is played on without looking at its winner"): continue
            leaves(sp, kk, gone, removed, i, won)
            if won:
                ps = mem_parts(out, all_)
                if sp.need("C24", ps is not None and len(ps) == 1 and ps[0][0] == "s", kk + ":delivered", "a finished game delivers %s" % show(out)[:160]): ends.append(("won", ps[0][1], kept, S, PI, S2, f))
            else: sp.need("C24", out is all_, kk + ":delivered", "a game that goes on delivers samples")
    if sp.need("C23", len(recs) == 1, key + ":records", "%d different kinds of records are kept" % len(recs)):
        rec0 = next(iter(recs))
        for kind, L, kept, S, PI, S2, f in ends:
            then = subst(rec0, {sym("policy now"): sym("policy then"), sym("now"): sym("then")})
            sample(sp, key + ":" + kind, L, kept, then, winner_of(S2) if S2 is not None else None)
    # ---- after the rounds: exactly the listed games go
    removal(sp, key, outer, b, loops, l, G, g, removed, ids, jG)
    for P in outer.phis:
        if P is G: continue
        j = outer.phis.index(P); v = b.nexts[j]
        if P is ALL[0]: sp.need("C24", v is all_, key + ":samples", "the samples after a pass are %s" % show(v)[:120])

def cases_of(t, cond):
    """the cases of a conditional value"""
    if t.op != "ite": return [(cond, t)]
    q, x, y = t.args; pol = True
    while q.op == "not": q = q.args[0]; pol = not pol
    return cases_of(x, cond + ((q, pol),)) + cases_of(y, cond + ((q, not pol),))
def fresh_game(sp, key, cond, t):
    new = call("LearnableGame::new")
    det = [v for q, v in cond if q.op == "const" and "IS_DETERMINISTIC" in show(q)]
    rolled = t.op == "post" and t.args[0].endswith("roll_die") and t.args[2] is new
    sp.need("C25", (t is new and det == [True]) or (rolled and det == [False]), key + ":start", "a game starts from %s when %s" % (show(t)[:120], [(show(q)[:60], v) for q, v in cond]))

def index_of(nx, counter, memory, removed, q, idterms):
    """the number of the game this path works on"""
    s = set()
    for P in (counter, memory):
        v = nx[P]
        if v.op == "with" and v.args[0] is P: s.add(v.args[1][1])
    v = nx[removed]
    if v.op == "ext" and v.args[0] is removed and len(v.args[1]) == 1: s.add(v.args[1][0])
    for l, v in q.facts.lits:
        for x in subterms(l):
            if x.op == "p" and x.args[0] is counter and x.args[1][0] == "i": s.add(x.args[1][1])
    s2 = {x for x in s if x in idterms}
    return next(iter(s2)) if s and s == s2 and s2 else (next(iter(s - s2)) if s - s2 else None)

def foreign(sp, kk, nx, Ps, i):
    for P in Ps:
        v = nx[P]
        sp.need("C24", v is P or v.op == "with" and v.args[0] is P and v.args[1][0] == "i", kk + ":others", "a round of one game changes the counters or records of others: %s" % show(v)[:120])
def leaves(sp, kk, gone, removed, i, yes):
    if yes: sp.need("C24", gone.op == "ext" and gone.args[0] is removed and len(gone.args[1]) == 1, kk + ":leaves", "a finished game stays: %s" % show(gone)[:120])
    else: sp.need("C24", gone is removed, kk + ":stays", "a game that is not finished is removed")
def matrix(q, post, n, k):
    """row k of the policies of all roots after the search"""
    found = set()
    for src in [l for l, _ in q.facts.lits] + [a for e in q.trace if isinstance(e, Ev) for a in e.args] + list(q.nexts):
        for x in subterms(src):
            if is_call(x, PROBS): found.add(x)
    if len(found) != 1: return None
    p = found.pop()
    roots, st = p.args[1], p.args[2]
    if st is not post: return None
    want = field(post, "nodes")
    if not (roots.op == "comp" and roots.args[0] is n and len(roots.args[1]) == 1 and not roots.args[1][0][0] and roots.args[1][0][1][0] == ("e", proj(want, ("i", roots.args[2])))): return None
    return call("Tensor::get", p, k)
def zero_shares(f, row):
    """the visit shares of the game's moves add up to nothing"""
    for l, v in f.lits:
        if v is False and is_call(l, "Tensor::is_nonzero") and is_call(l.args[1], "Tensor::sum"):
            x, y = l.args[1].args[1], row
            if x is y or row_of(x) and row_of(x) == row_of(y): return True
    return False
def looked_up(f, S, m):
    """m was found among the legal moves of S"""
    mv = moves_of(S)
    return any(v is True and l.op == "any" and l.args[0] is length(mv) and l.args[1] is eq(m, proj(mv, ("i", l.args[2]))) for l, v in f.lits)
def sample(sp, key, L, kept, then, W):
    d = delivered(L, kept, then)
    if not sp.gate("C23", d is not None, key + ":list", "what a finished game delivers is not its record, sample by sample: %s" % show(L)[:240]): return
    d = Sample(d); TH = sym("then"); WIN = sym("winner", "i8"); P = sym("mover", "i8")
    sp.need("C23", d.state is call("LearnableGame::as_tensor", TH), key + ":position", "a sample's position is %s" % show(d.state)[:160])
    sp.need("C23", d.ps is sym("policy then"), key + ":policy", "a sample's policy is %s" % show(d.ps)[:200])
    if W is None:
        nobody = eq(call("LearnableGame::get_player", TH), ZERO)      # the player to move is never 0
        sp.need("C24", all(x is ZERO for q, x in cases_of(d.outcome, ()) if (nobody, True) not in q), key + ":draw", "a game stopped at the round limit is recorded as %s" % show(d.outcome)[:120])
    else:
        e = result_ok(subst(subst(d.outcome, {some0(W): WIN}), {call("LearnableGame::get_player", TH): P}), P, WIN)
        sp.need("C23", e is None, key + ":result", e)
    sp.c.count("deliveries")

def removal(sp, key, outer, b, loops, inner, G, g, removed, ids, jG):
    """the open games after a pass are those before it without the listed ones"""
    after = b.trace[b.trace.index(inner) + 1:]
    rem = [x for x in after if isinstance(x, LoopRec) and any(e.name.endswith("::remove") for y in x.backs for e in y.trace if isinstance(e, Ev))]
    v = b.nexts[jG]
    if not rem and v.op == "comp":                                  # the entries whose number is not listed
        e = proj(g, ("i", v.args[2])); id_ = proj(e, ("f", "0"))
        listed = [x for gs, _ in v.args[1] for y in gs for x in subterms(y) if x.op == "any" and x.args[0] is length(removed) and x.args[1] is eq(id_, proj(removed, ("i", x.args[2])))]
        ok = listed and v.args[0] is length(g) and v.args[1] == (((bnot(listed[0]),), (("e", e),)),) and (("f", "0"),) in ids
        sp.need("C24", ok, key + ":removal", "the open games after a pass are %s" % show(v)[:160]); return
    if not sp.gate("C24", len(rem) == 1, key + ":removal", "finished games are removed by %d loops" % len(rem)): return
    x = rem[0]
    sp.need("C24", x.N is length(removed) or (x.N is not None and rw(x.N) is length(removed)), key + ":removal:all", "%s of the finished games are removed" % (show(x.N)[:80] if x.N is not None else "some"))
    if not sp.gate("C24", len(x.phis) == 1 and x.inits[0] is g and v is x.phis[0], key + ":removal:from", "games are removed from %s" % [show(y)[:80] for y in x.inits]): return
    for y in x.backs:
        rs = [e for e in y.trace if isinstance(e, Ev)]
        sp.need("C24", len(rs) == 1 and rs[0].name == "HashMap::remove" and rs[0].args[0] is x.phis[0] and rs[0].args[1] is proj(removed, ("i", x.k)), key + ":removal:key", "a removal is %s" % [str(e)[:100] for e in rs])
        sp.need("C24", (("f", "0"),) in ids, key + ":removal:number", "games are not kept under their number")
    early = x.early
    sp.need("C24", not early, key + ":removal:all", "removal can stop early")

def both(sp, prog):
    sequential(sp, prog)
    batched(sp, prog)
    sp.c.floor("deliveries", 3)
def c23(c, prog): both(Spec(c, "C23"), prog)
def c24(c, prog): both(Spec(c, "C24"), prog)
def c25(c, prog):
    from . import matches
    sp = Spec(c, "C25"); both(sp, prog); matches.c25(sp, prog)
