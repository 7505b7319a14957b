"""Matches (C25: the moves of a match; C26: its games, agents and count): the choice of moves, the start, one turn of one game and the final tally compared with the reference."""
from .common import *
from .tree import rw, field, winner_of, moves_of, TR
from .selfplay import Spec, SEARCH, MANY, PROBS, PICK, APPLY, SKIP_T, call, is_call, chosen, row_of, temperature_ok, cases_of, matrix, looked_up, mem_parts, quiet
from sa import terms as tm

PLAYOUT, ACTIONS = "simple_mcts::mct_search", "versus::get_actions_for_player"
OPQ = {SEARCH, MANY, PROBS, PICK, PLAYOUT}
def player_of(s): return call("LearnableGame::get_player", s)
def is_empty_move(t): return t.op == "const" and "EMPTY_MOVE" in show(t)
def noise(e): return quiet(e) or e.name in (ACTIONS, PLAYOUT) or e.name.startswith(("nanoid", "SliceRandom::choose", "Rng::", "rand::"))

# ---------------------------------------------------------------- the agents' moves
def agents(sp, prog, body):
    """what each kind of agent answers for a list of games"""
    c = sp.c; key = "actions"
    P, G, conf, temp = (sym(x) for x in ("player", "games", "conf", "temp"))
    r = Run(c, prog, body, [P, G, conf, temp], opaque=OPQ, pure={PICK, PROBS, PLAYOUT}, trusted=TR)
    kinds = set()
    for o in r.outs:
        f = o.st.facts
        if f.ev(eq(length(G), ZERO)) is True:
            if o.kind == "ret": sp.need("C26", length(o.val) is ZERO or rw(length(o.val)) is length(G), key + ":no-games", "without games the moves are %s" % show(o.val)[:100])
            continue
        kind = [k for k in ("Random", "Mcts", "Model", "None") if any(l.op == "isv" and l.args[0] is field(P, "player_type") and l.args[1] == k and v for l, v in f.lits)]
        if o.kind == "panic":
            stop = kind == ["None"] or (kind == ["Model"] and any(l.op == "isv" and l.args[0] is field(P, "model") and l.args[1] == "Some" and v is False for l, v in f.lits))
            sp.need("C26", stop, key + ":panic", "an agent stops the match when %s" % where(o)); continue
        if not sp.gate("C26", len(kind) == 1, key + ":kind", "moves are chosen without looking at the kind of agent when %s" % where(o)): continue
        k = kind[0]; kinds.add(k); c.count("agents")
        v = o.val
        if not sp.gate("C25", v.op == "comp" and v.args[0] is length(G) and len(v.args[1]) == 1 and not v.args[1][0][0] and len(v.args[1][0][1]) == 1 and v.args[1][0][1][0][0] == "e", key + ":" + k + ":each", "the moves are not one for each game, in order: %s" % show(v)[:160]): continue
        b = v.args[2]; g = proj(G, ("i", b)); e = v.args[1][0][1][0][1]
        ev = [x for x in o.st.trace if isinstance(x, Ev) and not noise(x)] if k != "Model" else [x for x in o.st.trace if isinstance(x, Ev) and x.name == MANY]
        if k == "Mcts":
            sp.need("C25", e is call(PLAYOUT, g, player_of(g), conf), key + ":Mcts", "the move of the simple search is %s" % show(e)[:160])
        elif k == "Random":
            mv = moves_of(g)
            for cond, x in cases_of(e, ()):
                none = known(cond, eq(length(mv), ZERO))
                if none is True: sp.need("C25", is_empty_move(x), key + ":Random:none", "without a legal move the random agent plays %s" % show(x)[:120])
                else: sp.need("C25", x.op == "p" and x.args[0] is mv and x.args[1][0] == "i" and x.args[1][1].op == "choice" and x.args[1][1].args[0] is mv, key + ":Random", "the random move is %s" % show(x)[:160])
        elif k == "Model":
            if not sp.gate("C25", len(ev) == 1 and ev[0].args[1] is G and ev[0].args[3] is conf and ev[0].args[2] is proj(proj(field(P, "model"), ("v", "Some")), ("f", "0")) and length(field(ev[0].args[0], "nodes")) is ZERO, key + ":Model:search", "the model's search is %s" % [str(x)[:160] for x in ev]): continue
            post = mk("post", MANY, 0, *ev[0].args); root = proj(field(post, "nodes"), ("i", b))
            PT = policies(e, o, post, length(G), b)
            if not sp.gate("C25", PT is not None, key + ":Model:policy", "the policies are not those of the search just made"): continue
            for cond, x in cases_of(e, ()):
                none = known(cond, eq(length(field(root, "children")), ZERO))
                zero = [v for q, v in cond if is_call(q, "Tensor::is_nonzero") and is_call(q.args[1], "Tensor::sum") and shares(q.args[1].args[1], PT, temp)]
                if is_empty_move(x):
                    sp.need("C25", none is True or False in zero, key + ":Model:none", "the model passes although it has a move: %s" % [(show(q)[:60], v) for q, v in cond]); continue
                sp.need("C25", none is False, key + ":Model:unsearched", "the model's move is taken from a game without an expanded move")
                err = "?"
                for S in (g, field(root, "state")):
                    err = chosen(x, S, [PT], temp)
                    if err is None: break
                sp.need("C25", err is None, key + ":Model", err or "")
        else: sp.need("C26", False, key + ":None", "a player that is no agent moves")
    sp.need("C26", kinds == {"Random", "Mcts", "Model"}, key + ":kinds", "agents that move: %s" % sorted(kinds))
    c.floor("agents", 3)

def known(cond, lit):
    for q, v in cond:
        if q is lit: return v
        if q is bnot(lit): return not v
        if q.op == "and" and v and lit in q.args: return True
        if q.op == "and" and v and bnot(lit) in q.args: return False
    return None
def shares(x, PT, temp):
    """x is the game's row of visit shares, before or after the temperature"""
    if x is PT: return True
    if temperature_ok(x, PT, temp): return True
    r, q = row_of(x), row_of(PT)
    return bool(r and q and r[1] is q[1] and (r[0] is q[0] or temperature_ok(r[0], q[0], temp)))

class Q: pass
def policies(e, o, post, n, k):
    q = Q(); q.facts = Q(); q.facts.lits = (); q.trace = (); q.nexts = [e]
    return matrix(q, post, n, k)

# ---------------------------------------------------------------- the match
def notrunc(t):
    """counters that start at a whole number and grow by one are whole: conversions do not change them"""
    return tm.rebuild_with(t, lambda x: x.args[0] if x.op == "trunc" else None) if hasattr(tm, "rebuild_with") else subst(t, {x: x.args[0] for x in subterms(t) if x.op == "trunc"})

def paths_in(e0, want):
    """paths of the parts of a record for which want holds"""
    out = []
    def go(t, path):
        if want(t): out.append(path)
        elif t.op == "agg":
            for n, x in zip(t.args[1], t.args[2]): go(x, path + (("f", n),))
    go(e0, ()); return out
def at_path(t, path):
    for e in path: t = proj(t, e)
    return t
NEW = call("LearnableGame::new")
def made(t):
    """the operations that made a starting position, and its number"""
    ops = []; num_ = None
    while t.op == "post":
        n = t.args[0].split("::")[-1]; ops.append(n)
        if n == "set_id":
            if num_ is None: num_ = t.args[3]
        t = t.args[2]
    return (ops, num_) if t is NEW else (None, None)

def match(sp, prog, body):
    c = sp.c; key = "play"
    p1, p2, conf, temp = (sym(x) for x in ("p1", "p2", "conf", "temp"))
    r = Run(c, prog, body, [p1, p2, conf, temp], opaque=OPQ | {ACTIONS}, trusted=TR)
    outers = {x.lid: x for o in r.outs for x in o.st.trace if isinstance(x, LoopRec) and any(isinstance(e, Ev) and e.name == ACTIONS for b in x.backs for e in b.trace)}
    if not sp.gate("C26", len(outers) == 1, key + ":loop", "a match is played by %d loops" % len(outers)): return
    outer = next(iter(outers.values()))
    # the games at the start
    hs = [j for j, x in enumerate(outer.inits) if mentions(x, lambda z: z is NEW)]
    if not sp.gate("C26", len(hs) == 1, key + ":games", "a match keeps %d sets of games" % len(hs)): return
    H, ini = outer.phis[hs[0]], outer.inits[hs[0]]
    if not sp.gate("C26", ini.op == "comp" and ini.args[0].op == "num" and len(ini.args[1]) == 1 and not ini.args[1][0][0] and len(ini.args[1][0][1]) == 1, key + ":games", "the games at the start are %s" % show(ini)[:120]): return
    N = int(ini.args[0].args[0]); b = ini.args[2]; el = ini.args[1][0][1][0][1]
    sp.need("C26", N > 0 and N % 2 == 0, key + ":number", "%d games cannot start half with each player" % N)
    gp = rp = None; skipped = {}; ids = {}
    for i in range(N):
        for cond, x in cases_of(subst(el, {b: num(i)}), ()):
            det = [v for q, v in cond if q.op == "const" and "IS_DETERMINISTIC" in show(q)]
            gs = paths_in(x, lambda t: made(t)[0] is not None)
            rec = paths_in(x, lambda t: t.op == "agg" and "turns" in t.args[1])
            if gp is None: gp = [q for q in gs if not any(q[:len(y)] == y for y in rec)]; rp = rec
            if not sp.gate("C26", len(gp) == 1 and gp[0] in gs and rec == rp and len(rec) <= 1, key + ":slot", "a game is kept as %s" % show(x)[:160]): return
            ops, n_ = made(at_path(x, gp[0]))
            if not sp.gate("C26", n_ is num(i) and x.op == "agg" and x.args[2][0] is num(i), key + ":id", "game %d starts with the number %s" % (i, show(n_)[:60] if n_ is not None else "none")): return
            sp.need("C25", ("roll_die" in ops) is (det == [False]) and sorted(set(ops) - {"roll_die", "set_id", "skip_turn"}) == [] and ops.count("skip_turn") <= 1, key + ":start", "a game starts after %s (deterministic: %s)" % (ops, det))
            skipped.setdefault(tuple(det), []).append("skip_turn" in ops)
            if rec:
                g = at_path(x, rec[0]); st = field(g, "initial_state")
                sp.need("C31", st is at_path(x, gp[0]), key + ":record:start", "the recorded starting position is %s" % show(st)[:120])
                gid = field(g, "id"); ids.setdefault(gid, set()).add(i)
                sp.need("C31", drawn_anew(gid), key + ":record:name", "the name of a game's record is %s" % show(gid)[:80])
                sp.need("C31", len(ids[gid]) == 1, key + ":record:names", "two games of a match have the same name %s" % show(gid)[:60])
                sp.need("C31", field(g, "player1") is field(p1, "player_type") and field(g, "player2") is field(p2, "player_type"), key + ":record:agents", "the recorded agents are %s and %s" % (show(field(g, "player1"))[:60], show(field(g, "player2"))[:60]))
    for d, v in skipped.items(): sp.need("C26", len(v) == N and sum(v) == N // 2, key + ":half", "%d of %d games start with the other player" % (sum(v), len(v)))
    gp = gp[0]; rp = rp[0] if rp else None
    if not sp.gate("C26", gp[:1] == (("f", "1"),) and (rp is None or rp[:1] == (("f", "1"),)), key + ":slot", "games are not kept by their number"): return
    sp.need("C31", rp is not None, key + ":record", "no record is kept of a game")
    wins = None
    for bk in outer.backs:
        if consistent(bk.facts): wins = turn(sp, key, outer, bk, H, hs[0], gp, rp, p1, p2, conf, temp) or wins
    # the result
    if wins is None: return
    w1, w2, played = wins
    n = 0
    for o in r.outs:
        if o.kind != "ret": continue
        n += 1
        if not sp.gate("C26", o.st.facts.ev(eq(length(H), ZERO)) is True, key + ":until", "a match ends although games are open when %s" % where(o)): continue
        v = o.val; F = lambda f: rw(notrunc(field(v, f)))
        NN = num(N)
        sp.need("C26", F("wins_p1") is w1 and F("wins_p2") is w2, key + ":wins", "the wins reported are %s and %s" % (show(F("wins_p1"))[:80], show(F("wins_p2"))[:80]))
        sp.need("C26", F("draws") is sub(NN, add(w1, w2)), key + ":draws", "the draws reported are %s" % show(F("draws"))[:120])
        sp.need("C26", F("n_games") is NN, key + ":n_games", "the number of games reported is %s" % show(F("n_games"))[:80])
        sp.need("C26", F("winrate") is fdiv(w1, NN) or F("winrate") is rw(fdiv(w1, NN)), key + ":winrate", "the win rate reported is %s" % show(F("winrate"))[:120])
        sp.need("C26", field(v, "player1") is field(p1, "player_type") and field(v, "player2") is field(p2, "player_type"), key + ":players", "the agents reported are %s and %s" % (show(field(v, "player1"))[:60], show(field(v, "player2"))[:60]))
        sp.need("C31", played is not None and field(v, "games") is played, key + ":record:returned", "the games returned are %s" % show(field(v, "games"))[:100])
    sp.need("C26", n >= 1, key + ":result", "a match never returns")
    for o in r.outs:
        if o.kind != "panic": continue
        legal = any(v is False and l.op == "any" and mentions(l, lambda z: is_call(z, "LearnableGame::get_valid_moves")) for l, v in o.st.facts.lits)
        other = any(v is False and l.op == "isv" and "ProgressStyle" in show(l) for l, v in o.st.facts.lits)
        gone = any(v is False and l.op == "has" for l, v in o.st.facts.lits)          # a game that is no longer kept under its number: excluded by the numbering checked above
        c.count("panics"); sp.need("C26", legal or other or gone, key + ":panic", "a match stops when %s" % where(o))

def turn(sp, key, outer, bk, H, jH, gp, rp, p1, p2, conf, temp):
    """one turn of all open games"""
    c = sp.c
    acts = [e for e in bk.trace if isinstance(e, Ev) and e.name == ACTIONS]
    if not sp.gate("C26", len(acts) == 2, key + ":agents", "the agents are asked %d times a turn" % len(acts)): return
    lists = {}
    for e in acts:
        who, L = e.args[0], e.args[1]
        n_ = 1 if who is p1 else 2 if who is p2 else None
        ok = L.op == "comp" and L.args[0] is length(H) and len(L.args[1]) == 1 and len(L.args[1][0][1]) == 1 and L.args[1][0][1][0] == ("e", at_path(proj(H, ("i", L.args[2])), gp))
        if not sp.gate("C26", n_ and n_ not in lists and ok, key + ":asked", "an agent is asked for the moves of %s" % show(L)[:160]): return
        sp.need("C25", e.args[2] is conf and e.args[3] is temp, key + ":settings", "an agent is asked with %s and %s" % (show(e.args[2])[:60], show(e.args[3])[:60]))
        S = at_path(proj(H, ("i", L.args[2])), gp)
        when = {q: band(*[rw(subst(g, {player_of(S): num(q)})) for g in L.args[1][0][0]]) for q in (1, -1)}
        if not sp.gate("C26", all(x in (TRUE, FALSE) for x in when.values()), key + ":asked", "which games an agent is asked for depends on %s" % show(band(*L.args[1][0][0]))[:120]): return
        lists[n_] = (L, [q for q in (1, -1) if when[q] is TRUE], call(ACTIONS, *e.args))
    if not sp.gate("C26", len(lists[1][1]) == 1 and lists[2][1] == [-lists[1][1][0]], key + ":sides", "player one is asked when %s is to move and player two when %s is" % (lists[1][1], lists[2][1])): return
    side = lists[1][1][0]
    loops = [x for x in bk.trace if isinstance(x, LoopRec)]
    rounds = [l for l in loops if any(isinstance(e, Ev) and e.name in (APPLY, SKIP_T) for x in l.backs for e in x.trace)]
    if not sp.gate("C26", rounds, key + ":moves", "no moves are played"): return
    cur = {P: P for P in outer.phis}; covered = []; w1 = w2 = removed = None
    for l in rounds:
        mp = {P: next((l.phis[j] for j, x in enumerate(l.inits) if x is cur[P]), None) for P in outer.phis}
        lg = mp[H]
        if not sp.gate("C26", lg is not None, key + ":moves", "moves are played on %s" % [show(x)[:60] for x in l.inits]): return
        X = {x.args[0] for q in l.backs for s in [y for y, _ in q.facts.lits] + list(q.nexts) + [a for e in q.trace if isinstance(e, Ev) for a in e.args] for x in subterms(s) if x.op == "p" and x.args[1] == ("i", l.k) and x.args[0].op == "cat"}
        if not sp.gate("C26", len(X) <= 1, key + ":pairs", "the moves come from several lists"): return
        X = next(iter(X)) if X else None
        parts = list(X.args) if X is not None else [None]
        lens = {length(lists[i][2]): length(lists[i][0]) for i in (1, 2)}
        total = ZERO
        for part in parts:
            if part is not None: m = {proj(X, ("i", l.k)): proj(part, ("i", l.k))}; total = add(total, rw(subst(length(part), lens)))
            else: m = {}; total = rw(subst(l.N, lens)) if l.N is not None else ZERO
            S_ = lambda t: subst(t, m) if m else t
            for q in l.backs:
                if not consistent(q.facts): continue
                x = one_turn(sp, key, l, q, S_, lg, cur, mp, outer, lists, gp, rp, side, p1, p2)
                if x is None: return
                i, a1, a2, rem = x
                if i not in covered: covered.append(i)
                w1, w2, removed = w1 or a1, w2 or a2, rem or removed
        want = ZERO
        for i in sorted(set(covered)) if len(rounds) == 1 else covered[-len(parts):]: want = add(want, length(lists[i][0]))
        sp.need("C26", rw(subst(l.N, lens)) is total and total is want, key + ":every", "of the games to be played a turn plays %s" % show(l.N)[:160])
        cur = {P: (mp[P] if mp[P] is not None else cur[P]) for P in outer.phis}
    if not sp.gate("C26", sorted(covered) == [1, 2], key + ":every", "a turn plays the games of the players %s" % covered): return
    if not sp.gate("C26", w1 is not None and w2 is not None and removed is not None and w1 is not w2, key + ":counted", "wins are not counted for each player, or finished games not listed"): return
    # finished games leave
    rem = [x for x in loops if any(isinstance(e, Ev) and e.name.endswith("::remove") for y in x.backs for e in y.trace)]
    if not sp.gate("C26", len(rem) == 1, key + ":leaves", "finished games leave in %d loops" % len(rem)): return
    x = rem[0]; v = bk.nexts[jH]
    if not sp.gate("C26", v in x.phis and x.inits[x.phis.index(v)] is cur[H] and x.N is length(removed) and not x.early, key + ":leaves", "the open games after a turn are %s" % show(v)[:100]): return
    played = None
    for y in x.backs:
        if not consistent(y.facts): continue
        rs = [e for e in y.trace if isinstance(e, Ev) and e.name.endswith("::remove")]; k_ = proj(removed, ("i", x.k))
        sp.need("C26", len(rs) == 1 and rs[0].args[0] is v and rs[0].args[1] is k_, key + ":leaves", "a finished game is removed by %s" % [str(e)[:80] for e in rs])
        if y.facts.ev(mk("has", v, k_)) is False: continue        # the games listed are open ones, each listed once (leaves)
        for j, P in enumerate(x.phis):
            if P is v: continue
            nx = y.nexts[j]; good = rp is not None and nx is push(P, at_path(proj(v, ("n", k_)), rp[1:]))
            sp.need("C31", good, key + ":record:kept", "a finished game is kept as %s" % show(nx)[:120])
            if good:
                O = [Q_ for Q_ in outer.phis if x.inits[j] is cur[Q_]]
                if O and outer.inits[outer.phis.index(O[0])] is vec() and bk.nexts[outer.phis.index(O[0])] is P: played = O[0]
    back = {}
    for w in (w1, w2):
        O = [P for P in outer.phis if cur[P] is w]
        if sp.need("C26", len(O) == 1 and bk.nexts[outer.phis.index(O[0])] is w and rw(outer.inits[outer.phis.index(O[0])]) is ZERO, key + ":counter", "a count of wins does not start at nothing or is not kept"): back[w] = O[0]
    if len(back) < 2: return
    c.count("turns")
    return back[w1], back[w2], played

def one_turn(sp, key, l, q, S_, lg, cur, mp, outer, lists, gp, rp, side, p1, p2):
    """one turn of one game"""
    c = sp.c
    facts = [(S_(x), v) for x, v in q.facts.lits]; f = with_facts(facts_of(()), facts)
    nx = {P: S_(n) for P, n in zip(l.phis, q.nexts)}
    w = nx[lg]
    if not sp.gate("C26", w.op == "with" and w.args[0] is lg and w.args[1][0] == "n" and is_call(w.args[1][1], "LearnableGame::get_id"), key + ":which", "a turn changes %s" % show(w)[:140]): return
    i = w.args[1][1]; g = i.args[1]
    who = [n for n in (1, 2) if g is proj(lists[n][0], ("i", l.k))]
    if not sp.gate("C26", len(who) == 1, key + ":which", "a turn is played on %s" % show(g)[:140]): return
    n = who[0]; a = proj(lists[n][2], ("i", l.k))
    slot = proj(lg, ("n", i)); S = at_path(slot, gp[1:]); S2 = at_path(w.args[2], gp[1:])
    ev = [e for e in q.trace if isinstance(e, Ev) and not noise(e)]
    args = [tuple(S_(x) for x in e.args) for e in ev]
    c.count("paths")
    empty = [v for x, v in facts if x.op == "eqc" and mentions(x, lambda z: is_empty_move(z)) and mentions(x, lambda z: z is a)]
    if not sp.gate("C25", len(ev) == 1 and ev[0].name in (APPLY, SKIP_T) and args[0][0] is S, key + ":turn", "a turn does %s" % [str(e)[:100] for e in ev]): return
    if ev[0].name == SKIP_T:
        sp.need("C25", True in empty, key + ":pass", "a turn passes although there is a move")
        sp.need("C25", S2.op == "post" and S2.args[0].endswith("skip_turn") and S2.args[2] is S, key + ":passed", "after a pass the position is %s" % show(S2)[:120])
    else:
        m = args[0][1]
        sp.need("C25", m is a, key + ":move", "the move played is %s" % show(m)[:160])
        sp.need("C25", False in empty or looked_up(f, S, m), key + ":empty", "the empty move is played")
        sp.need("C25", looked_up(f, S, m), key + ":legal", "a move is played without a check that it is among the legal moves")
        sp.need("C25", S2.op == "post" and S2.args[0].endswith("apply_move") and S2.args[2:] == (S, m), key + ":played", "after the move the position is %s" % show(S2)[:120])
    if rp is not None:
        r1, r2 = at_path(slot, rp[1:]), at_path(w.args[2], rp[1:])
        moved = [nm for nm in ("id", "player1", "player2", "initial_state") if field(r2, nm) is not field(r1, nm)]
        sp.need("C31", not moved, key + ":record:changed", "a turn changes the recorded %s" % moved)
        if ev[0].name == APPLY:
            t1, t2 = field(r1, "turns"), field(r2, "turns")
            kept = t2.op == "ext" and t2.args[0] is t1 and len(t2.args[1]) == 1 and mentions(field(t2.args[1][0], "action"), lambda z: z is args[0][1])
            sp.need("C31", kept, key + ":record:turns", "a move that is played is not added to the turns of the game's record")
    W = winner_of(S2); won = f.ev(isv(W, "Some", OPT))
    if not sp.gate("C26", won is not None, key + ":looks", "a turn does not look for a winner"): return
    win = proj(proj(W, ("v", "Some")), ("f", "0"))
    removed = [P for P in l.phis if P not in (lg,) and nx[P].op == "ext" and nx[P].args[0] is P and nx[P].args[1] == (i,)]
    lists_ = [P for P in l.phis if l.inits[l.phis.index(P)] is vec() and P not in mp.values()]
    inc = [P for P in l.phis if nx[P] is add(P, ONE)]
    same = lambda besides: all(nx[P] is P for P in l.phis if P is not lg and P not in besides)
    if not won:
        at = [(x, v) for x, v in facts if mentions(x, lambda z: z is outer.k or z in outer.phis) and x.op in ("le", "lt", "eqc") and not mentions(x, lambda z: z.op in ("call", "post", "len"))]
        late = [1 for x, v in at if limits(x, outer, 10 ** 9) is (TRUE if v else FALSE) and limits(x, outer, 0) is (FALSE if v else TRUE)]
        early = [1 for x, v in at if limits(x, outer, 0) is (TRUE if v else FALSE) and limits(x, outer, 10 ** 9) is (FALSE if v else TRUE)]
        if removed:
            sp.need("C26", late, key + ":draw", "a game without a winner ends before the round limit")
            sp.need("C26", same(removed), key + ":draw", "a draw changes the count of wins")
            record(sp, key, w.args[2], rp, slot, agg_none)
            return n, None, None, removed[0]
        sp.need("C26", early, key + ":limit", "a game without a winner goes on although the round limit may be reached")
        sp.need("C26", same(()), key + ":goes-on", "a game that goes on changes what is counted")
        return n, None, None, None
    if not sp.gate("C26", len(removed) == 1, key + ":ends", "a game with a winner goes on"): return
    first = None; ws = [None, None]
    def spec(ask):
        if ask(eq(win, num(side))): return 0
        if ask(eq(win, num(-side))): return 1
        return 2
    for f2, case in refine(f, spec):
        if case == 2:
            sp.need("C26", same(removed), key + ":drawn", "a drawn game changes the count of wins"); record(sp, key, w.args[2], rp, slot, agg_none)
            continue
        if not sp.gate("C26", len(inc) == 1 and same(removed + inc), key + ":count", "a game won by player %d changes %s" % (case + 1, [show(nx[P])[:60] for P in l.phis if nx[P] is not P and P is not lg])): return
        ws[case] = inc[0]
        record(sp, key, w.args[2], rp, slot, lambda v, pl=(p1, p2)[case]: v is field(pl, "player_type"))
    return n, ws[0], ws[1], removed[0]

def limits(x, outer, n):
    m = {P: num(n) for P in outer.phis if mentions(x, lambda z: z is P)}
    m[outer.k] = num(n); return subst(x, m)
def agg_none(v): return v.op == "agg" and v.args[0][2] == "None"
def record(sp, key, slot2, rp, slot, want):
    if rp is None: return
    v = field(at_path(slot2, rp[1:]), "winner")
    sp.need("C31", want(v), key + ":record:winner", "the winner recorded is %s" % show(v)[:100])
def facts_of(l): return Facts()

# ---------------------------------------------------------------- numbers of the games; single moves; weighted choice
def numbers(sp, prog):
    """a game answers with the number it was given"""
    from . import games, backgammon as bg
    for impl in ("TicTacToe", "Backgammon"):
        n = sym("number", "usize"); s = sym("state")
        r = Run(sp.c, prog, game(prog, impl, "set_id"), [mutref("self"), n], Facts(), {("g", "self"): s})
        for o in r.outs:
            sp.c.count("numbers")
            if not sp.gate("C26", o.kind == "ret", impl + ":set_id", "numbering a game stops when %s" % where(o)): continue
            m = o.st.mem[("g", "self")]
            sp.need("C26", m.op == "with" and m.args[0] is s and m.args[2] is n, impl + ":set_id", "numbering a game makes it %s" % show(m)[:120])
            q = Run(sp.c, prog, game(prog, impl, "get_id"), [m])
            for o2 in q.outs: sp.need("C26", o2.kind == "ret" and o2.val is n, impl + ":get_id", "a game numbered n answers %s" % (show(o2.val)[:80] if o2.kind == "ret" else "nothing"))

def single(sp, prog):
    """the move for one position"""
    me, S = sym("self"), sym("state"); key = "get_next_move_for_state"
    r = Run(sp.c, prog, fn(prog, "AlphaZero::get_next_move_for_state"), [me, S], opaque=OPQ, pure={PICK, SEARCH}, trusted=TR)
    pi = call(SEARCH, S, field(me, "model"), field(me, "mcts_config"))
    for o in r.outs:
        sp.c.count("single")
        if not sp.gate("C25", o.kind == "ret", key + ":panic", "choosing a move stops when %s" % where(o)): continue
        found = o.st.facts.ev(isv(pi, "Some", OPT))
        if not sp.gate("C25", found is not None, key + ":search", "a move is chosen without a search of the position"): continue
        if not found: sp.need("C25", is_empty_move(o.val), key + ":none", "without a legal move the move is %s" % show(o.val)[:120]); continue
        e = chosen(o.val, S, [proj(proj(pi, ("v", "Some")), ("f", "0"))], field(field(me, "config"), "temperature"))
        sp.need("C25", e is None, key + ":choice", e or "")

def weighted(sp, prog):
    """the code is drawn with the entries of the policy as weights"""
    pi = sym("pi"); key = "weighted_select_tensor_idx"
    r = Run(sp.c, prog, fn(prog, PICK), [pi], trusted=TR)
    n = 0
    for o in r.outs:
        if o.kind != "ret": continue
        n += 1; v = o.val
        ok = v.op == "call" and v.args[0] == "Distribution::sample"
        d = v.args[1] if ok else None
        while d is not None and d.op == "p": d = d.args[0]
        w = d.args[1] if d is not None and is_call(d, "WeightedIndex::new") else None
        while w is not None and w.op == "p": w = w.args[0]
        sp.need("C25", w is not None and ((is_call(w, "Tensor::iter") and w.args[1] is pi) or all_entries(w, pi)), key, "a code is drawn as %s" % show(v)[:160])
    sp.need("C25", n >= 1, key + ":never", "no code is ever drawn")
def all_entries(w, pi): return w.op == "call" and w.args[0] in ("Vec::try_from", "TryFrom::try_from", "TryInto::try_into") and w.args[1] is pi

def c25(sp, prog):
    agents(sp, prog, fn(prog, ACTIONS)); match(sp, prog, fn(prog, "versus::play")); single(sp, prog); weighted(sp, prog)
    sp.c.floor("agents", 3); sp.c.floor("paths", 6); sp.c.floor("single", 2)
def c26(c, prog):
    sp = Spec(c, "C26")
    agents(sp, prog, fn(prog, ACTIONS)); match(sp, prog, fn(prog, "versus::play")); numbers(sp, prog)
    c.floor("agents", 3); c.floor("paths", 6); c.floor("turns", 1); c.floor("numbers", 2)
