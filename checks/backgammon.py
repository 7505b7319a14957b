"""Rules of backgammon and its move codec: C01-C09."""
from .common import *

BG = "die_e::backgammon::backgammon_logic::Backgammon"

def pts(): return sym("pts")
def boardterm(p=None, bar=None, off=None):
    p = p or sym("pts")
    bar = bar or tup(sym("bar0"), sym("bar1")); off = off or tup(sym("off0"), sym("off1"))
    return tup(p, bar, off)
def domain(facts, board=None):
    for n in ("bar0", "bar1", "off0", "off1"):
        t = sym(n); TYPES.setdefault(t.uid, "u8"); facts._tight(t, 0, 15)
    return facts
def mine(pl, x): return scale(x, pl)               # number of the player's checkers is positive
def side(pl, pair): return proj(pair, ("f", "0" if pl == -1 else "1"))
def ix(v, i): return proj(v, ("i", i))
def fld(v, *fs):
    for f in fs: v = proj(v, ("f", str(f)))
    return v

# ------------------------------------------------------------------------------ C01
def step_spec(ask, B, fr, to, pl):
    """(values of the board at from, to, elsewhere; bar; off) after one legal step"""
    p, bar, off = fld(B, 0), fld(B, 1), fld(B, 2)
    b = [fld(bar, 0), fld(bar, 1)]; o = [fld(off, 0), fld(off, 1)]
    me = 0 if pl == -1 else 1; op = 1 - me
    frombar = ask(eq(fr, num(-1))); off_ = ask(eq(to, num(-1)))
    pf = pt = None
    if frombar: b[me] = sub(b[me], ONE)
    else: pf = sub(ix(p, fr), num(pl))
    if off_: o[me] = add(o[me], ONE)
    elif ask(eq(ix(p, to), num(-pl))): pt = num(pl); b[op] = add(b[op], ONE)
    else: pt = add(ix(p, to), num(pl))
    return pf, pt, b, o

def legal(B, fr, to, pl, me):
    """literals of a step that the generator may offer: (from, to) in range, an own checker at the origin, destination not blocked"""
    p = fld(B, 0)
    return band(le(num(-1), fr), le(fr, num(23)), le(num(-1), to), le(to, num(23)),
                bor(eq(fr, num(-1)), le(ONE, mine(pl, ix(p, fr)))),
                bor(eq(to, num(-1)), le(num(-1), mine(pl, ix(p, to)))),
                bor(bnot(eq(fr, num(-1))), le(ONE, fld(B, 1, me))),
                bor(bnot(eq(fr, num(-1))), bnot(eq(to, num(-1)))))

def c01(c, prog):
    body = fn(prog, "Backgammon::get_next_state")
    for pl in (-1, 1):
        f = domain(Facts())
        B = boardterm(); acts = sym("actions")
        r = Run(c, prog, body, [B, acts, num(pl)], f)
        for o in r.panics: c.viol("get_next_state:panic", "get_next_state stops when " + where(o))
        for o in r.rets:
            u = unfold(o.val)
            if not c.need(u is not None, "get_next_state:loop", "the result does not come from going through the steps: " + show(o.val)[:200]): continue
            at, inits, paths, bv, S, phs = u
            c.need(at is length(acts), "get_next_state:all-steps", "goes through %s of the steps, not all" % show(at))
            c.need(implied_eq(S(inits), B, o.st.facts), "get_next_state:start", "does not start from the given position but from " + show(S(inits))[:200])
            a = ix(acts, bv); fr, to = sym("from", "i8"), sym("to", "i8")
            ren = {fld(a, 0): fr, fld(a, 1): to, a: tup(fr, to)}
            H = S(phs)
            j = sym("j")
            for lits, nexts in paths:
                tm.DISTINCT.clear(); tm.DISTINCT.update({frozenset((fr, to)), frozenset((fr, j)), frozenset((to, j))})
                try:
                    g0 = with_facts(domain(Facts()), [(subst(l, ren), v) for l, v in lits])
                    if g0 is None: continue
                    N = subst(S(nexts), ren)
                    for g in all_cases(g0, legal(H, fr, to, pl, 0 if pl == -1 else 1)):
                        for h, (pf, pt, b, of) in refine(g, lambda ask: step_spec(ask, H, fr, to, pl)):
                            c.count("step_cases")
                            got = lambda t, e: implied_eq(t, e, h)
                            P = norm(fld(N, 0), h); HP = fld(H, 0)
                            k = "get_next_state:player%+d" % pl
                            msg = " when " + str(h)[:240]
                            fr_ = norm(fr, h); to_ = norm(to, h)
                            if pf is not None: c.need(got(ix(P, fr), pf), k + ":origin", "origin becomes %s, expected %s%s" % (show(ix(P, fr))[:120], show(pf), msg))
                            if pt is not None: c.need(got(ix(P, to), pt), k + ":destination", "destination becomes %s, expected %s%s" % (show(ix(P, to))[:120], show(pt), msg))
                            c.need(got(ix(P, j), ix(HP, j)), k + ":other-points", "another point changes: %s%s" % (show(P)[:160], msg))
                            for i in (0, 1):
                                c.need(got(fld(N, 1, i), b[i]), k + ":bar", "bar of side %d becomes %s, expected %s%s" % (i, show(fld(N, 1, i)), show(b[i]), msg))
                                c.need(got(fld(N, 2, i), of[i]), k + ":off", "borne-off count of side %d becomes %s, expected %s%s" % (i, show(fld(N, 2, i)), show(of[i]), msg))
                finally: tm.DISTINCT.clear()
    c.floor("step_cases", 10)

# ------------------------------------------------------------------------------ C02
def c02(c, prog):
    B = boardterm()
    o0, o1 = fld(B, 2, 0), fld(B, 2, 1)
    f = domain(Facts())
    won = lambda ask, pl: ask(eq(o0 if pl == -1 else o1, num(15)))
    for pl in (-1, 1):
        r = Run(c, prog, fn(prog, "Backgammon::check_win"), [B, num(pl)], f)
        compare(c, "check_win:%+d" % pl, r.outs, lambda ask, o: boolc(won(ask, pl)), what="check_win for player %+d" % pl)
    def spec(ask, o):
        a, b = won(ask, -1), won(ask, 1)
        if a and b: return None
        return some(num(-1)) if a else some(ONE) if b else NONE
    r = Run(c, prog, fn(prog, "Backgammon::check_win_without_player"), [B], f)
    compare(c, "check_win_without_player", r.outs, spec, what="check_win_without_player")
    s = struct(prog, BG, board=B, roll=tup(sym("r0"), sym("r1")), player=sym("player"), is_second_play=sym("second"), id=sym("id"))
    r = Run(c, prog, game(prog, "Backgammon", "check_winner"), [s], f)
    compare(c, "check_winner", r.outs, spec, what="check_winner")
    c.floor("cases", 10)

# ------------------------------------------------------------------------------ C03
START = [2, 0, 0, 0, 0, -5, 0, -3, 0, 0, 0, 5, -5, 0, 0, 0, 3, 0, 5, 0, 0, 0, 0, -2]
def die(t, key, c):
    """the draw a die comes from, if it is one to six inclusive; None otherwise"""
    if t.op == "call" and t.args[0] in ("Rng::gen_range", "Rng::random_range"):
        rg = t.args[2]
        if rg.op == "agg":
            nm = rg.args[0][1] if isinstance(rg.args[0], tuple) else ""
            lo, hi = rg.args[2][0], rg.args[2][1]
            incl = "RangeInclusive" in str(rg.args[0])
            if lo is ONE and hi is num(6 if incl else 7): return t
        elif rg.op == "call" and "RangeInclusive" in rg.args[0] and rg.args[1] is ONE and rg.args[2] is num(6): return t
    return None

def fresh_dice(c, key, roll, o, old):
    d0, d1 = fld(roll, 0), fld(roll, 1)
    ok = c.need(die(d0, key, c) is not None and die(d1, key, c) is not None, key + ":range", "the dice are %s and %s, not two draws from one to six" % (show(d0)[:120], show(d1)[:120]))
    if ok: c.need(d0 is not d1, key + ":independent", "both dice come from the same draw")

def bgstate(prog, board=None):
    TYPES.setdefault(sym("r0").uid, "u8"); TYPES.setdefault(sym("r1").uid, "u8")
    return struct(prog, BG, board=board or boardterm(), roll=tup(sym("r0"), sym("r1")), player=sym("player"), is_second_play=sym("second"), id=sym("id"))

def fields(prog, v): return {n: proj(v, ("f", n)) for n in ("board", "roll", "player", "is_second_play", "id")}

def c03(c, prog):
    base = lambda: domain(Facts())
    pre = bgstate(prog); P = fields(prog, pre)
    acts = sym("actions")
    def after(o): return fields(prog, o.st.mem[("g", "self")])
    def passed(key, o, f, board):
        a = after(o)
        c.need(implied_eq(a["player"], neg(P["player"]), f), key + ":player", "the player to move becomes %s when %s" % (show(a["player"]), str(f)[:200]))
        c.need(implied_eq(a["is_second_play"], FALSE, f), key + ":second-play", "the second-play mark becomes %s when %s" % (show(a["is_second_play"]), str(f)[:200]))
        c.need(implied_eq(a["board"], board, f), key + ":board", "the board becomes %s when %s" % (show(a["board"])[:160], str(f)[:200]))
        c.need(implied_eq(a["id"], P["id"], f), key + ":id", "the game's id changes")
        fresh_dice(c, key + ":dice", norm(a["roll"], f), o, P["roll"])
    gns = "Backgammon::get_next_state"
    nb = mk("call", gns, P["board"], acts, P["player"])
    b = game(prog, "Backgammon", "apply_move")
    r = Run(c, prog, b, [mutref("self"), acts], base(), {("g", "self"): pre}, opaque={gns}, pure={gns})
    for o in r.outs:
        def spec(ask): return bool(ask(eq(sym("r0"), sym("r1")))) and not ask(sym("second"))
        for f, again in refine(o.st.facts, spec):
            c.count("cases")
            if o.kind != "ret": c.viol("apply_move:panic", "apply_move stops when " + str(f)[:200]); continue
            a = after(o)
            if again:
                k = "apply_move:double"
                c.need(implied_eq(a["board"], nb, f), k + ":board", "the board becomes %s" % show(a["board"])[:160])
                c.need(implied_eq(a["player"], P["player"], f), k + ":player", "a double does not leave the same player to move: " + show(a["player"]))
                c.need(implied_eq(a["roll"], P["roll"], f), k + ":roll", "a double does not keep the dice: " + show(a["roll"])[:160])
                c.need(implied_eq(a["is_second_play"], TRUE, f), k + ":second-play", "the second play of a double is not marked: " + show(a["is_second_play"]))
                c.need(implied_eq(a["id"], P["id"], f), k + ":id", "the game's id changes")
            else: passed("apply_move:pass", o, f, nb)
    r = Run(c, prog, game(prog, "Backgammon", "skip_turn"), [mutref("self")], base(), {("g", "self"): pre})
    for o in r.outs:
        c.count("cases")
        if c.need(o.kind == "ret", "skip_turn:panic", "skip_turn stops when " + where(o)): passed("skip_turn", o, o.st.facts, P["board"])
    r = Run(c, prog, game(prog, "Backgammon", "roll_die"), [mutref("self")], base(), {("g", "self"): pre})
    for o in r.outs:
        c.count("cases")
        if not c.need(o.kind == "ret", "roll_die:panic", "roll_die stops"): continue
        a = after(o)
        fresh_dice(c, "roll_die", a["roll"], o, P["roll"])
        c.need(implied_eq(o.val, a["roll"], o.st.facts), "roll_die:returns", "roll_die returns %s but stores %s" % (show(o.val)[:100], show(a["roll"])[:100]))
        for n in ("board", "player", "is_second_play", "id"): c.need(implied_eq(a[n], P[n], o.st.facts), "roll_die:" + n, "rolling changes " + n)
    start = tup(vec(*[num(x) for x in START]), tup(ZERO, ZERO), tup(ZERO, ZERO))
    for key, b in (("new", game(prog, "Backgammon", "new")), ("get_initial_state", fn(prog, "Backgammon::get_initial_state"))):
        r = Run(c, prog, b, [], base())
        for o in r.outs:
            c.count("cases")
            if not c.need(o.kind == "ret", key + ":panic", key + " stops"): continue
            bd = o.val if key != "new" else proj(o.val, ("f", "board"))
            c.need(implied_eq(bd, start, o.st.facts), key + ":position", "the game starts from %s" % show(bd)[:300])
            if key == "new":
                c.need(proj(o.val, ("f", "roll")) is tup(ZERO, ZERO), "new:roll", "a new game has dice %s" % show(proj(o.val, ("f", "roll"))))
                c.need(proj(o.val, ("f", "is_second_play")) is FALSE, "new:second-play", "a new game starts as a second play")
                p = proj(o.val, ("f", "player"))
                c.need(p in (ONE, num(-1)), "new:player", "the player of a new game is " + show(p))
    c.floor("cases", 7)

# ------------------------------------------------------------------------------ C04-C07: generation of steps
GEN = {"Backgammon::get_normal_moves", "Backgammon::get_entry_moves", "Backgammon::get_next_state"}
P24 = [sym("p%d" % i, "i8") for i in range(24)]
def genboard(): return boardterm(vec(*P24))
def gendomain():
    f = domain(Facts())
    for x in P24: f._tight(x, -15, 15)
    return f
def ownbar(pl): return sym("bar0" if pl == -1 else "bar1")

def index_atoms(formula):
    """terms S[k] with a loop variable k and a sequence S that can be listed"""
    return [t for t in subterms(formula) if t.op == "p" and t.args[1][0] == "i" and t.args[1][1].op == "k"]

def generated(c, prog, key, body, pl, dice, given):
    """[(env, [(guard, node)])] for every value of the dice; unreachable stops are proved so"""
    B = genboard(); f = gendomain()
    ms = [sym("m%d" % (i + 1), "u8") for i in range(dice)]
    for m in ms: f._tight(m, 1, 6)
    f.add(given, True, False)
    r = Run(c, prog, body, [vec(*ms), B, num(pl)], f, opaque=GEN, pure=GEN)
    dom = {x: (-15, 15) for x in P24}
    res = []
    envs = [{}]
    for m in ms: envs = [dict(e, **{m.args[0]: v}) for e in envs for v in range(1, 7)]
    for e in envs:
        env = {m: num(e[m.args[0]]) for m in ms}
        out = []
        bdd = BDD(dom)
        g0 = given
        for o in r.outs:
            cond = subst(cond_of(o.st.facts.lits), env)
            if cond is FALSE: continue
            if o.kind != "ret":
                if reachable(cond, bdd, g0): c.viol(key + ":panic", "%s stops (%s) for dice %s of player %+d when %s" % (body.name, show(o.val), list(e.values()), pl, where(o)))
                continue
            for cond2, val in expand_firsts(cond, subst(o.val, env), within="the row's condition"):
                for g, x in ground(val):
                    for g2, x2 in spread(band(cond2, g), x):
                        if g2 is not FALSE: out.append((g2, x2))
        c.count("dice_cases")
        res.append((list(e.values()), out, bdd))
    return res, B

def spread(g, node):
    """a node whose children depend on a condition, case by case"""
    if g is FALSE: return []
    if node.op == "ite":
        q, a, b = node.args
        return spread(band(g, q), a) + spread(band(g, bnot(q)), b)
    ch = proj(node, ("f", "children"))
    if ch.op != "ite" or node.op != "agg": return [(g, node)]
    q, a, b = ch.args
    def put(x): return mk_with(node, ("f", "children"), x) 
    return spread(band(g, q), put(a)) + spread(band(g, bnot(q)), put(b))

def reachable(cond, bdd, given):
    at = index_atoms(cond)
    if at:
        S = at[0].args[0]; k = at[0].args[1][1]
        try: els = ground(S)
        except NotFinite: return True
        for g, x in els:
            c2 = subst(cond, {at[0]: x})
            # the position inside the list is in range by construction
            c2 = subst(c2, {l: TRUE for l in subterms(c2) if l.op == "le" and mentions(l, lambda z: z is k)})
            if reachable(band(c2, g), bdd, given): return True
        return False
    if any(t.op == "k" for t in subterms(cond)): return bdd.sat(band(cond, given))
    return bdd.sat(band(cond, given))

def value_of(node):
    v = proj(node, ("f", "value"))
    a, b = fld(v, 0), fld(v, 1)
    if a.op != "num" or b.op != "num": raise NotFinite("step " + show(v)[:200])
    return a.args[0], b.args[0]

def rest_of(node):
    ch = proj(node, ("f", "children"))
    if ch.op == "call" and len(ch.args) >= 3:
        mv = ch.args[1]
        if mv.op == "vec" and all(x.op == "num" for x in mv.args): return tuple(x.args[0] for x in mv.args)
    return None

def spec_normal(pl, m, fr, to):
    if to - fr != pl * m or not (0 <= to <= 23) or not (0 <= fr <= 23): return FALSE
    return band(le(ONE, mine(pl, P24[fr])), le(num(-1), mine(pl, P24[to])))
def spec_enter(pl, m, fr, to):
    if fr != -1 or to != (24 - m if pl == -1 else m - 1): return FALSE
    return le(num(-1), mine(pl, P24[to]))
def spec_off(pl, m, fr, to):
    if to != -1 or fr == -1: return FALSE
    own = lambda i: le(ONE, mine(pl, P24[i]))
    home = range(0, 6) if pl == -1 else range(18, 24)
    if fr not in home: return FALSE
    out = band(*[bnot(own(i)) for i in range(24) if i not in home])
    dist = fr + 1 if pl == -1 else 24 - fr
    if dist > m: return FALSE
    if dist == m: return band(out, own(fr))
    far = range(fr + 1, 6) if pl == -1 else range(18, fr)
    return band(out, own(fr), *[bnot(own(i)) for i in far])

def compare_steps(c, key, prog, name, given, spec, keep, what):
    body = fn(prog, name)
    for pl in (-1, 1):
        gv = given(pl)
        for dice in (1, 2):
            res, B = generated(c, prog, key, body, pl, dice, gv)
            for ds, els, bdd in res:
                got = {}
                for g, x in els:
                    v = value_of(x)
                    if not keep(v): continue
                    rest = rest_of(x)
                    if dice == 2 and rest is None: raise NotFinite("remaining dice of " + show(x)[:200])
                    got.setdefault((v, rest if dice == 2 else ()), []).append(g)
                cands = set(got)
                for m in set(ds):
                    rest = tuple(x for i, x in enumerate(ds) if i != ds.index(m)) if dice == 2 else ()
                    for fr in range(-1, 24):
                        for to in range(-1, 24):
                            if spec(pl, m, fr, to) is not FALSE: cands.add(((fr, to), rest))
                for (v, rest) in sorted(cands):
                    exp = bor(*[spec(pl, m, *v) for m in set(ds) if dice == 1 or tuple(x for i, x in enumerate(ds) if i != ds.index(m)) == rest])
                    # alternatives that only differ in the kind of the following steps
                    have = bor(*got.get((v, rest), []))
                    have = drop_next(have)
                    c.count("step_obligations")
                    if not bdd.equal(have, exp, gv):
                        c.viol("%s:player%+d" % (key, pl), "%s: player %+d with dice %s: step %s%s: offered when %s although the rule says otherwise (or the reverse)" % (what, pl, ds, v, " leaving %s" % (rest,) if dice == 2 else "", bdd.witness(have, exp, gv)[:300]))
                        break

def drop_next(f):
    """forget the literals about the position after the step (they only choose how the next step is generated)"""
    nx = [t for t in subterms(f) if t.op in ("le", "eqc") and mentions(t, lambda z: z.op == "call" and z.args[0] == "Backgammon::get_next_state")]
    for t in nx: f = bor(subst(f, {t: TRUE}), subst(f, {t: FALSE}))
    return f

def c04(c, prog):
    compare_steps(c, "normal", prog, "Backgammon::get_normal_moves", lambda pl: eq(ownbar(pl), ZERO), spec_normal, lambda v: v[0] != -1 and v[1] != -1, "ordinary steps")
    c.floor("step_obligations", 800); c.floor("dice_cases", 84)
def c05(c, prog):
    compare_steps(c, "enter", prog, "Backgammon::get_entry_moves", lambda pl: le(ONE, ownbar(pl)), spec_enter, lambda v: True, "entering steps")
    c.floor("step_obligations", 100); c.floor("dice_cases", 84)
    dispatch(c, prog)
def c06(c, prog):
    compare_steps(c, "bear-off", prog, "Backgammon::get_normal_moves", lambda pl: eq(ownbar(pl), ZERO), spec_off, lambda v: v[1] == -1 or v[0] == -1, "bearing off")
    may_bear_off(c, prog)
    c.floor("step_obligations", 250); c.floor("dice_cases", 84)

def may_bear_off(c, prog):
    """the question whether a player may bear off, on every position (with checkers on the bar as well)"""
    body = fn(prog, "Backgammon::is_collectible")
    def boolterm(v):
        return bor(band(v.args[0], boolterm(v.args[1])), band(bnot(v.args[0]), boolterm(v.args[2]))) if v.op == "ite" else v
    dom = {x: (-15, 15) for x in P24}
    dom.update({ownbar(-1): (0, 15), ownbar(1): (0, 15)})
    for pl in (-1, 1):
        r = Run(c, prog, body, [genboard(), num(pl)], gendomain())
        bdd = BDD(dict(dom))
        have = FALSE
        for o in r.outs:
            cond = cond_of(o.st.facts.lits)
            if o.kind != "ret":
                c.need(not reachable(cond, bdd, TRUE), "may-bear-off:panic", "is_collectible stops (%s) for player %+d when %s" % (show(o.val), pl, where(o)))
            elif reachable(cond, bdd, TRUE):
                have = bor(have, band(cond, boolterm(o.val)))
        own = lambda i: le(ONE, mine(pl, P24[i]))
        home = range(0, 6) if pl == -1 else range(18, 24)
        want = band(le(ownbar(pl), ZERO), *[bnot(own(i)) for i in range(24) if i not in home])
        c.count("may_bear_off_positions")
        c.need(bdd.equal(have, want, TRUE), "may-bear-off:player%+d" % pl, "is_collectible for player %+d is not 'no checker on the bar and none outside the home board'" % pl)

ENTRY, NORMAL, GNS = "Backgammon::get_entry_moves", "Backgammon::get_normal_moves", "Backgammon::get_next_state"
EXTRACT, DEDUP = "Backgammon::extract_sequences_list", "Backgammon::remove_duplicate_states"

def valid_moves_rows(c, prog):
    ops = GEN | {EXTRACT, DEDUP}
    for pl in (-1, 1):
        f = gendomain()
        s = bgstate(prog, genboard())
        s = put(s, (("f", "player"),), num(pl))
        for n in ("r0", "r1"): f._tight(sym(n, "u8"), 0, 6)
        r = Run(c, prog, game(prog, "Backgammon", "get_valid_moves"), [s], f, opaque=ops, pure=ops)
        yield pl, s, r

def gen_call(t):
    """a generator call inside a term: (name, dice, board, player)"""
    l = [x for x in subterms(t) if x.op == "call" and x.args[0] in (ENTRY, NORMAL)]
    return l

def dispatch(c, prog):
    """entering steps are generated exactly when the mover has a checker on the bar, at the first and at every later step"""
    for pl, s, r in valid_moves_rows(c, prog):
        for o in r.rets:
            for g in gen_call(o.val):
                for f, bar in refine(o.st.facts, lambda ask: ask(le(ONE, ownbar(pl)))):
                    c.count("dispatch_obligations")
                    c.need((g.args[0] == ENTRY) == bar, "dispatch:first:player%+d" % pl, "with %s checker on the bar the first step comes from %s" % ("a" if bar else "no", g.args[0]))
    for name, given in ((ENTRY, lambda pl: le(ONE, ownbar(pl))), (NORMAL, lambda pl: eq(ownbar(pl), ZERO))):
        for pl in (-1, 1):
            res, B = generated(c, prog, "dispatch", fn(prog, name), pl, 2, given(pl))
            for ds, els, bdd in res[:8]:
                for g, x in els:
                    ch = proj(x, ("f", "children"))
                    if ch.op == "vec" and not ch.args: continue
                    if not c.need(ch.op == "call" and ch.args[0] in (ENTRY, NORMAL), "dispatch:later", "the steps after %s come from %s" % (value_of(x), show(ch)[:200])): continue
                    nb = side(pl, fld(ch.args[2], 1))
                    TYPES.setdefault(nb.uid, "u8")
                    c.count("dispatch_obligations")
                    want = le(ONE, nb) if ch.args[0] == ENTRY else le(nb, ZERO)
                    bdd.dom[nb] = (0, 15)
                    c.need(not bdd.sat(band(g, given(pl), bnot(want))), "dispatch:later:%s:player%+d" % (name.split("::")[1], pl), "after step %s the next ones come from %s although the bar says otherwise (%s)" % (value_of(x), ch.args[0], show(g)[-200:]))
    c.floor("dispatch_obligations", 40)

# ------------------------------------------------------------------------------ C07
def c07(c, prog):
    r0, r1 = sym("r0", "u8"), sym("r1", "u8")
    for pl, s, r in valid_moves_rows(c, prog):
        B = proj(s, ("f", "board"))
        for o in r.outs:
            for f, (zero, hi) in refine(o.st.facts, lambda ask: (ask(eq(r0, ZERO)) and ask(eq(r1, ZERO)), not ask(le(r0, r1)))):
                c.count("cases")
                if zero: c.need(o.kind == "panic", "get_valid_moves:unrolled", "moves are generated although no dice have been rolled"); continue
                if not c.need(o.kind == "ret", "get_valid_moves:panic", "get_valid_moves stops when " + str(f)[:200]): continue
                gs = gen_call(o.val)
                if not c.need(len(gs) == 1, "get_valid_moves:source", "the moves come from " + show(o.val)[:200]): continue
                g = gs[0]
                exp = mk("call", DEDUP, B, mk("call", EXTRACT, g), num(pl))
                c.need(implied_eq(o.val, exp, f), "get_valid_moves:all", "the moves offered are %s, not all sequences of the generated steps" % show(o.val)[:200])
                want = vec(r0, r1) if hi else vec(r1, r0)
                c.need(implied_eq(g.args[1], want, f), "get_valid_moves:dice", "the dice to play are %s when %s, expected the higher one first" % (show(g.args[1]), str(f)[:160]))
                c.need(implied_eq(g.args[2], B, f) and implied_eq(g.args[3], num(pl), f), "get_valid_moves:position", "steps are generated for another position or player")
    for name, given in ((ENTRY, lambda pl: le(ONE, ownbar(pl))), (NORMAL, lambda pl: eq(ownbar(pl), ZERO))):
        for pl in (-1, 1):
            specs = (spec_enter,) if name == ENTRY else (spec_normal, spec_off)
            for dice in (1, 2):
                res, B = generated(c, prog, "children", fn(prog, name), pl, dice, given(pl))
                for ds, els, bdd in res:
                    for g, x in els:
                        v = value_of(x); ch = proj(x, ("f", "children"))
                        key = "children:%s:player%+d" % (name.split("::")[1], pl)
                        c.count("child_obligations")
                        rest = rest_of(x)
                        if ch.op == "vec" and not ch.args:
                            c.need(dice == 1, key + ":stops", "no further step is generated after %s although a die is left" % (v,)); continue
                        if not c.need(ch.op == "call" and ch.args[0] in (ENTRY, NORMAL) and rest is not None, key + ":shape", "the steps after %s are %s" % (v, show(ch)[:200])): continue
                        left = list(ds)
                        used = None
                        for m in ds:
                            l2 = list(ds); l2.remove(m)
                            if tuple(l2) == rest: used = m
                        if not c.need(used is not None, key + ":dice", "after step %s with dice %s the dice left are %s" % (v, ds, rest)): continue
                        c.need(any(sp(pl, used, *v) is not FALSE for sp in specs), key + ":die", "step %s of dice %s leaves %s: the die taken away is not the one played" % (v, ds, rest))
                        c.need(ch.args[2] is mk("call", GNS, B, vec(tup(num(v[0]), num(v[1]))), num(pl)), key + ":position", "the steps after %s are generated in %s" % (v, show(ch.args[2])[-200:]))
                        c.need(ch.args[3] is num(pl), key + ":player", "the steps after %s are generated for player %s" % (v, show(ch.args[3])))
    # sequences: a leaf ends the sequence, any other node is followed by each of its children
    lst = sym("list")
    b = fn(prog, EXTRACT)
    r = Run(c, prog, b, [lst], Facts())
    recs = {}
    for o in r.outs:
        c.count("cases")
        if not c.need(o.kind == "ret", "extract:panic", "extracting the sequences stops when " + where(o)): continue
        def f(elem, seq=vec()): return elem
        seq_flat(c, "extract:list", o.val, lst, lambda n: vec(), recs)
    done = set()
    while set(recs) - done:
        nm = sorted(set(recs) - done)[0]; done.add(nm)
        body = fn(prog, nm[0])
        ni, si = nm[1], nm[2]
        node, cur = sym("node"), sym("sequence")
        args = [None] * body.argc
        args[ni] = node
        if si is not None: args[si] = cur
        for i in range(body.argc):
            if args[i] is None: args[i] = sym("x%d" % i)
        r = Run(c, prog, body, args, Facts())
        start = cur if si is not None else vec()
        kids_ = proj(node, ("f", "children")); seq = push(start, proj(node, ("f", "value")))
        for o in r.outs:
            for f, leaf in refine(o.st.facts, lambda ask: ask(eq(length(kids_), ZERO))):
                c.count("cases")
                if not c.need(o.kind == "ret", "extract:panic", "extracting the sequences stops"): continue
                if leaf: c.need(implied_eq(norm(o.val, f), vec(seq), f) , "extract:leaf", "a last step yields %s" % show(o.val)[:200])
                else: seq_flat(c, "extract:node", o.val, kids_, lambda n: seq, recs)
    c.floor("cases", 12); c.floor("child_obligations", 1000)

def seq_flat(c, key, val, nodes, prefix, recs):
    """val lists, for every node of `nodes` in turn, the sequences that start with prefix(node) and go on with that node"""
    ok = val.op == "comp" and val.args[0] is length(nodes)
    if not c.need(ok, key + ":all", "the sequences are %s, not those of every node" % show(val)[:200]): return
    n, alts, b = val.args
    node = ix(nodes, b); ch = proj(node, ("f", "children")); seq = push(prefix(node), proj(node, ("f", "value")))
    leaf = eq(length(ch), ZERO)
    seen = []
    for conds, ps in alts:
        cd = band(*conds); c.count("sequence_alternatives")
        if not c.need(len(ps) == 1, key + ":once", "a node yields %s" % show(val)[:200]): continue
        tag, x = ps[0]
        if tag == "s" and x.op == "vec" and len(x.args) == 1: tag, x = "e", x.args[0]
        if tag == "e":
            c.need(cd is leaf and x is seq, key + ":leaf", "a sequence ends with %s when %s" % (show(x)[:160], show(cd)[:160])); seen.append(cd)
        elif x.op == "comp":
            inner = vec()
            seen.append(cd)
            c.need(cd is bnot(leaf), key + ":inner", "a node is followed by its children when %s" % show(cd)[:160])
            seq_flat(c, key + ":children", x, ch, lambda n2: seq, recs)
        elif x.op == "call" and x.args[0].startswith("rec:") or x.op == "call" and x.args[0] in ("Backgammon::extract_sequences_node",):
            nm = x.args[0].replace("rec:", "")
            ni = [i for i, a in enumerate(x.args[1:]) if a is node]
            si = [i for i, a in enumerate(x.args[1:]) if a is prefix(node)]
            c.need(len(ni) == 1 and (si or prefix(node) is vec()), key + ":call", "the sequences after a step come from %s" % show(x)[:200])
            if ni: recs[(nm, ni[0], si[0] if si else None)] = 1
            seen.append(cd)
        else: c.viol(key + ":shape", "a node yields %s" % show(x)[:200])
    c.need(bor(*seen) is TRUE, key + ":every", "some nodes yield no sequence")

# ------------------------------------------------------------------------------ C08
def c08(c, prog):
    init, seqs = sym("initial_state"), sym("sequences")
    for pl in (-1, 1):
        r = Run(c, prog, fn(prog, DEDUP), [init, seqs, num(pl)], Facts(), opaque={GNS}, pure={GNS})
        key = "remove_duplicate_states"
        for o in r.outs:
            if not c.need(o.kind == "ret", key + ":panic", "it stops when " + where(o)): continue
            u = unfold(o.val)
            if not c.need(u is not None and o.val.op == "fold", key + ":shape", "the list kept is %s" % show(o.val)[:200]): continue
            at, inits, paths, bv, S, phs = u
            ui = o.val.args[1]
            c.need(at is length(seqs), key + ":all", "looks at %s of the moves" % show(at))
            c.need(inits[ui] is vec(), key + ":start", "starts with %s" % show(inits[ui]))
            cur = ix(seqs, bv)
            b1 = mk("bv", 1); TYPES.setdefault(b1.uid, "usize")
            finals = {mk("call", GNS, init, cur, num(pl)),
                      mk("fold", length(cur), 0, (init,), (((), (mk("call", GNS, mk("ph", 1, 0), vec(ix(cur, b1)), num(pl)),)),), b1)}
            keep = drop = 0
            for lits, nexts in paths:
                c.count("paths")
                seen = [(l, v) for l, v in lits if l.op == "has" or l.op == "any"]
                rest = [(l, v) for l, v in lits if (l, v) not in seen]
                if not c.need(len(seen) == 1 and not rest, key + ":condition", "a move is kept or dropped depending on %s" % show(cond_of(lits))[:240]): continue
                l, v = seen[0]
                si, X = member(l, phs)
                if not c.need(si is not None and X in finals, key + ":compares", "a move is compared by %s, not by the whole position it leads to" % show(l)[:240]): continue
                c.need(inits[si] is vec(), key + ":seen-start", "starts with positions already seen")
                if v:
                    drop += 1
                    c.need(all(n is p for n, p in zip(nexts, phs)), key + ":drop", "a move to a position already reached changes %s" % ", ".join(show(n)[:80] for n, p in zip(nexts, phs) if n is not p))
                else:
                    keep += 1
                    c.need(nexts[ui] is push(phs[ui], cur), key + ":keep", "a move to a new position makes the list %s" % show(nexts[ui])[:160])
                    c.need(nexts[si] in {push(phs[si], x) for x in finals}, key + ":remember", "after a kept move the positions seen are %s" % show(nexts[si])[:200])
            c.need(keep == 1 and drop == 1, key + ":paths", "%d ways to keep and %d to drop a move" % (keep, drop))
    for pl, s, r in valid_moves_rows(c, prog):
        for o in r.rets:
            c.need(o.val.op == "call" and o.val.args[0] == DEDUP and o.val.args[1] is proj(s, ("f", "board")) and o.val.args[3] is num(pl), "get_valid_moves:dedup", "the moves offered are %s" % show(o.val)[:160])
    c.floor("paths", 4)

def member(l, phs):
    """(index of the loop variable holding the set, element) of a membership literal"""
    if l.op == "has":
        return (phs.index(l.args[0]) if l.args[0] in phs else None), l.args[1]
    n, cond, b = l.args
    for i, p in enumerate(phs):
        if n is length(p):
            e = ix(p, b)
            for X in subterms(cond):
                if X is not e and (eq(e, X) is cond or eq(X, e) is cond): return i, X
    return None, None

# ------------------------------------------------------------------------------ C09
def codec_bodies(prog, which):
    a = [("trait", game(prog, "Backgammon", which))]
    for p, b in prog.bodies.items():
        if p.endswith("::" + which) and not p.startswith("<") and mir.short(p) == "Backgammon::" + which: a.append(("inherent", b))
    return a

def step_cases(pl, kind, die, n, f):
    """(from, to, minimum distance) of a step of the given kind played with the die"""
    if kind == "bar": return num(-1), (sub(num(24), die) if pl == -1 else sub(die, ONE)), die
    o = sym("origin%d" % n, "i8")
    if kind == "point":
        f._tight(o, 0, 23)
        to = add(o, scale(die, pl))
        return o, to, die
    lo, hi = (0, 5) if pl == -1 else (18, 23)
    f._tight(o, lo, hi)
    return o, num(-1), (add(o, ONE) if pl == -1 else sub(num(24), o))

def digit(fr): return num(24) if fr is num(-1) else fr

def c09(c, prog):
    enc = codec_bodies(prog, "encode"); dec = codec_bodies(prog, "decode")
    c.need(len(enc) >= 1, "encode:missing"); c.count("codec_copies", len(enc) + len(dec))
    kinds = ("point", "bar", "off")
    cases = []
    for pl in (-1, 1):
        cases.append((pl, ()))
        for k1 in kinds:
            cases.append((pl, (k1,)))
            for k2 in kinds: cases.append((pl, (k1, k2)))
    lo, hi = sym("low", "u8"), sym("high", "u8")
    for pl, ks in cases:
        for swap in (False, True):
            for lowfirst in ((False, True) if ks else (False,)):
                for double in (False, True):
                    if double and lowfirst: continue
                    f = domain(Facts())
                    f._tight(lo, 1, 6); f._tight(hi, 1, 6)
                    L = hi if double else lo
                    if not double: f.add(lt(lo, hi), True, False)
                    s = bgstate(prog)
                    s = put(put(s, (("f", "roll"),), tup(L, hi) if swap else tup(hi, L)), (("f", "player"),), num(pl))
                    ds = [L, hi] if lowfirst else [hi, L]
                    steps = []; okf = True
                    for n, k in enumerate(ks):
                        fr, to, e = step_cases(pl, k, ds[n], n, f)
                        if k == "point": okf &= f.add(le(ZERO, to), True, False) and f.add(le(to, num(23)), True, False)
                        if k == "off": okf &= f.add(le(e, ds[n]), True, False)
                        steps.append((k, fr, to, e))
                    acts = vec(*[tup(fr, to) for _, fr, to, _ in steps])
                    if not steps: exp = num(1351)
                    else:
                        exp = add(digit(steps[0][1]), scale(digit(steps[1][1]) if len(steps) == 2 else num(25), 26))
                    first = None
                    for cp, body in enc:
                        key = "encode:" + cp
                        r = Run(c, prog, body, [s, acts], f, unroll=3)
                        for o in r.outs:
                            def fits(ask):
                                """which orders of the dice are possible for these steps: (lower first, higher first)"""
                                lf = hf = True
                                for n, (k, fr, to, e) in enumerate(steps):
                                    for low_is_first in (True, False):
                                        d = (L, hi)[n] if low_is_first else (hi, L)[n]
                                        good = double or ask(le(e, d) if k == "off" else eq(e, d))
                                        if low_is_first: lf = lf and good
                                        else: hf = hf and good
                                return lf, hf
                            for g, (lf, hf) in refine(o.st.facts, fits):
                                c.count("encode_cases")
                                d = "player %+d, steps %s, dice %s%s: " % (pl, list(ks), "equal" if double else "lower first" if lowfirst else "higher first", " (%s)" % str(g)[:200])
                                if not c.need(o.kind == "ret", key + ":panic", d + "encoding stops"): continue
                                good = (hf or not ks) and implied_eq(o.val, exp, g) or lf and ks and implied_eq(o.val, add(exp, num(676)), g)
                                c.need(good, key + ":code", d + "the code is %s, expected %s%s" % (show(norm(o.val, g))[:160], show(exp), " plus 676" if lf and not hf and ks else ""))
                            if cp == enc[0][0] and len(enc) > 1 and o.kind == "ret":
                                r2 = Run(c, prog, enc[1][1], [s, acts], o.st.facts, unroll=3)
                                for o2 in r2.outs:
                                    c.count("agreement_cases")
                                    c.need(o2.kind == "ret" and implied_eq(o2.val, o.val, o2.st.facts), "encode:copies", "the two copies of encode differ: %s and %s for player %+d, steps %s when %s" % (show(norm(o.val, o2.st.facts))[:120], show(norm(o2.val, o2.st.facts))[:120] if isinstance(o2.val, T) else o2.kind, pl, list(ks), str(o2.st.facts)[:200]))
    # decoding
    act = sym("action", "u32"); r0, r1 = sym("r0", "u8"), sym("r1", "u8")
    for pl in (-1, 1):
        f = domain(Facts())
        for t in (r0, r1): f._tight(t, 1, 6)
        f._tight(act, 0, 1351)
        s = put(bgstate(prog), (("f", "player"),), num(pl))
        def spec(ask, o):
            if ask(eq(act, num(1351))): return vec()
            hf = ask(le(act, num(675)))
            a = act if hf else sub(act, num(676))
            h, l = (r1, r0) if ask(le(r0, r1)) else (r0, r1)
            d = (h, l) if hf else (l, h)
            def one(x, die):
                bar = ask(eq(x, num(24)))
                start = (num(24) if pl == -1 else num(-1)) if bar else x
                to = add(start, scale(die, pl))
                if ask(le(to, num(-1))) or not ask(le(to, num(23))): to = num(-1)
                return tup(num(-1) if bar else x, to)
            x1, x2 = irem(a, num(26)), idiv(a, num(26))
            s1 = one(x1, d[0])
            if ask(eq(x2, num(25))): return vec(s1)
            return vec(s1, one(x2, d[1]))
        for cp, body in dec:
            r = Run(c, prog, body, [s, act], f, unroll=3)
            compare(c, "decode:%s:player%+d" % (cp, pl), r.outs, spec, what="decode (%s copy) for player %+d" % (cp, pl))
    # the code space
    sz = cval(prog, "Backgammon", "ACTION_SPACE_SIZE")
    c.need(str(const_int(sz)) == "1352", "action-space", "the action space has %s entries, the codes go up to 1351" % const_int(sz))
    c.floor("encode_cases", 60); c.floor("cases", 20)

def const_int(v):
    if isinstance(v, (int, str)): return int(v)
    if isinstance(v, list):
        for x in reversed(v):
            try: return const_int(x)
            except Exception: pass
    if isinstance(v, dict): return const_int(list(v.values()))
    raise NotFound("constant %r" % (v,))

# ------------------------------------------------------------------------------ C40
def by_dice(facts, dice):
    """can the facts hold for some value of the dice and the first origin?"""
    lits = list(facts.lits); o0, o1 = sym("origin0", "i8"), sym("origin1", "i8")
    for a in range(1, 7):
        for b in range(1, 7):
            m = {dice[0]: num(a), dice[1]: num(b)}
            here = [(subst(l, m), v) for l, v in lits]
            if any(l is (FALSE if v else TRUE) for l, v in here): continue
            for x in range(24):
                f = Facts(); f._tight(o1, 0, 23)
                if all(f.add(subst(l, {o0: num(x)}), v) for l, v in here): return True
    return False

def c40(c, prog):
    """decoding after encoding, on every move whose steps fit the dice in some order (C04-C07: every offered move does)"""
    enc = dict(codec_bodies(prog, "encode")); dec = dict(codec_bodies(prog, "decode"))
    kinds = ("point", "bar", "off")
    lo, hi = sym("low", "u8"), sym("high", "u8")
    for cp in enc:
        if not c.need(cp in dec, "codec:" + cp, "there is no decoding to the %s encoding" % cp): continue
        for pl in (-1, 1):
            for ks in [()] + [(a,) for a in kinds] + [(a, b) for a in kinds for b in kinds]:
                for swap in (False, True):
                    for lowfirst in ((False, True) if ks else (False,)):
                        for double in ((False,) if lowfirst else (False, True)):
                            f = domain(Facts())
                            f._tight(lo, 1, 6); f._tight(hi, 1, 6)
                            L = hi if double else lo
                            if not double: f.add(lt(lo, hi), True)
                            s = bgstate(prog)
                            s = put(put(s, (("f", "roll"),), tup(L, hi) if swap else tup(hi, L)), (("f", "player"),), num(pl))
                            ds = [L, hi] if lowfirst else [hi, L]
                            steps = []
                            for n, k in enumerate(ks):
                                fr, to, e = step_cases(pl, k, ds[n], n, f)
                                if k == "point": f.add(le(ZERO, to), True); f.add(le(to, num(23)), True)
                                if k == "off": f.add(le(e, ds[n]), True)
                                steps.append((fr, to))
                            acts = vec(*[tup(fr, to) for fr, to in steps])
                            d = "player %+d, steps %s, dice %s%s: " % (pl, list(ks), "equal" if double else "lower first" if lowfirst else "higher first", ", second larger" if swap else "")
                            for o in Run(c, prog, enc[cp], [s, acts], f, unroll=3).outs:
                                if o.kind != "ret":
                                    c.viol("encode:%s:panic" % cp, d + "encoding stops when " + where(o)); continue
                                for o2 in Run(c, prog, dec[cp], [s, o.val], o.st.facts, unroll=3).outs:
                                    c.count("round_trips")
                                    good = o2.kind == "ret" and o2.val.op == "vec" and len(o2.val.args) == len(steps)
                                    good = good and all(implied_eq(fld(x, i), v, o2.st.facts) for x, st in zip(o2.val.args, steps) for i, v in enumerate(st))
                                    if not good and not by_dice(o2.st.facts, (lo, hi)): continue
                                    c.need(good, "round-trip:" + cp, d + "the code %s is read back as %s instead of %s when %s" % (show(norm(o.val, o2.st.facts))[:120], show(norm(o2.val, o2.st.facts))[:160] if isinstance(o2.val, T) else "a stop", show(acts)[:160], where(o2)))
    c.floor("round_trips", 60)
