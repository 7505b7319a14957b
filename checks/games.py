"""Tic-tac-toe rules (C10) and the network input of both games (C11)."""
from .common import *
from . import backgammon as bg
from sa import tensor as tz

TT = "die_e::tictactoe::TicTacToe"
CELL = [sym("c%d" % i, "i8") for i in range(9)]
LINES = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8), (0, 4, 8), (2, 4, 6)]
def tt_state(prog): return struct(prog, TT, player=sym("player", "i8"), board=vec(*CELL), id=sym("id", "usize"))
def tt_domain():
    f = Facts()
    for x in CELL: f._tight(x, -1, 1)
    return f

def c10(c, prog):
    s = tt_state(prog); pl = sym("player", "i8")
    dom = {x: (-1, 1) for x in CELL}
    # moves: exactly the empty cells
    r = Run(c, prog, game(prog, "TicTacToe", "get_valid_moves"), [s], tt_domain())
    bdd = BDD(dom); got = {}
    for o in r.outs:
        cond = cond_of(o.st.facts.lits)
        if o.kind != "ret":
            if bg.reachable(cond, bdd, TRUE): c.viol("get_valid_moves:panic", "get_valid_moves stops when " + where(o))
            continue
        for g, x in ground(o.val):
            if x.op != "num": raise NotFinite("move " + show(x)[:120])
            got.setdefault(x.args[0], []).append(band(cond, g))
    for i in sorted(set(got) | set(range(9))):
        c.count("cells")
        want = eq(CELL[i], ZERO) if i < 9 else FALSE
        have = bor(*got.get(i, []))
        c.need(bdd.equal(have, want), "get_valid_moves:cells", "cell %d may be played when %s, expected exactly when it is empty" % (i, show(have)[:200]))
        for a in range(len(got.get(i, []))):
            for b in range(a): c.need(not bdd.sat(band(got[i][a], got[i][b])), "get_valid_moves:once", "cell %d is offered twice" % i)
    # playing a cell
    act = sym("cell", "u8")
    for i in range(9):
        r = Run(c, prog, game(prog, "TicTacToe", "apply_move"), [mutref("self"), num(i)], tt_domain(), {("g", "self"): s})
        for o in r.outs:
            c.count("moves")
            if not c.need(o.kind == "ret", "apply_move:panic", "playing cell %d stops when %s" % (i, where(o))): continue
            n = o.st.mem[("g", "self")]
            for g in all_cases(o.st.facts, eq(CELL[i], ZERO)):
                b = proj(n, ("f", "board"))
                for j in range(9):
                    want = pl if j == i else CELL[j]
                    c.need(implied_eq(proj(b, ("i", num(j))), want, g), "apply_move:board", "after playing cell %d cell %d holds %s" % (i, j, show(proj(b, ("i", num(j))))[:100]))
                c.need(implied_eq(proj(n, ("f", "player")), neg(pl), g), "apply_move:player", "after a move the player is %s" % show(proj(n, ("f", "player"))))
                c.need(implied_eq(proj(n, ("f", "id")), sym("id"), g), "apply_move:id", "the game's id changes")
    r = Run(c, prog, game(prog, "TicTacToe", "skip_turn"), [mutref("self")], tt_domain(), {("g", "self"): s})
    for o in r.outs:
        c.count("moves")
        if c.need(o.kind == "ret", "skip_turn:panic", "skip_turn stops"):
            n = o.st.mem[("g", "self")]
            c.need(implied_eq(n, put(s, (("f", "player"),), neg(pl)), o.st.facts), "skip_turn", "skipping makes the position %s" % show(n)[:200])
    r = Run(c, prog, game(prog, "TicTacToe", "new"), [], Facts())
    for o in r.outs:
        c.need(o.kind == "ret" and all(proj(proj(o.val, ("f", "board")), ("i", num(j))) is ZERO for j in range(9)) and proj(o.val, ("f", "player")) in (ONE, num(-1)), "new", "a new game is %s" % show(o.val)[:200])
    # winner
    r = Run(c, prog, game(prog, "TicTacToe", "check_winner"), [s], tt_domain())
    have = {-1: [], 0: [], 1: [], None: []}
    for o in r.outs:
        cond = cond_of(o.st.facts.lits)
        if o.kind != "ret":
            if bg.reachable(cond, bdd, TRUE): c.viol("check_winner:panic", "check_winner stops when " + where(o))
            continue
        v = variant(o.val)
        if v is None: raise NotFinite("winner " + show(o.val)[:160])
        if v == "None": have[None].append(cond); continue
        for g, x in expand_firsts(cond, proj(o.val, ("f", "0"))):
            for w in (-1, 0, 1): have[w].append(band(g, eq(x, num(w))))
            bad = band(g, *[bnot(eq(x, num(w))) for w in (-1, 0, 1)])
            c.need(not bdd.sat(bad), "check_winner:value", "the winner reported is %s" % show(x)[:120])
    W = {w: bor(*[band(*[eq(CELL[i], num(w)) for i in l]) for l in LINES]) for w in (-1, 1)}
    full = band(*[bnot(eq(x, ZERO)) for x in CELL])
    given = bnot(band(W[-1], W[1]))
    want = {-1: W[-1], 1: W[1], 0: band(full, bnot(W[-1]), bnot(W[1])), None: band(bnot(full), bnot(W[-1]), bnot(W[1]))}
    for w in want:
        c.count("outcomes")
        h = bor(*have[w])
        if not bdd.equal(h, want[w], given): c.viol("check_winner:%s" % w, "winner %s: wrong for the position %s" % (w, bdd.witness(h, want[w], given)[:240]))
    # codes
    r = Run(c, prog, game(prog, "TicTacToe", "encode"), [s, act], Facts())
    f = Facts(); f._tight(act, 0, 8)
    compare(c, "encode", r.outs, lambda ask, o: act, what="the code of a move")
    code = sym("code", "u32"); f._tight(code, 0, 8)
    r = Run(c, prog, game(prog, "TicTacToe", "decode"), [s, code], f)
    compare(c, "decode", r.outs, lambda ask, o: code, what="the move of a code")
    c.need(bg.const_int(cval(prog, "TicTacToe", "ACTION_SPACE_SIZE")) == 9, "action-space", "the action space is not nine")
    c.floor("outcomes", 4); c.floor("cells", 9); c.floor("moves", 10)

# ------------------------------------------------------------------------------ C11
def c11(c, prog):
    for impl in ("Backgammon", "TicTacToe"):
        f = bg.gendomain() if impl == "Backgammon" else tt_domain()
        pl = sym("player", "i8"); 
        if impl == "Backgammon":
            s = bg.bgstate(prog, bg.genboard())
            parts = {"p%d" % i: (-15, 15) for i in range(24)}
            parts.update({"bar0": (0, 15), "bar1": (0, 15), "off0": (0, 15), "off1": (0, 15), "r0": (1, 6), "r1": (1, 6)})
            for n in ("r0", "r1"): f._tight(sym(n), 0, 6)
            TYPES.setdefault(sym("second").uid, "bool")
        else:
            s = tt_state(prog)
            parts = {"c%d" % i: (-1, 1) for i in range(9)}
        parts["player"] = None
        r = Run(c, prog, game(prog, impl, "as_tensor"), [s], f)
        want = [1, bg.const_int(cval(prog, impl, "N_INPUT_CHANNELS")), None]
        squares = bg.const_int(cval(prog, impl, "CONV_OUTPUT_SIZE"))
        rows = []
        for o in r.outs:
            unrolled = False
            if impl == "Backgammon":
                cases = refine(o.st.facts, lambda ask: ask(eq(sym("r0"), ZERO)) and ask(eq(sym("r1"), ZERO)))
                for g, z in cases:
                    c.count("rows_checked")
                    c.need((o.kind == "panic") == bool(z), impl + ".as_tensor:unrolled", "a position %s dice is %s" % ("without" if z else "with", "refused" if o.kind == "panic" else "accepted"))
            else: c.need(o.kind == "ret", impl + ".as_tensor:panic", "as_tensor stops when " + where(o)); c.count("rows_checked")
            if o.kind != "ret": continue
            t = tz.tensor(o.val)
            sh = t.shape
            c.need(len(sh) == 4 and sh[0] == 1 and sh[1] == want[1] and sh[2] * sh[3] == squares, impl + ".as_tensor:shape", "the tensor has shape %s, declared are 1 x %d channels x %d squares" % (sh, want[1], squares))
            rows.append((o.st.facts, t.flat()))
        if not rows: continue
        n = len(rows[0][1])
        if not c.need(all(len(e) == n for _, e in rows), impl + ".as_tensor:rows", "the size depends on the position"): continue
        statesyms = {sym(x) for x in parts} | {sym("second")}
        def only(t):
            return {x for x in subterms(t) if x in statesyms}
        for x, d in sorted(parts.items()):
            v = sym(x); c.count("parts")
            places = [i for i in range(n) if all(only(e[i]) <= {v} for _, e in rows)]
            vals = (-1, 1) if d is None else range(d[0], d[1] + 1)
            # distinct values must never give the same numbers at the places of this part
            ok_ = injective(rows, v, vals, places, only)
            c.need(ok_, "%s.as_tensor:%s" % (impl, x if not x[0] in "pc" or not x[1:].isdigit() else "board"), "%s: the value of `%s` cannot be read from the tensor" % (impl, x))
        if impl == "Backgammon":
            v = sym("second"); c.count("parts")
            ok_ = injective(rows, v, (False, True), range(n), only)
            c.need(ok_, impl + ".as_tensor:second", "the second-play mark cannot be read from the tensor")
        c.count("places", n)
    c.floor("parts", 42); c.floor("rows_checked", 3)

def injective(rows, v, vals, places, only):
    """two different values of v always differ at a fixed place that depends on v alone"""
    def at(k, i):
        """numbers that can stand at place i when v = k (None: depends on something else)"""
        out = set()
        for fc, e in rows:
            if isinstance(k, bool):
                lit = fc.ev(v)
                if lit is not None and lit != k: continue
                t = subst(e[i], {v: boolc(k)})
            else:
                if fc.ev(eq(v, num(k))) is False: continue
                t = subst(e[i], {v: num(k)})
            if t.op not in ("num", "b"): return None
            out.add(t)
        return out
    tab = {}
    cand = [i for i in places if all(only(e[i]) <= {v} for _, e in rows)]
    vals = list(vals)
    for i in cand:
        tab[i] = [at(k, i) for k in vals]
    for a in range(len(vals)):
        for b in range(a):
            if not any(tab[i][a] is not None and tab[i][b] is not None and not (tab[i][a] & tab[i][b]) for i in cand): return False
    return True

# ------------------------------------------------------------------------------ C38
def same_but(c, key, prog, before, after, facts, names, told):
    for n in names: c.need(implied_eq(proj(after, ("f", n)), proj(before, ("f", n)), facts), key + ":" + n, "%s changes the %s to %s" % (told, n, show(proj(after, ("f", n)))[:120]))

def c38(c, prog):
    """identity of a game, and where games begin"""
    bgp = bg.bgstate(prog); ttp = tt_state(prog)
    kinds = (("Backgammon", bgp, ("board", "roll", "player", "is_second_play"), lambda: bg.domain(Facts())), ("TicTacToe", ttp, ("board", "player"), tt_domain))
    for impl, pre, rest, dom in kinds:
        me = {("g", "self"): pre}; k = impl.lower()
        for o in Run(c, prog, game(prog, impl, "get_id"), [pre], dom()).outs:
            c.count("cases")
            c.need(o.kind == "ret" and implied_eq(o.val, sym("id"), o.st.facts), k + ":get-id", "the id %s is reported for a game with id `id`" % show(o.val)[:100])
        new = sym("new_id", "usize")
        for o in Run(c, prog, game(prog, impl, "set_id"), [mutref("self"), new], dom(), dict(me)).outs:
            c.count("cases")
            if not c.need(o.kind == "ret", k + ":set-id:panic", "set_id stops when " + where(o)): continue
            a = o.st.mem[("g", "self")]
            c.need(implied_eq(proj(a, ("f", "id")), new, o.st.facts), k + ":set-id", "a game given the id `new_id` keeps %s" % show(proj(a, ("f", "id")))[:100])
            same_but(c, k + ":set-id", prog, pre, a, o.st.facts, rest, "giving a game its id")
        acts = sym("actions") if impl == "Backgammon" else None
        runs = [("skip_turn", [mutref("self")])]
        if impl == "Backgammon": runs += [("roll_die", [mutref("self")]), ("apply_move", [mutref("self"), acts])]
        else: runs += [("apply_move", [mutref("self"), num(i)]) for i in range(9)]
        for name, args in runs:
            kw = dict(opaque={"Backgammon::get_next_state"}, pure={"Backgammon::get_next_state"}) if impl == "Backgammon" else {}
            for o in Run(c, prog, game(prog, impl, name), args, dom(), dict(me), **kw).outs:
                if o.kind != "ret": continue      # (stopping is the business of the game's own rules)
                c.count("cases")
                c.need(implied_eq(proj(o.st.mem[("g", "self")], ("f", "id")), sym("id"), o.st.facts), "%s:%s:id" % (k, name), "%s gives the game the id %s" % (name, show(proj(o.st.mem[("g", "self")], ("f", "id")))[:100]))
    def begins(key, o, want, told):
        c.count("cases")
        if not c.need(o.kind == "ret", key + ":panic", told + " stops"): return
        for n, w in want.items():
            v = proj(o.val, ("f", n))
            c.need(implied_eq(v, w, o.st.facts), key + ":" + n, "%s has the %s %s, not %s" % (told, n, show(v)[:200], show(w)[:200]))
    start = tup(vec(*[num(x) for x in bg.START]), tup(ZERO, ZERO), tup(ZERO, ZERO))
    fresh = dict(board=start, roll=tup(ZERO, ZERO), player=num(-1), is_second_play=FALSE, id=ZERO)
    made = [game(prog, "Backgammon", "new")] + [b for p, b in prog.bodies.items() if p.endswith("Backgammon as std::default::Default>::default")]
    for b in made:
        for o in Run(c, prog, b, [], Facts()).outs: begins("backgammon:" + b.path.split("::")[-1], o, fresh, "a new game of backgammon")
    for b in [game(prog, "TicTacToe", "new")] + [b for p, b in prog.bodies.items() if p.endswith("TicTacToe as std::default::Default>::default")]:
        for o in Run(c, prog, b, [], Facts()).outs: begins("tictactoe:" + b.path.split("::")[-1], o, dict(board=vec(*[ZERO] * 9), player=num(-1), id=ZERO), "a new game of tic-tac-toe")
    B = bg.boardterm(); f = bg.domain(Facts())
    for o in Run(c, prog, fn(prog, "Backgammon::init_with_fields"), [B, sym("player", "i8"), sym("second", "bool")], f).outs:
        begins("init", o, dict(board=B, roll=tup(ZERO, ZERO), player=sym("player", "i8"), is_second_play=sym("second", "bool"), id=ZERO), "a game made from its parts")
    c.floor("cases", 20)

# ------------------------------------------------------------------------------ C39
def counted(t, pts, who):
    """the number of checkers a sum over the points counts, in terms of the two sides' numbers"""
    n, alts, bv = t.args
    if not (n is num(24) or n is length(pts)): raise NotFinite("a sum over %s points" % show(n))
    x = sym("on_point", "i8"); here = proj(pts, ("i", bv)); val = {}
    for v in range(-15, 16):
        r = ZERO
        for cnd, w in alts:
            cnd, w = (subst(z, {here: num(v)}) for z in (cnd, w))
            if mentions(cnd, lambda z: z is bv) or cnd not in (TRUE, FALSE): raise NotFinite("a count under " + show(cnd)[:100])
            if cnd is TRUE: r = add(r, w)
        if r.op != "num": raise NotFinite("a count of " + show(r)[:100])
        val[v] = r.args[0]
    a, b = val[-1], val[1]
    if any(val[v] != (-v * a if v < 0 else v * b) for v in val): raise NotFinite("a count that is not linear: " + show(t)[:200])
    return add(mul(num(a), who[0]), mul(num(b), who[1]))

def c39(c, prog):
    """the validity check"""
    pre = bg.bgstate(prog); f0 = bg.domain(Facts()); pts = proj(proj(pre, ("f", "board")), ("f", "0"))
    who = (sym("on_board_1"), sym("on_board_2"))
    r = Run(c, prog, fn(prog, "Backgammon::is_valid"), [mutref("self")], f0, {("g", "self"): pre})
    want = [eq(add(add(sym("bar%d" % i), sym("off%d" % i)), who[i]), num(15)) for i in (0, 1)]
    for o in r.outs:
        c.need(o.kind in ("ret", "panic"), "outcome", "is_valid ends as " + o.kind)
        f = bg.domain(Facts())
        for x in who: f._tight(x, 0, 360)
        ok = True
        for l, v in o.st.facts.lits:
            m = {t: counted(t, pts, who) for t in subterms(l) if t.op == "sum"}
            if not f.add(subst(l, m), v): ok = False; break
        if not ok: continue
        for g, valid in refine(f, lambda ask: bool(ask(want[0])) and bool(ask(want[1]))):
            c.count("cases")
            c.need((o.kind == "ret") == valid, "accepts" if o.kind == "ret" else "rejects", "a position is %s when %s" % ("accepted" if o.kind == "ret" else "rejected", str(g)[:300]))
        a = o.st.mem[("g", "self")]
        c.need(implied_eq(a, pre, o.st.facts), "unchanged", "checking a position changes it to " + show(a)[:200])
    c.floor("cases", 3)
