"""The printed position (C35)."""
from .common import *
from . import backgammon as bg, games as gm

def pieces(t):
    """a text as a list of literal strings and values"""
    if t.op == "str": return [t.args[0]]
    if t.op == "chr": return [chr(t.args[0]) if isinstance(t.args[0], int) else str(t.args[0])]
    if t.op == "fmt":
        out = []
        for x in t.args[0]: out += [x] if isinstance(x, str) else pieces(x)
        return out
    if t.op == "disp": return pieces(t.args[0])
    if t.op == "joined":
        n = length(t.args[0]); out = []
        if n.op != "num": raise NotFinite("text of unknown length: " + show(t)[:200])
        for i in range(int(n.args[0])):
            if i: out += pieces(t.args[1])
            out += pieces(proj(t.args[0], ("i", num(i))))
        return out
    return [t]

def split_at(ps, sep):
    """the pieces between literal separators"""
    out = [[]]
    for p in ps:
        if isinstance(p, str):
            parts = p.split(sep)
            if parts[0]: out[-1].append(parts[0])
            for x in parts[1:]: out.append([x] if x else [])
        else: out[-1].append(p)
    return out

def lit(ps, m=None):
    """the text of a cell when the values are as in m; None when it is not determined"""
    r = ""
    for p in ps:
        if not isinstance(p, str):
            p = subst(p, m or {})
            q = pieces(p)
            if q == [p]:
                if p.op != "num": return None
                p = str(p.args[0])
            else:
                p = lit(q, m)
                if p is None: return None
        r += p
    return r

def c35(c, prog):
    # tic-tac-toe: nine squares, three to a line, in board order
    r = Run(c, prog, game(prog, "TicTacToe", "to_pretty_str"), [gm.tt_state(prog)], gm.tt_domain())
    for o in r.outs:
        if not c.need(o.kind == "ret", "tictactoe:panic", "printing stops when " + where(o)): continue
        ps = pieces(o.val)
        marks = {}
        lines = [[p for p in l if not isinstance(p, str)] for l in split_at(ps, "\n")]
        lines = [l for l in lines if l]
        if not c.need([len(l) for l in lines] == [3, 3, 3], "tictactoe:lines", "the squares stand in lines of %s, expected three lines of three" % [len(l) for l in lines]): continue
        for i, v in enumerate(x for l in lines for x in l):
            for n in (-1, 0, 1):
                c.count("cells")
                t = lit([v], {gm.CELL[i]: num(n)})
                if not c.need(t is not None, "tictactoe:square", "in place of square %d stands %s" % (i, show(v)[:160])): break
                c.need(marks.setdefault(n, t) == t, "tictactoe:marks", "a square holding %d is printed as %r and as %r" % (n, marks.get(n), t))
        c.need(len(set(marks.values())) == len(marks), "tictactoe:distinct", "different marks are printed alike: %s" % marks)
    # backgammon
    P = bg.P24
    for pl, name in ((-1, "Player 1"), (1, "Player 2")):
        f = bg.gendomain(); s = put(bg.bgstate(prog, bg.genboard()), (("f", "player"),), num(pl))
        for n in ("r0", "r1"): f._tight(sym(n), 0, 6)
        r = Run(c, prog, game(prog, "Backgammon", "to_pretty_str"), [s], f)
        for o in r.outs:
            if not c.need(o.kind == "ret", "backgammon:panic", "printing stops when " + where(o)): continue
            lines = split_at(pieces(o.val), "\n")
            rows = [split_at(l, "\t") for l in lines]
            grid = [k for k, row in enumerate(rows) if len(row) > 12]
            if not c.need(len(grid) >= 4 and grid == list(range(grid[0], grid[-1] + 1)), "backgammon:diagram", "no diagram with a column for each of twelve points is printed"): continue
            head = [p for l in lines[:grid[0]] for p in l + ["\n"]]
            header(c, head, pl, name)
            diagram(c, [rows[k] for k in grid], P)

def header(c, head, pl, name):
    """whose turn, dice, hit and borne off checkers of each side, under that side's name"""
    vals = []
    for k, p in enumerate(head):
        if isinstance(p, str): continue
        before = "".join(x for x in head[:k] if isinstance(x, str))
        vals.append((p, before))
    def at(x): return [b for p, b in vals if p is x]
    before = "".join(x for x in head if isinstance(x, str))
    turn = before.split("Roll")[0]
    c.count("header_fields")
    c.need(name in turn and ("Player 2" if pl == -1 else "Player 1") not in turn, "backgammon:turn", "when %s is to move, the text says %r" % (name, turn[:80]))
    dice = tup(sym("r0"), sym("r1"))
    shown = [p for p, b in vals if p is mk("dbg", dice)] or ([p for p, b in vals if p in (sym("r0"), sym("r1"))] == [sym("r0"), sym("r1")])
    c.count("header_fields")
    c.need(bool(shown), "backgammon:dice", "the dice are not shown as rolled")
    for who, i in (("Player 1", 0), ("Player 2", 1)):
        for what, word in (("bar", "Broken"), ("off", "Collected")):
            c.count("header_fields")
            x = sym("%s%d" % (what, i)); b = at(x)
            ok = len(b) == 1
            if ok:
                own = max(("Player 1", "Player 2"), key=lambda n: b[0].rfind(n))
                ok = own == who and max(("Broken", "Collected"), key=lambda n: b[0].rfind(n)) == word
            c.need(ok, "backgammon:" + what, "%s's %s checkers are not shown once under its name" % (who, "hit" if what == "bar" else "borne-off"))

def diagram(c, rows, P):
    """each point's column: its number at the rim, its checkers from there inwards"""
    marks = {}; seen = {}
    half = (len(rows) - 2) // 2
    for rim, step in ((0, 1), (len(rows) - 1, -1)):
        for col, cell in enumerate(rows[rim]):
            t = lit(cell)
            if t is None or not t.strip().isdigit(): continue
            j = int(t); c.count("columns")
            if not c.need(0 <= j < 24 and j not in seen, "backgammon:labels", "column label %d is printed twice or is no point" % j): continue
            seen[j] = 1
            for n in range(-15, 16):
                c.count("columns_by_checkers")
                got = [lit(rows[rim + step * (k + 1)][col], {P[j]: num(n)}) if col < len(rows[rim + step * (k + 1)]) else None for k in range(half)]
                if not c.need(None not in got, "backgammon:column", "the column of point %d shows something other than its checkers" % j): break
                got = [x.strip() for x in got]
                full = [x for x in got if x]
                k = min(abs(n), 5)
                ok = got[:len(full)] == full and len(full) == (k if abs(n) <= 5 else 6) and len(set(full[:k])) <= 1
                if ok and n: ok = marks.setdefault(n > 0, full[0]) == full[0]
                if ok and abs(n) > 5: ok = full[5] == "+%d" % (abs(n) - 5)
                if not c.need(ok, "backgammon:checkers", "with %d checkers on point %d its column shows %s" % (n, j, got)): break
    c.need(len(seen) == 24, "backgammon:labels", "%d of the 24 points have a column" % len(seen))
    c.need(len(set(marks.values())) == 2, "backgammon:marks", "the two sides' checkers are printed as %s" % sorted(set(marks.values())))
