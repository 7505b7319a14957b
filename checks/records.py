"""Game records on disk: saving and loading (C31), the round trip field by field (C34)."""
from .common import *
from .tree import rw, field, TR
from .selfplay import Spec, call, is_call, some0
from .learning import walk, pieces, tidied, events, named, ok_of, writes_files, errors
from . import matches

OKS = ("Ok", "Err")
def went_well(f, e): return f.ev(isv(call(e.name, *e.args), "Ok", OKS)) is True
CREATE, OPEN, LOADG, SAVEG = ("File::create", "File::create_new"), ("File::open",), "versus::load_game", "versus::save_game"
TEXT = ("serde_json::to_string", "serde_json::to_string_pretty", "serde_json::to_vec", "serde_json::to_vec_pretty")
STREAM = ("serde_json::to_writer", "serde_json::to_writer_pretty")

def origin(t):
    """the value a writer or reader was made with, before what was done with it since"""
    buffered = False
    while True:
        if t.op == "post": t = t.args[2 + (t.args[1] if isinstance(t.args[1], int) else 0)]; continue
        if t.op == "call" and t.args[0] in ("BufWriter::new", "BufReader::new", "LineWriter::new") and len(t.args) >= 2: buffered = buffered or t.args[0] != "BufReader::new"; t = t.args[1]; continue
        if t.op == "call" and t.args[0] in ("BufWriter::with_capacity", "BufReader::with_capacity"): buffered = buffered or t.args[0].startswith("BufW"); t = t.args[2]; continue
        return t, buffered

def c31(c, prog):
    game, dir_, path = sym("game"), sym("game_path"), sym("path"); key = "save_game"
    r = Run(c, prog, fn(prog, SAVEG), [game, dir_], trusted=TR); good_ret = 0
    for o in r.outs:
        f = o.st.facts; c.count("saves")
        if not c.need(o.kind == "ret", key + ":panic", "saving stops the program: %s" % where(o)): continue
        done = f.ev(isv(o.val, "Ok", OKS))
        if done is None and o.val.op == "call":     # the outcome of the last step is passed on
            f = f.copy()
            if not f.add(isv(o.val, "Ok", OKS), True): continue
            done = True
        if not c.need(done is not None, key + ":answer", "saving answers %s" % show(o.val)[:100]): continue
        if not done: c.need(errors(f), key + ":error", "an error is reported for %s" % where(o)); continue
        good_ret += 1; saved(c, key, o, f, game, dir_)
    c.need(good_ret >= 1, key + ":returns", "saving never succeeds")

    key = "load_game"
    r = Run(c, prog, fn(prog, LOADG), [path], trusted=TR); good_ret = 0
    for o in r.outs:
        f = o.st.facts; c.count("loads")
        if not c.need(o.kind == "ret", key + ":panic", "loading stops the program: %s" % where(o)): continue
        done = f.ev(isv(o.val, "Ok", OKS))
        v = ok_of(o.val)
        if done is None and o.val.op == "call": done = True
        if not c.need(done is not None, key + ":answer", "loading answers %s" % show(o.val)[:100]): continue
        if not done: c.need(errors(f), key + ":error", "an error is reported for %s" % where(o)); continue
        good_ret += 1
        src = [x for x in subterms(v) if x.op == "call" and x.args[0] in ("serde_json::from_reader", "serde_json::from_str", "serde_json::from_slice")]
        if not c.need(len(src) == 1 and ok_of(src[0]) is v, key + ":value", "loading gives %s" % show(v)[:160]): continue
        x, _ = origin(src[0].args[1]); readers = [y for y in subterms(x) if y.op == "call" and y.args[0] in OPEN + ("fs::read_to_string", "fs::read")]
        c.need(len(readers) == 1 and ok_of(readers[0]) is x and tidied(pieces(readers[0].args[1])) == tidied(pieces(path)), key + ":source", "the game is read from %s" % show(x)[:160])
        if readers: c.need(f.ev(isv(readers[0], "Ok", OKS)) is True, key + ":opened", "a file that cannot be opened goes unnoticed")
    c.need(good_ret >= 1, key + ":returns", "loading never succeeds")

    key = "load_all_games"
    r = Run(c, prog, fn(prog, "versus::load_all_games"), [path], opaque={LOADG}, trusted=TR); good_ret = 0
    list_ = call("fs::read_dir", path)
    for o in r.outs:
        f = o.st.facts; c.count("listings")
        if o.kind != "ret": c.count("stops"); continue
        done = f.ev(isv(o.val, "Ok", OKS))
        if not c.need(done is not None, key + ":answer", "loading all answers %s" % show(o.val)[:100]): continue
        if not done: c.need(errors(f), key + ":error", "an error is reported for %s" % where(o)); continue
        good_ret += 1; lst = ok_of(list_)
        c.need(f.ev(isv(list_, "Ok", OKS)) is True, key + ":listed", "a directory that cannot be read goes unnoticed")
        v = ok_of(o.val)
        loops = [x for x in o.st.trace if isinstance(x, LoopRec) and x.N is length(lst)]
        if not c.need(len(loops) == 1 and loops[0].exhaust, key + ":entries", "%d loops visit every entry" % len(loops)): continue
        L = loops[0]; ent = proj(lst, ("i", L.k)); p = call("DirEntry::path", ok_of(ent)); got = ok_of(call(LOADG, p))
        js = [j for j, x in enumerate(L.inits) if x is vec()]
        if not c.need(len(js) == 1, key + ":collected", "games are collected in %d lists" % len(js)): continue
        j = js[0]; ph = L.phis[j]
        # what the function answers is what the loop collected
        c.need(v.op == "comp" and v.args[0] is length(lst) and len(v.args[1]) == 1 and v.args[1][0][1] == (("e", subst(got, {L.k: v.args[2]})),), key + ":result", "loading all gives %s" % show(v)[:120])
        file_ = call("Path::is_file", p); names = [call("DirEntry::file_name", ok_of(ent)), some0(call("Path::file_name", p)), p]
        for b in L.backs:
            if not consistent(b.facts): continue
            c.count("entries"); nx = b.nexts[j]
            c.need(b.facts.ev(isv(ent, "Ok", OKS)) is True, key + ":ignored", "an entry that cannot be read is skipped")
            isf = b.facts.ev(file_); js_ = [x for x in (json_of(b.facts, n) for n in names) if x is not None]
            if nx is ph:
                c.need(isf is False or False in js_, key + ":skipped", "a game file is skipped when %s" % str(b.facts)[:200])
                c.need(not named(b.trace, LOADG), key + ":dropped", "a game that was loaded is dropped")
            else:
                c.need(nx is push(ph, got) and b.facts.ev(isv(call(LOADG, p), "Ok", OKS)) is True, key + ":game", "collected is %s" % show(nx)[:160])
                c.need(isf is True and True in js_, key + ":foreign", "a file that is no game file is loaded")
    c.need(good_ret >= 1, key + ":returns", "loading all never succeeds")

    sp = Spec(c, "C31")
    matches.match(sp, prog, fn(prog, "versus::play"))
    c.floor("saves", 3); c.floor("loads", 2); c.floor("entries", 2); c.floor("turns", 1)

def json_of(f, name):
    """do the facts say that the name ends like a game file"""
    e = f.ev(call("str::ends_with", name, mk("str", ".json")))
    if e is not None: return e
    ext = call("Path::extension", name)
    for l, v in f.lits:
        if l.op == "eqc" or l.op == "eq" or l.op == "call" and l.args[0].endswith("::eq"):
            if mentions(l, lambda z: z is ext) and mentions(l, lambda z: z.op == "str" and z.args[0] == "json"): return v
    return f.ev(isv(ext, "Some", ("None", "Some"))) and None if f.ev(isv(ext, "Some", ("None", "Some"))) is not False else False

def saved(c, key, o, f, game, dir_):
    """the whole record has reached a file of the game's own name"""
    evs = [e for e, *_ in walk(o.st.trace, f)]
    made = [e for e in evs if e.name in CREATE or e.name == "fs::write"]
    if not c.need(len(made) == 1, key + ":file", "%d files are made" % len(made)): return
    e = made[0]; ps = tidied(pieces(e.args[0]))
    c.need(ps == (dir_, "/", field(game, "id"), ".json"), key + ":name", "the game is saved as %s" % show(e.args[0])[:120])
    c.need(went_well(f, e), key + ":created", "a file that cannot be created goes unnoticed")
    def content(t):
        t = t if not (t.op == "call" and t.args[0] in ("str::as_bytes", "String::as_bytes")) else t.args[1]
        return [x for x in subterms(t) if x.op == "call" and x.args[0] in TEXT and x.args[1] is game and ok_of(x) is t and f.ev(isv(x, "Ok", OKS)) is True]
    if e.name == "fs::write": c.need(content(e.args[1]), key + ":content", "written is %s" % show(e.args[1])[:120]); return
    file = ok_of(call(e.name, *e.args))
    ws = [x for x in evs if x.name == "Write::write_all" or x.name in STREAM or x.name == "Write::write"]
    if not c.need(len(ws) == 1 and ws[0].name != "Write::write", key + ":written", "the file is written by %s" % [x.name for x in ws]): return
    w = ws[0]; base, buf = origin(w.args[0])
    c.need(base is file, key + ":into", "written into %s" % show(w.args[0])[:120])
    c.need(went_well(f, w), key + ":write", "a failed write goes unnoticed")
    if w.name in STREAM: c.need(w.args[1] is game, key + ":content", "written is %s" % show(w.args[1])[:120])
    else: c.need(content(w.args[1]), key + ":content", "written is %s" % show(w.args[1])[:160])
    if buf:
        after = evs[evs.index(w) + 1:]
        fl = [x for x in after if x.name in ("Write::flush", "BufWriter::into_inner") and mentions(x.args[0], lambda z: z is file)]
        c.need(any(went_well(f, x) for x in fl), key + ":flush", "a write that fails when the buffer is emptied goes unnoticed")

# ---------------------------------------------------------------- C34
def impl_of(path):
    """the type a derived implementation belongs to"""
    t = path.split(" for ", 1)[1].split(">::", 1)[0]
    return t.split("<")[0].split("::")[-1]

def c34(c, prog):
    writers = {impl_of(p): b for p, b in prog.bodies.items() if "<impl serde::Serialize for " in p and p.endswith(">::serialize")}
    readers = {}
    for p, b in prog.bodies.items():
        if "Deserialize<'de> for " in p and ">::deserialize::" in p:
            nm = p.rsplit("::", 1)[1]
            if nm in ("visit_str", "visit_map", "visit_enum"): readers.setdefault(impl_of(p), {})[nm] = b
    for t in ("Game", "Turn", "Agent", "Backgammon", "TicTacToe"):
        key = t; c.count("types")
        if not c.need(t in writers and t in readers and "visit_str" in readers.get(t, {}), key + ":found", "the reading and writing of %s cannot be found" % t): continue
        names = keys_of(c, prog, readers[t]["visit_str"])
        if "visit_map" in readers[t]: struct(c, key, prog, writers[t], names, readers[t]["visit_map"], t)
        else: enum(c, key, prog, writers[t], names, readers[t].get("visit_enum"), t)
    c.floor("types", 5); c.floor("fields", 15); c.floor("variants", 4)

def keys_of(c, prog, body):
    """name in the file -> what the reader calls it"""
    r = Run(c, prog, body, [sym("visitor"), sym("key")], trusted=TR); names = {}
    for o in r.rets:
        pos = [l for l, v in o.st.facts.lits if v is True and mentions(l, lambda z: z is sym("key"))]
        v = ok_of(o.val)
        if v.op != "agg" or len(pos) != 1: continue
        for x in subterms(pos[0]):
            if x.op == "str": names[x.args[0]] = v.args[0][2]
    return names

def struct(c, key, prog, writer, names, visit_map, t):
    me, ser = sym("self"), sym("ser")
    r = Run(c, prog, writer, [me, ser], trusted=TR); written = {}
    for o in r.rets:
        fs = [e for e in events(o.st.trace) if e.name == "SerializeStruct::serialize_field"]
        if not any(e.name == "SerializeStruct::end" for e in events(o.st.trace)): continue
        written = {}
        for e in fs:
            if e.args[1].op != "str" or e.args[1].args[0] in written: c.viol(key + ":written", "%s is written under %s" % (show(e.args[2])[:60], show(e.args[1])[:60])); continue
            written[e.args[1].args[0]] = e.args[2]
        c.need(all(f is not None for f in written.values()), key, "")
    # what reading builds
    r = Run(c, prog, visit_map, [sym("visitor"), sym("map")], trusted=TR); done = 0
    for o in r.rets:
        if o.st.facts.ev(isv(o.val, "Ok", OKS)) is not True: continue
        loops = [x for x in o.st.trace if isinstance(x, LoopRec)]
        v = ok_of(o.val)
        if not c.need(len(loops) == 1 and v.op == "agg", key + ":read", "reading gives %s" % show(v)[:100]): continue
        L = loops[0]; tags = {}
        for b in L.backs:
            if not consistent(b.facts): continue
            for j, ph in enumerate(L.phis):
                n = b.nexts[j]
                if n is ph or b.facts.ev(isv(n, "Some", ("None", "Some"))) is not True: continue
                tag = [l.args[1] for l, w in b.facts.lits if w is True and l.op == "isv" and l.args[1].startswith("__") and mentions(l, lambda z: is_call(z, "MapAccess::next_key"))]
                val = some0(n)
                if len(tag) == 1 and mentions(val, lambda z: is_call(z, "MapAccess::next_value")): tags.setdefault(j, set()).add(tag[0])
                else: tags.setdefault(j, set()).add("?")
        fields = list(v.args[1]); vals = list(v.args[2])
        if any(mentions(x, lambda z: is_call(z, "de::missing_field")) for x in vals):
            # a missing field: an error, except for an optional value
            continue
        done += 1
        for f, x in zip(fields, vals):
            c.count("fields")
            src = [j for j, ph in enumerate(L.phis) if x is some0(ph)]
            if not c.need(len(src) == 1 and L.inits[src[0]].op == "agg" and L.inits[src[0]].args[0][2] == "None", key + ":" + f + ":read", "reading sets %s to %s" % (f, show(x)[:80])): continue
            ns = [nm for nm, tg in names.items() if tags.get(src[0]) == {tg}]
            if not c.need(ns, key + ":" + f + ":name", "no name in the file leads to %s" % f): continue
            c.need(any(written.get(nm) is field(me, f) for nm in ns), key + ":" + f + ":written", "%s is read from %s, but written there is %s" % (f, ns, [show(written[nm])[:60] if nm in written else "nothing" for nm in ns]))
    c.need(done >= 1, key + ":reads", "reading never succeeds")

def enum(c, key, prog, writer, names, visit_enum, t):
    me, ser = sym("self"), sym("ser"); written = {}
    r = Run(c, prog, writer, [me, ser], trusted=TR)
    for o in r.rets:
        vs = [l.args[1] for l, v in o.st.facts.lits if v is True and l.op == "isv" and l.args[0] is me]
        no = {l.args[1] for l, v in o.st.facts.lits if v is False and l.op == "isv" and l.args[0] is me}
        e = [e for e in events(o.st.trace) if e.name.startswith("Serializer::serialize_")]
        if not c.need(len(e) == 1 and e[0].name == "Serializer::serialize_unit_variant" and o.val is call(e[0].name, *e[0].args), key + ":written", "a value is written by %s" % [x.name for x in e]): continue
        for v in vs: written[v] = e[0].args[3].args[0] if e[0].args[3].op == "str" else None
    if not c.need(visit_enum is not None, key + ":read", "the reading of %s cannot be found" % t): return
    r = Run(c, prog, visit_enum, [sym("visitor"), sym("data")], trusted=TR); read = {}
    for o in r.rets:
        tag = [l.args[1] for l, v in o.st.facts.lits if v is True and l.op == "isv" and l.args[1].startswith("__")]
        for x in subterms(o.val):
            if x.op == "agg" and x.args[0][0] == "adt" and str(x.args[0][1]).endswith(t) and len(tag) == 1: read.setdefault(tag[0], set()).add(x.args[0][2])
    for v, nm in written.items():
        c.count("variants")
        c.need(read.get(names.get(nm)) == {v}, key + ":" + v, "%s is written as %s, which is read as %s" % (v, nm, read.get(names.get(nm))))

# ---------------------------------------------------------------- C37
LOADG = "versus::load_game"
def printed(events):
    """the printed text as pieces: literal strings and values"""
    from .printing import pieces as text
    out = []
    for e in events:
        for x in text(e.args[0]):
            if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
    return out
def plain(t):
    while isinstance(t, T) and t.op in ("dbg", "disp"): t = t.args[0]
    return t
def labelled(ps):
    """[(label, value, text after it)]: the label is what stands before a value on its line, after the value before it"""
    out = []
    for i, p in enumerate(ps):
        if isinstance(p, str): continue
        a = ps[i - 1] if i and isinstance(ps[i - 1], str) else ""
        b = ps[i + 1] if i + 1 < len(ps) and isinstance(ps[i + 1], str) else ""
        out.append((a.rstrip("\n").split("\n")[-1].lower() if a.strip() else "", plain(p), b.split("\n")[0]))
    return out
def show_all(c, key, got, want):
    """got: labelled values; want: [(name, value, words one of which the label holds)]"""
    for name, v, words, no in want:
        hits = [(l, a) for l, x, a in got if x is v]
        c.count("shown")
        if not c.need(len(hits) == 1, key + ":" + name, "the %s is shown %d times" % (name, len(hits))): continue
        c.need(any(w in hits[0][0] for w in words) and not any(w in hits[0][0] for w in no), key + ":" + name, "the %s is shown under the label %r" % (name, hits[0][0][-60:]))
    extra = [x for l, x, a in got if all(x is not w[1] for w in want)]
    c.need(not extra, key + ":other", "shown is also %s" % [show(x)[:100] for x in extra][:3])

def c37(c, prog):
    # replaying a file
    key = "replay"; path = sym("path")
    r = Run(c, prog, fn(prog, "versus::print_game"), [path, sym("wait")], None, {}, opaque={LOADG}, prints=True, trusted=TR)
    loaded = call(LOADG, path); game = ok_of(loaded); pretty = lambda s: call("LearnableGame::to_pretty_str", s)
    start = field(game, "initial_state"); n = {"shown": 0, "unreadable": 0}
    for o in r.outs:
        isok = o.st.facts.ev(isv(loaded, "Ok", RES))
        if isok is not True:
            c.need(isok is False, key + ":unreadable", "a replay does not depend on whether the file could be read")
            n["unreadable"] += 1
            c.need(o.kind == "panic" or o.st.facts.ev(isv(o.val, "Err", RES)) is True, key + ":unreadable", "a file that cannot be read is passed over"); continue
        if o.kind != "ret": continue              # no more input
        n["shown"] += 1
        c.need(o.st.facts.ev(isv(o.val, "Ok", RES)) is True, key + ":ends", "a replay ends with %s" % show(o.val)[:80])
        for e in events(o.st.trace): c.need(e.name in ("print", LOADG), key + ":does", "a replay does %s" % str(e)[:100])
        loops = [x for x in o.st.trace if isinstance(x, LoopRec)]
        if not c.need(len(loops) == 1, key + ":turns", "the turns are shown by %d loops" % len(loops)): continue
        L = loops[0]; i = o.st.trace.index(L)
        show_all(c, key, labelled(printed([e for e in events(o.st.trace[:i]) if e.name == "print"])), [
            ("id", field(game, "id"), ("id",), ("player", "win")), ("first agent", field(game, "player1"), ("1", "one"), ("2", "two")), ("second agent", field(game, "player2"), ("2", "two"), ("1", "one")),
            ("winner", field(game, "winner"), ("win", "won"), ()), ("start", pretty(start), ("initial", "start"), ())])
        c.need(not printed([e for e in events(o.st.trace[i:]) if e.name == "print" and any(not isinstance(x, str) for x in printed([e]))]), key + ":after", "something is shown after the turns")
        c.need(L.N is length(field(game, "turns")) and L.exhaust, key + ":turns", "shown are %s turns" % (show(L.N)[:80] if L.N is not None else "some"))
        turn = proj(field(game, "turns"), ("i", L.k))
        for b in L.backs:
            if not consistent(b.facts): continue
            c.count("turns")
            got = labelled(printed([e for e in events(b.trace) if e.name == "print"]))
            pos = [x for l, x, a in got if is_call(x, "LearnableGame::to_pretty_str")]
            show_all(c, key + ":turn", [g for g in got if g[1] not in pos], [("player", field(turn, "player"), ("player",), ()), ("roll", field(turn, "roll"), ("roll", "dice"), ()), ("action", field(turn, "action"), ("action", "move"), ())])
            if not c.need(len(pos) == 1, key + ":position", "%d positions are shown for a turn" % len(pos)): continue
            s = pos[0].args[1]
            if s is start: c.viol(key + ":position:start", "the position shown after a turn is the starting position"); continue
            js = [j for j, ph in enumerate(L.phis) if mentions(s, lambda z, ph=ph: z is ph)]
            good = len(js) == 1 and L.inits[js[0]] is start and s.op == "post" and s.args[0].endswith("apply_move") and s.args[3] is field(turn, "action") and b.nexts[js[0]] is s
            c.need(good, key + ":position", "the position shown after a turn is %s" % show(s)[:160])
    c.need(all(n.values()), key + ":cases", "cases: %s" % n)
    # the summary of a match
    key = "summary"; res = sym("result")
    bs = [b for b in prog.bodies.values() if "PlayResult" in b.path and "Display" in b.path and b.path.endswith("::fmt")]
    if not c.need(len(bs) == 1, key, "found %d summaries of a match" % len(bs)): return
    m = 0
    for o in Run(c, prog, bs[0], [res, mutref("f")], None, {("g", "f"): sym("formatter")}, prints=True, trusted=TR).outs:
        if not c.need(o.kind == "ret", key + ":stops", "the summary stops when " + where(o)): continue
        if o.st.facts.ev(isv(o.val, "Ok", RES)) is False: continue
        m += 1; got = labelled(printed([e for e in events(o.st.trace) if e.name == "print"]))
        rate = mul(num(100), field(res, "winrate"))
        show_all(c, key, got, [("first agent", field(res, "player1"), ("1", "one"), ("2", "two", "win")), ("second agent", field(res, "player2"), ("2", "two"), ("1", "one", "win")),
            ("first player's wins", field(res, "wins_p1"), ("1", "one"), ("2", "two")), ("second player's wins", field(res, "wins_p2"), ("2", "two"), ("1", "one")),
            ("draws", field(res, "draws"), ("draw",), ()), ("number of games", field(res, "n_games"), ("game",), ()), ("win rate", rate, ("rate", "percent", "win"), ())])
        for l, x, a in got:
            if x is rate: c.need(a.startswith("%"), key + ":percent", "the share of wins in percent is shown without its sign")
            if x is field(res, "wins_p1") or x is field(res, "wins_p2"): c.need("win" in l, key + ":wins", "wins are shown under the label %r" % l[-60:])
    c.need(m, key + ":cases", "the summary is never written")
    c.floor("shown", 17); c.floor("turns", 2)
