"""Configuration (C32) and the command line (C33)."""
from .common import *
from .tree import rw, field, TR
from .selfplay import call, is_call, some0
from .learning import walk, pieces, tidied, events, named, ok_of, is_best, is_index
from . import learning, selfplay, guided, tree

OKS = ("Ok", "Err"); OPT = ("None", "Some")
COUNTS = ("iterations", "simulate_round_limit", "learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches")
KEYS = {"MctsConfig": {"iterations": "iterations", "c": "exploration_const", "simulate_round_limit": "simulate_round_limit", "dirichlet_alpha": "dirichlet_alpha", "dirichlet_epsilon": "dirichlet_epsilon"},
        "AlphaZeroConfig": {x: x for x in ("temperature", "learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches")},
        "OptimizerParams": {"wd": "wd", "lr": "lr"}}
NEW, TRAIN, SELF, SELFP = ("AlphaZero::" + x for x in ("new", "train", "self_play", "self_play_parallel"))
PARSED = {True: ("usize", "u64", "u32", "i64"), False: ("f64", "f32")}
UNSIGNED = ("usize", "u64", "u32")

def value_read(t, conf, key, f):
    """None when t is the configuration's value under the key (whole and not negative for a count), else what is wrong"""
    count = key in COUNTS
    if is_call(t, "From::from") or is_call(t, "Into::into"): t = t.args[1]
    for ty in PARSED[count]:
        got = call("Config::get", conf, mk("str", key), mk("str", ty))
        if t is ok_of(got) or t.op == "proj" and t is ok_of(got):
            if f.ev(isv(got, "Ok", OKS)) is not True: return "%s is used although it may be missing or of another type" % key
            if count and ty not in UNSIGNED and f.ev(le(ZERO, t)) is not True: return "a negative %s is not refused" % key
            return None
    return "%s is %s" % (key, show(t)[:120])

def failing(f):
    """do the facts say that a value could not be read, or that a count is negative"""
    for l, v in f.lits:
        if l.op == "isv" and is_call(l.args[0], "Config::get") and (l.args[1] == "Ok") is not v: return True
        if mentions(l, lambda z: is_call(z, "Config::get")) and l.op != "isv": return True
    return False

def settings(c, key, t, conf, name, f):
    for fld, k in KEYS[name].items():
        c.count("values"); bad = value_read(field(t, fld), conf, k, f)
        c.need(bad is None, "%s:%s" % (key, fld), "%s.%s: %s" % (name, fld, bad))

def c32(c, prog):
    conf = sym("conf")
    for name in KEYS:
        key = name + "::from_config"; n = 0
        for o in Run(c, prog, fn(prog, key), [conf], trusted=TR).outs:
            f = o.st.facts; c.count("readings")
            done = o.kind == "ret" and f.ev(isv(o.val, "Ok", OKS))
            if not c.need(done is not None, key + ":answer", "reading answers %s" % show(o.val)[:100]): continue
            if not done: c.need(failing(f), key + ":error", "an error is reported for %s" % where(o)); continue
            n += 1; settings(c, key, ok_of(o.val), conf, name, f)
        c.need(n >= 1, key + ":returns", "reading never succeeds")

    key = "AlphaZero::from_config"; path = sym("model_path"); n = 0
    for o in Run(c, prog, fn(prog, key), [path, conf], opaque={NEW}, trusted=TR).outs:
        f = o.st.facts; c.count("readings")
        if o.kind != "ret":
            c.need(failing(f), key + ":error", "start-up fails when %s" % where(o)); continue
        n += 1
        if not c.need(is_call(o.val, NEW) and len(o.val.args) == 5, key + ":built", "the learning set-up is %s" % show(o.val)[:120]): continue
        _, p, cf, mc, op = o.val.args
        c.need(p is path, key + ":path", "the model path is %s" % show(p)[:80])
        settings(c, key, cf, conf, "AlphaZeroConfig", f); settings(c, key, mc, conf, "MctsConfig", f); settings(c, key, op, conf, "OptimizerParams", f)
    c.need(n >= 1, key + ":returns", "start-up never succeeds")

    key = "AlphaZero::new"; cf, mc, op = sym("config"), sym("mcts_config"), sym("op")
    for o in Run(c, prog, fn(prog, NEW), [path, cf, mc, op], opaque={"ResNet::new"}, trusted=TR).rets:
        c.count("setups")
        for fld, x, name in (("config", cf, "AlphaZeroConfig"), ("mcts_config", mc, "MctsConfig")):
            for k in KEYS[name]: c.need(field(field(o.val, fld), k) is field(x, k), "%s:%s.%s" % (key, fld, k), "the set-up's %s is %s" % (k, show(field(field(o.val, fld), k))[:100]))
        bs = [x for x in subterms(field(o.val, "optimizer")) if is_call(x, "OptimizerConfig::build")]
        if not c.need(len(bs) == 1, key + ":optimizer", "the optimizer is %s" % show(field(o.val, "optimizer"))[:120]): continue
        b = bs[0]
        c.need(b.args[3] is field(op, "lr"), key + ":lr", "the learning rate is %s" % show(b.args[3])[:80])
        c.need(decay(b.args[1]) is field(op, "wd"), key + ":wd", "the optimizer is built by %s" % show(b.args[1])[:120])

    # how often things are repeated
    for nm, play in (("AlphaZero::learn_parallel", SELFP), ("AlphaZero::learn", SELF)):
        me = sym("self"); key = nm.split("::")[1]
        r = Run(c, prog, fn(prog, nm), [mutref("az")], None, {("g", "az"): me}, opaque={SELF, SELFP, TRAIN, "AlphaZero::save_training_data", "AlphaZero::play_vs_best_model", "AlphaZero::save_current_model"}, trusted=TR)
        for o in r.outs:
            if o.kind != "ret": continue
            for e, f, before, loops in walk(o.st.trace, o.st.facts):
                if e.name not in (SELF, SELFP, TRAIN): continue
                want = ["learn_iterations", "num_epochs" if e.name == TRAIN else "self_play_iterations"]; c.count("repetitions")
                got = [l.N for l, b in loops]
                c.need(len(got) == 2 and all(setting(t, x) for t, x in zip(got, want)), key + (":training" if e.name == TRAIN else ":selfplay"),
                       "%s is repeated %s times; expected the configured %s" % ("training" if e.name == TRAIN else "self-play", [show(x)[:60] if x is not None else "?" for x in got], " by ".join(want)))
    # how the searches use theirs
    cfg = sym("mcts_config")
    for key, args, mem, opq, pure, pick in (
            ("alpha_mcts::alpha_mcts", [sym("state"), sym("net"), cfg], {}, guided.OPAQUE, guided.PURE, guided.PICK),
            ("alpha_mcts::alpha_mcts_parallel", [mutref("store"), sym("states"), sym("net"), cfg, sym("pb")], {("g", "store"): guided.mkstore(vec())}, guided.OPAQUE, guided.PURE, guided.PICK),
            ("simple_mcts::mct_search", [sym("state"), sym("player"), cfg], {}, {tree.BACK, tree.LEAF, tree.EXPAND, tree.SIM}, {tree.LEAF}, tree.LEAF)):
        r = Run(c, prog, fn(prog, key), args, mem=mem, opaque=opq, pure=pure, trusted=TR)
        seen = set()
        def visit(tr):
            for x in tr:
                if isinstance(x, LoopRec):
                    for b in x.backs: yield from visit(b.trace); yield from b.nexts; yield from (l for l, v in b.facts.lits)
                elif isinstance(x, Ev): yield x.ret if x.ret is not None else UNIT; yield from x.args
        for o in r.outs:
            for t in list(visit(o.st.trace)) + [o.val]:
                if not isinstance(t, T): continue
                for x in subterms(t):
                    if is_call(x, pick) and x not in seen:
                        seen.add(x); c.count("descents")
                        c.need(x.args[-1] is field(cfg, "c"), key + ":exploration", "the descent is made with %s, expected the configured constant" % show(x.args[-1])[:80])
        c.need(seen, key + ":descents", "no descent found in %s" % key)
    own(c, "iterations", guided.c17, prog, (":count",)); own(c, "iterations", tree.c16, prog, (":count", ":playout"))
    own(c, "noise", guided.c22, prog, (":noise",)); own(c, "limit", tree.c18, prog, (":limit",))
    own(c, "batches", learning.c28, prog, (":batches",)); own(c, "games", selfplay.c24, prog, (":number",)); own(c, "temperature", selfplay.c25, prog, (":choice",))
    c.floor("values", 26); c.floor("setups", 3); c.floor("repetitions", 4); c.floor("descents", 3)

def setting(t, name): return t is not None and t.op == "p" and t.args[1] == ("f", name) and t.args[0].op == "p" and t.args[0].args[1] == ("f", "config")
def decay(t):
    """the weight decay an Adam configuration carries"""
    if is_call(t, "Adam::wd") : return t.args[2]
    if t.op in ("agg", "with"): return field(t, "wd")
    return None

class Only:
    """reports the named obligations of another check only"""
    def __init__(self, c, ends): self.c = c; self.ends = ends
    def mine(self, key): return key.endswith(self.ends)
    def need(self, cond, key, msg=""):
        return self.c.need(cond, key, msg) if self.mine(key) else cond
    def viol(self, key, msg):
        if self.mine(key): self.c.viol(key, msg)
    def count(self, what, n=1): pass
    def item(self, kind, name): self.c.item(kind, name)
    def floor(self, *a): pass

def own(c, what, f, prog, ends):
    try: f(Only(c, ends), prog); c.count("uses")
    except (Unsupported, NotFinite, NotFound, AttributeError, IndexError, TypeError, KeyError) as e: c.count("uses_left_to_other_checks")

# ---------------------------------------------------------------- C33
HANDLE, LEARN, PLAY, SAVEG, PRINT, PATHS, READ, FROMC, FROMP, MCONF = ("handle_command", "AlphaZero::learn_parallel", "versus::play", "versus::save_game", "versus::print_game", "get_all_paths_rec",
    "AlphaZero::load_training_data", "AlphaZero::from_config", "ResNet::from_path", "MctsConfig::from_config")
CMDS = ("Learn", "Play", "Train", "Replay"); AGENTS = {"model": "Model", "mcts": "Mcts", "random": "Random"}
WORK = (LEARN, PLAY, TRAIN, "AlphaZero::learn", SELF, SELFP)
LOWER = ("str::to_ascii_lowercase", "str::to_lowercase", "str::trim", "String::to_lowercase", "String::as_str", "str::make_ascii_lowercase", "Deref::deref", "AsRef::as_ref", "str::to_string", "ToString::to_string", "String::clone", "Clone::clone", "PathBuf::as_path")
def bare(t):
    while t.op == "call" and t.args[0] in LOWER: t = t.args[1]
    return t

def opt(cmd, v, name): return field(proj(cmd, ("v", v)), name)
def given(f, o): return f.ev(isv(o, "Some", OPT))

def spoken(f, given_):
    """(agent the facts say was named, names excluded)"""
    a = some0(given_); yes = set(); no = set()
    for l, v in f.lits:
        if l.op not in ("eq", "eqc") and not (l.op == "call" and (l.args[0].endswith("::eq") or l.args[0] == "str::eq_ignore_ascii_case")): continue
        ks = [k for k in l.args if isinstance(k, T)]
        s = [k.args[0] for k in ks if k.op == "str"]; x = [k for k in ks if k.op != "str" and bare(k) is a]
        if not s or not x: continue
        w = s[0].lower() if l.op == "call" and l.args[0] == "str::eq_ignore_ascii_case" or x[0] is not a and x[0].op == "call" and "lower" in x[0].args[0] and s[0] == s[0].lower() else s[0]
        (yes if v else no).add(w)
    return (next(iter(yes)) if len(yes) == 1 else None), no

def agent_type(t):
    if t.op == "agg" and isinstance(t.args[0], tuple) and t.args[0][0] == "adt":
        return t.args[0][2] if len(t.args[0]) > 2 else None
    return None

def c33(c, prog):
    cmd, conf = sym("cmd"), sym("conf"); key = "handle_command"
    r = Run(c, prog, fn(prog, HANDLE), [cmd, conf], opaque={NEW, FROMC, LEARN, "AlphaZero::learn", TRAIN, READ, PLAY, SAVEG, PRINT, PATHS, FROMP, MCONF, SELF, SELFP}, trusted=TR)
    done = {k: set() for k in CMDS}
    for o in r.outs:
        f = o.st.facts
        which = [k for k in CMDS if f.ev(isv(cmd, k, CMDS)) is True]
        if not c.need(len(which) == 1, key + ":command", "a command is handled without looking which it is: %s" % where(o)): continue
        k = which[0]; kk = key + ":" + k.lower(); evs = list(walk(o.st.trace, f)); c.count("paths")
        work = [e for e, *_ in evs if e.name in WORK]
        if o.kind == "ret":
            for e, *_ in evs:
                c.need(not learning.writes_files(e) or k == "Train" and (e.name == "VarStore::save" or e.name.startswith("fs::create_dir")), kk + ":other", "the command writes %s" % str(e)[:120])
            c.need(all(e.name == {"Learn": LEARN, "Play": PLAY, "Train": TRAIN, "Replay": None}[k] for e in work) and len(work) == (k != "Replay"), kk + ":work", "%s does %s" % (k, [e.name for e in work]))
        if k == "Train" and any(given(f, opt(cmd, "Train", x)) is None for x in ("run_id", "learn", "self_play")):
            for h, _ in refine(f, lambda ask: [ask(isv(opt(cmd, "Train", x), "Some", OPT)) for x in ("run_id", "learn", "self_play")]): done[k].add(train_(c, kk, o, h, [(e, merged(g, h), b, l) for e, g, b, l in evs], cmd, conf))
            continue
        done[k].add({"Learn": learn_, "Play": play_, "Train": train_, "Replay": replay_}[k](c, kk, o, f, evs, cmd, conf))
    for k, n in (("Learn", 1), ("Play", 9), ("Train", 4), ("Replay", 1)):
        c.need(len(done[k] - {None}) >= n, "%s:%s:cases" % (key, k.lower()), "%s serves %s only" % (k, sorted(done[k] - {None})))
    start(c, prog)
    c.floor("paths", 30); c.floor("starts", 3)

def merged(g, h):
    """facts of an inner path and of the case looked at"""
    return g if g is h else with_facts(g, h.lits) or g

def learn_(c, kk, o, f, evs, cmd, conf):
    if not c.need(o.kind == "ret", kk + ":stops", "learning is refused: %s" % where(o)): return
    e = [e for e, *_ in evs if e.name == LEARN]
    if e: c.need(e[0].args[0] is call(FROMC, opt(cmd, "Learn", "model_path"), conf), kk + ":model", "learning is done by %s" % show(e[0].args[0])[:160])
    return "learn"

def replay_(c, kk, o, f, evs, cmd, conf):
    pr = [e for e, *_ in evs if e.name == PRINT]
    if not c.need(len(pr) == 1 and bare(pr[0].args[0]) is opt(cmd, "Replay", "game_path"), kk + ":game", "shown is %s" % [str(e)[:80] for e in pr]): return
    went = f.ev(isv(call(PRINT, *pr[0].args), "Ok", OKS))
    if o.kind == "ret": c.need(went is True, kk + ":error", "a game that cannot be shown goes unnoticed"); return "replay"
    c.need(went is False, kk + ":stops", "replaying stops when %s" % where(o))

def play_(c, kk, o, f, evs, cmd, conf):
    P = lambda n: opt(cmd, "Play", n)
    ag, mp, out = [P("agent_one"), P("agent_two")], [P("model_path_one"), P("model_path_two")], P("output_path")
    played = [(e, b) for e, _, b, l in evs if e.name == PLAY]
    saidno = [spoken(f, a) for a in ag]; temp = [call("Config::get", conf, mk("str", "temperature"), mk("str", t)) for t in PARSED[False]]
    conf_ = call(MCONF, conf)
    if o.kind != "ret":
        if played:
            bad = [1 for e, g, b, l in evs if e.name == SAVEG and g.ev(isv(call(SAVEG, *e.args), "Ok", OKS)) is False] or any(l.op == "isv" and is_call(l.args[0], SAVEG) and v is (l.args[1] == "Err") for l, v in f.lits) or any(is_call(x, SAVEG) for l, v in f.lits for x in subterms(l))
            c.need(bad, kk + ":stops", "the program stops after play when %s" % where(o)); return
        good = any(given(f, a) is False for a in ag) or any(len(no & set(AGENTS)) == 3 for y, no in saidno) or any(y is not None and y not in AGENTS for y, no in saidno) or given(f, out) is False \
            or f.ev(call("Path::is_dir", some0(out))) is False or f.ev(call("Path::exists", some0(out))) is False or any(f.ev(isv(t, "Ok", OKS)) is False for t in temp) or f.ev(isv(conf_, "Ok", OKS)) is False \
            or any(y == "model" and given(f, m) is False for (y, _), m in zip(saidno, mp)) or any(y != "model" and given(f, m) is True and given(f, a) and False for (y, _), m, a in zip(saidno, mp, ag))
        c.need(good, kk + ":refused", "play is refused although nothing is missing or wrong: %s" % str(f)[:500]); return
    if len(played) != 1: return
    e, before = played[0]; c.count("plays")
    types = []
    for i in (0, 1):
        n = ("one", "two")[i]; y, no = saidno[i]
        if not c.need(given(f, ag[i]) is True and y in AGENTS, kk + ":agent_" + n, "play starts although agent %s is not known: %s" % (n, where(o))): continue
        t = agent_type(field(e.args[i], "player_type")); types.append(t)
        c.need(t == AGENTS[y], kk + ":agent_" + n, "agent %s is a %s for the name %s" % (n, t, y))
        m = field(e.args[i], "model"); g = given(f, mp[i])
        if t == "Model":
            c.need(g is True, kk + ":missing_" + n, "play starts although the model of agent %s is missing" % n)
            fresh = [x for x in subterms(m) if is_call(x, FROMP)]
            c.need(len(fresh) == 1 and f.ev(isv(m, "Some", OPT)) is True and some0(m) is fresh[0] and bare(fresh[0].args[1]) is some0(mp[i]), kk + ":model_" + n, "agent %s plays with %s" % (n, show(m)[:160]))
    c.need(e.args[2] is ok_of(conf_) and f.ev(isv(conf_, "Ok", OKS)) is True, kk + ":settings", "play uses the settings %s" % show(e.args[2])[:120])
    bad = value_read(e.args[3], conf, "temperature", f); c.need(bad is None, kk + ":temperature", "play uses: %s" % bad)
    c.need(given(f, out) is True and f.ev(call("Path::is_dir", some0(out))) is True, kk + ":output", "play starts although there is no output directory: %s" % where(o))
    sv = [(x, g, l) for x, g, b, l in evs if x.name == SAVEG]; res = call(PLAY, *e.args); games = field(res, "games")
    if c.need(len(sv) >= 1 and all(len(l) == 1 for x, g, l in sv), kk + ":saved", "%d calls save the games" % len(sv)):
        L = sv[0][2][0][0]
        c.need(L.N is length(games) and L.exhaust, kk + ":all", "%s games are saved" % (show(L.N)[:80] if L.N is not None else "?"))
        for b in L.backs:
            if not consistent(b.facts): continue
            s = [x for x in b.trace if isinstance(x, Ev) and x.name == SAVEG]
            c.need(len(s) == 1 and rw(s[0].args[0]) is rw(proj(games, ("i", L.k))) and bare(s[0].args[1]) is some0(out), kk + ":save", "saved is %s" % [str(x)[:200] for x in s])
            for x in s: c.need(b.facts.ev(isv(call(SAVEG, *x.args), "Ok", OKS)) is True, kk + ":lost", "a game that cannot be saved goes unnoticed")
    return tuple(types)

def train_(c, kk, o, f, evs, cmd, conf):
    P = lambda n: opt(cmd, "Train", n)
    ids = [P("run_id"), P("learn"), P("self_play")]; g = [given(f, x) for x in ids]
    tr = [(e, b) for e, _, b, l in evs if e.name == TRAIN]; ps = [(e, b) for e, _, b, l in evs if e.name == PATHS]
    sv = [(e, b) for e, _, b, l in evs if e.name == "VarStore::save"]
    def known(n): return g[:n] == [True] * n and g[n:] == [False] * (3 - n)
    depth = next((n for n in range(4) if known(n)), None)
    if o.kind != "ret":
        saved = [e for e, b in sv if f.ev(isv(call("VarStore::save", *e.args), "Ok", OKS)) is False]
        if tr: c.need(saved, kk + ":stops", "the program stops after training when %s" % where(o)); return
        wrong = any(y is False and True in g[i + 1:] for i, y in enumerate(g))
        gone = any(l.op == "call" and l.args[0] in ("Path::exists", "Path::is_dir") and v is False for l, v in f.lits)
        fails = [1 for e, b in ps if f.ev(isv(call(PATHS, *e.args), "Ok", OKS)) is False]
        dirs = any(l.op == "isv" and is_call(l.args[0], "fs::create_dir_all") for l, v in f.lits)
        c.need(wrong or gone or fails or dirs, kk + ":refused", "training is refused although nothing is missing or wrong: %s" % str(f)[:400]); return
    c.count("trainings")
    if not c.need(depth is not None, kk + ":contradictory", "training starts although the data asked for is contradictory: %s" % where(o)): return
    want = ["./data/", call("LearnableGame::name")]
    for n, x in zip(("/run-", "/lrn-", "/sp-"), ids[:depth]): want += [n, some0(x)]
    if not c.need(len(ps) == 1, kk + ":listed", "the data is listed %d times" % len(ps)): return
    e, _ = ps[0]; asked = tidied(pieces(norm(e.args[0], f)))
    c.need(same_path(asked, want), kk + ":data", "the data of %s is used, expected that of %s" % (show(e.args[0])[:200], [x if isinstance(x, str) else show(x)[-40:] for x in want]))
    c.need(f.ev(isv(call(PATHS, *e.args), "Ok", OKS)) is True, kk + ":unlisted", "data that cannot be listed goes unnoticed")
    ex = [v for l, v in f.lits if l.op == "call" and l.args[0] in ("Path::exists", "Path::is_dir") and same_path(tidied(pieces(norm(l.args[1], f))), want)]
    c.need(True in ex, kk + ":exists", "training starts although the data may not exist")
    if len(tr) != 1: return
    t, _ = tr[0]; c.need(t.args[0] is call(FROMC, P("model_path"), conf), kk + ":model", "the model trained is %s" % show(t.args[0])[:160])
    lst = mk("post", PATHS, 1, *e.args); m = t.args[1]
    good = m.op == "comp" and m.args[0] is length(lst) and len(m.args[1]) == 1 and not m.args[1][0][0] and len(m.args[1][0][1]) == 1 and m.args[1][0][1][0][0] == "s"
    if c.need(good and e.args[1] is vec(), kk + ":loaded", "training uses %s" % show(m)[:200]):
        x = m.args[1][0][1][0][1]
        c.need(is_call(x, READ) and bare(x.args[1]) is proj(lst, ("i", m.args[2])), kk + ":loaded", "training uses %s of every directory" % show(x)[:160])
    if not c.need(len(sv) == 1, kk + ":saved", "the model is saved %d times" % len(sv)): return
    s, before = sv[0]
    c.need(s.args[0] is field(field(mk("post", TRAIN, 0, *t.args), "model"), "vs"), kk + ":trained", "saved is %s" % show(s.args[0])[:160])
    c.need(f.ev(isv(call("VarStore::save", *s.args), "Ok", OKS)) is True, kk + ":lost", "a model that cannot be saved goes unnoticed")
    out = P("out_path"); default = ["./models/", call("LearnableGame::name"), "/trained_model.ot"]
    for h, is_given in refine(f, lambda ask: ask(isv(out, "Some", OPT))):
        p = norm(s.args[1], h)
        if is_given: c.need(bare(p) is some0(out), kk + ":output", "the model is written to %s, expected the given path" % show(p)[:100])
        else:
            c.need(same_path(tidied(pieces(p)), default), kk + ":output", "the model is written to %s" % show(p)[:100])
            c.need(any(x.name.startswith("fs::create_dir") and same_path(tidied(pieces(x.args[0])), default[:2]) for x in before), kk + ":dir", "the directory of the trained model has not been created")
    return depth

def same_path(a, b):
    a, b = tuple(a), tuple(b)
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else bare(x) is bare(y) for x, y in zip(a, b))

def start(c, prog):
    """the program starts the command it was given for the game it was given, with the configuration it was given"""
    key = "main"; GAMES = ("TicTacToe", "Backgammon"); seen = set()
    r = Run(c, prog, fn(prog, "main"), [], opaque={HANDLE}, typed={HANDLE}, trusted=TR)
    for o in r.outs:
        f = o.st.facts; evs = [e for e in o.st.trace if isinstance(e, Ev)]; h = [e for e in evs if e.name == HANDLE]; c.count("starts")
        args = [x for e in evs for x in [e.ret] if x is not None and is_call(x, "Parser::parse")]
        A = args[0] if args else call("Parser::parse")
        built = [e for e in evs if e.name == "ConfigBuilder::build"]
        nc = field(A, "n_cpus"); cpus = call("num_cpus::get")
        if o.kind != "ret":
            bad = any(l.op == "isv" and is_call(l.args[0], "ConfigBuilder::build") and v is (l.args[1] == "Err") for l, v in f.lits) or given(f, nc) is True and f.ev(le(some0(nc), cpus)) is False \
                or any(l.op == "isv" and v is (l.args[1] in ("Err", "None")) and (mentions(l, lambda z: is_call(z, "ThreadPoolBuilder::build_global")) or mentions(l, lambda z: is_call(z, "Path::to_str"))) for l, v in f.lits)
            c.need(not h and bad, key + ":stops", "the program stops when %s" % where(o)); continue
        if not c.need(len(h) == 1 and evs[-1] is h[0], key + ":handled", "%d commands are handled" % len(h)): continue
        e = h[0]; g = [x for x in GAMES if f.ev(isv(field(A, "game"), x, GAMES)) is True]
        c.need(len(g) == 1 and e.args[2].op == "str" and e.args[2].args[0] == g[0], key + ":game", "for %s the game played is %s" % (g, show(e.args[2])))
        seen.update(g)
        c.need(e.args[0] is field(A, "command"), key + ":command", "the command is %s" % show(e.args[0])[:100])
        if not c.need(len(built) == 1, key + ":config", "the configuration is built %d times" % len(built)): continue
        b = built[0]; res = b.ret if b.ret is not None else call(b.name, *b.args)
        c.need(f.ev(isv(res, "Ok", OKS)) is True and e.args[1] is ok_of(res), key + ":config", "the configuration used is %s" % show(e.args[1])[:160])
        files = [x for x in subterms(res) if is_call(x, "File::new") or is_call(x, "File::from") or is_call(x, "File::with_name")]
        given_ = given(f, field(A, "config"))
        if c.need(len(files) == 1, key + ":file", "the configuration is read from %d files" % len(files)):
            for h2, is_given in refine(f, lambda ask: ask(isv(field(A, "config"), "Some", OPT))):
                p = norm(files[0].args[1], h2)
                c.need(plain(p) is some0(field(A, "config")) if is_given else tidied(pieces(plain(p))) in (("./config",), ("config",)), key + ":file", "the configuration is read from %s" % show(p)[:120])
        th = [x for e_ in evs for x in e_.args if isinstance(x, T) and is_call(x, "ThreadPoolBuilder::num_threads")]
        if c.need(len(th) == 1, key + ":cpus", "the number of processors is set %d times" % len(th)):
            for h2, is_given in refine(f, lambda ask: ask(isv(nc, "Some", OPT))):
                n = norm(th[0].args[2], h2)
                if is_given: c.need(n is some0(nc) and h2.ev(le(n, cpus)) is True, key + ":cpus", "%s processors are used" % show(n)[:80])
                else: c.need(not mentions(n, lambda z: z is nc) and mentions(n, lambda z: z is cpus), key + ":cpus", "%s processors are used by default" % show(n)[:80])
    c.need(seen == set(GAMES), key + ":games", "games served: %s" % sorted(seen))

def plain(t):
    t = bare(t)
    for _ in range(4):
        if t.op == "p" and t.args[0].op == "p" and t.args[0].args[1] in (("v", "Some"), ("v", "Ok")) and t.args[0].args[0].op == "call" and t.args[0].args[0].args[0] in ("Path::to_str", "OsStr::to_str"): t = bare(t.args[0].args[0].args[1])
        elif t.op == "call" and t.args[0] in ("Path::new", "PathBuf::from", "From::from"): t = bare(t.args[1])
    return t
