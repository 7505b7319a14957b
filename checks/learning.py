"""Training and learning runs: the best model (C27), training steps (C28), loading and saving (C29), stored samples (C30)."""
from .common import *
from .tree import rw, field, TR
from .selfplay import Spec, call, is_call, some0, mem_parts, cases_of, row_of
from sa import terms as tm
from sa.engine import mk_min
import itertools
from fractions import Fraction

PLAY, FROM, NEWNET, FORWARD = "versus::play", "ResNet::from_path", "ResNet::new", "ResNet::forward_train"
SAVE, LOAD, COPY = "VarStore::save", "VarStore::load", "VarStore::copy"
BEST = "best_model"
def events(tr): return [e for e in tr if isinstance(e, Ev)]
def named(tr, *names): return [e for e in tr if isinstance(e, Ev) and e.name in names]
def lits(f, pol): return [l for l, v in f.lits if v is pol]
def ok_of(t): return proj(proj(t, ("v", "Ok")), ("f", "0"))
def is_path(t):
    """the path meant by a path value, through conversions that keep it"""
    while t.op == "call" and t.args[0] in ("Path::new", "PathBuf::from", "Path::to_path_buf", "PathBuf::as_path", "AsRef::as_ref", "Into::into", "From::from") and len(t.args) == 2: t = t.args[1]
    return t
def best_path(t): return t.op == "fmt" and BEST in show(t)
def ratio(t):
    """constant as a fraction near to it"""
    if t.op != "num": return None
    return Fraction(t.args[0]).limit_denominator(10 ** 9)

def possible(f, x):
    """some number satisfies every comparison of x with a constant"""
    cs = [(l, v) for l, v in f.lits if l.op in ("le", "lt", "eqc") and mentions(l, lambda z: z is x)]
    cs = [(l, v) for l, v in cs if all(subst(l, {x: num(i)}) in (TRUE, FALSE) for i in (0, 1))]
    pts = [Fraction(i, 400) for i in range(-1, 402)] + [Fraction(i, 400) + Fraction(1, 800) for i in range(-1, 402)]
    return any(all(subst(l, {x: num(p)}) is boolc(v) for l, v in cs) for p in pts)

# ---------------------------------------------------------------- C27
def c27(c, prog):
    me = sym("self"); key = "play_vs_best_model"
    r = Run(c, prog, fn(prog, "AlphaZero::play_vs_best_model"), [me], opaque={PLAY, FROM, NEWNET}, trusted=TR)
    mine = field(field(me, "model"), "vs"); n = {"none": 0, "won": 0, "kept": 0}
    for o in r.outs:
        tr = o.st.trace; f = o.st.facts
        ex = {e.args[0] for e in events(tr) if e.name.endswith("Path::exists")} | {l.args[1] for l, _ in f.lits if l.op == "call" and l.args[0].endswith("Path::exists")}
        c.count("paths")
        saves = named(tr, SAVE); others = [e for e in events(tr) if writes_files(e) and e.name != SAVE]
        c.need(not others, key + ":writes", "comparing models writes %s" % [str(e)[:120] for e in others])
        if not c.need(len(ex) == 1, key + ":looked", "the best model is looked for at %s" % [show(x)[:80] for x in ex]): continue
        where_ = ex.pop(); there = [v for l, v in f.lits if l.op == "call" and l.args[0].endswith("Path::exists")]
        c.need(is_best(where_), key + ":where", "the best model is looked for at %s" % show(where_)[:100])
        if not c.need(len(set(there)) == 1, key + ":exists", "the best model is replaced without looking whether there is one"): continue
        for e in saves: c.need(e.args[0] is mine and is_path(e.args[1]) is is_path(where_), key + ":saved", "%s is saved as %s" % (show(e.args[0])[:80], show(e.args[1])[:80]))
        games = named(tr, PLAY)
        if not there[0]:
            if o.kind == "ret": n["none"] += 1; c.need(len(saves) == 1 and not games, key + ":first", "without a best model %d models are saved and %d matches played" % (len(saves), len(games)))
            continue
        if not games: c.need(not saves and o.kind == "panic", key + ":unplayed", "the best model is %s without a match" % ("replaced" if saves else "kept")); continue
        if not c.need(len(games) == 1, key + ":match", "%d matches are played" % len(games)): continue
        res = call(PLAY, *games[0].args); wr = field(res, "winrate")
        sides(c, key, games[0], me, is_path(where_), f, tr)
        def spec(ask): return "won" if ask(le(num(Fraction(11, 20)), wr, False)) else "kept"
        for f2, case in refine(f, spec):
            if not possible(f2, wr): continue
            c.count("results")
            if case == "won":
                if o.kind == "ret": n["won"] += 1; c.need(len(saves) == 1, key + ":won", "a model that won at least 55 percent is saved %d times" % len(saves))
            else:
                n["kept"] += 1; c.need(not saves, key + ":lost", "the best model is replaced although fewer than 55 percent were won: %s" % where(o))
    c.need(all(n.values()), key + ":cases", "cases that end: %s" % n)
    # what a match between two models answers
    key = "play_vs_model"; other = sym("other")
    r = Run(c, prog, fn(prog, "AlphaZero::play_vs_model"), [me, other], opaque={PLAY, FROM, NEWNET}, trusted=TR)
    for o in r.outs:
        games = named(o.st.trace, PLAY)
        c.need(not [e for e in events(o.st.trace) if writes_files(e)], key + ":writes", "a match writes files")
        if o.kind != "ret": continue
        if not c.need(len(games) == 1, key + ":match", "%d matches are played" % len(games)): continue
        wr = field(call(PLAY, *games[0].args), "winrate")
        sides(c, key, games[0], me, None, o.st.facts, o.st.trace, other)
        def spec(ask):
            if ask(le(num(Fraction(11, 20)), wr, False)): return some(ONE)
            if ask(le(wr, num(Fraction(9, 20)), False)): return some(num(2))
            return NONE
        for f2, want in refine(o.st.facts, spec):
            if not possible(f2, wr): continue
            c.count("answers")
            c.need(implied_eq(o.val, want, f2), key + ":answer", "a match answers %s, expected %s when %s" % (show(o.val)[:60], show(want)[:60], str(f2)[-160:]))
    c.floor("paths", 3); c.floor("answers", 3); c.floor("results", 2)

def writes_files(e): return e.name in (SAVE, "Tensor::save", "VarStore::save_to_stream", "File::create", "fs::write", "fs::copy", "fs::rename", "fs::remove_file", "fs::remove_dir_all", "OpenOptions::open", "Tensor::save_multi") or e.name.endswith(("::write_all", "::save"))

def sides(c, key, e, me, path, f, tr, other=None):
    """player one is a copy of the current weights, player two the other model"""
    a, b, conf, temp = e.args[:4]
    for p, w in ((a, "one"), (b, "two")):
        t = field(p, "player_type")
        c.need(t.op == "agg" and t.args[0][2] == "Model", key + ":agent", "player %s is a %s" % (w, show(t)[:60]))
    c.need(conf is field(me, "mcts_config") and temp is field(field(me, "config"), "temperature"), key + ":settings", "the match is played with %s and %s" % (show(conf)[:80], show(temp)[:80]))
    m = some0(field(a, "model")); vs = field(m, "vs"); mine = field(field(me, "model"), "vs")
    cps = [x for x in named(tr, COPY) if x.args[1] is mine]
    copied = vs.op == "post" and vs.args[0].endswith("copy") and len(vs.args) == 4 and vs.args[3] is mine and any(f.ev(isv(call(COPY, *x.args), "Ok", ("Ok", "Err"))) is True and x.args[0] is vs.args[2] for x in cps)
    c.need(copied, key + ":current", "player one's weights are %s" % show(vs)[:160])
    if copied:
        base = vs.args[2]
        c.need(is_call(m.args[0] if m.op == "with" else m, NEWNET), key + ":current:net", "player one's network is %s" % show(m)[:120])
    m2 = some0(field(b, "model"))
    if other is not None: c.need(m2 is other, key + ":other", "player two's model is %s" % show(m2)[:120])
    else: c.need(is_call(m2, FROM) and is_path(m2.args[1]) is path, key + ":best", "player two's model is %s" % show(m2)[:160])
    c.count("sides")

# ---------------------------------------------------------------- C28
def finite(f, x):
    """the facts say that a tensor has no entry that is not a number or infinite"""
    bad = {"isnan": False, "isinf": False}
    for l, v in f.lits:
        if v is True and l.op == "call" and l.args[0] in ("f64::is_finite", "f32::is_finite") and is_call(l.args[1], "Tensor::double_value") and l.args[1].args[1] is x: return True
        if v is False and is_call(l, "Tensor::is_nonzero"):
            s = l.args[1]
            if s.op == "call" and s.args[0] in ("Tensor::sum", "Tensor::any"):
                t = s.args[1]
                for k in bad:
                    if is_call(t, "Tensor::" + k) and t.args[1] is x: bad[k] = True
    return all(bad.values())

def batch_of(t, fld, mem, bs, k):
    """t lists one field of the samples of batch k"""
    lo = mul(bs, k); hi = mk_min([length(mem), add(bs, lo)])
    if t.op != "comp" or len(t.args[1]) != 1 or t.args[1][0][0] or len(t.args[1][0][1]) != 1: return False
    n, alts, b = t.args
    return (rw(n) is rw(sub(hi, lo)) or n is mk_min([bs, sub(length(mem), lo)])) and alts[0][1][0] == ("e", field(proj(mem, ("i", add(lo, b))), fld))

def column(t):
    """a vector as a column"""
    if is_call(t, "Tensor::unsqueeze") and t.args[2] in (ONE, num(-1)): return t.args[1]
    if t.op == "call" and t.args[0] in ("Tensor::view", "Tensor::reshape") and len(t.args) >= 3 and show(t.args[2]) in ("[-1, 1]", "(-1, 1)", "[-1,1]"): return t.args[1]
    return None

def c28(c, prog):
    me, memory = sym("self"), sym("memory"); key = "train"
    r = Run(c, prog, fn(prog, "AlphaZero::train"), [me, mutref("memory")], None, {("g", "memory"): memory}, opaque={FORWARD}, trusted=TR)
    bs = field(field(me, "config"), "training_batch_size"); rets = 0
    for o in r.outs:
        tr = o.st.trace
        loops = [x for x in tr if isinstance(x, LoopRec) and any(named(b.trace, "Optimizer::step", "Tensor::backward", "Optimizer::zero_grad") for b in x.backs)]
        outside = named(tr, "Optimizer::step", "Optimizer::backward_step", "Optimizer::backward_step_clip")
        c.need(not outside, key + ":outside", "the weights are changed outside the loop over the batches, or before the stop when %s" % where(o))
        if o.kind != "ret":
            c.count("stops"); continue
        rets += 1
        m1 = o.st.mem[("g", "memory")]
        c.need(m1.op == "shuf" and m1.args[0] is memory, key + ":memory", "after training the samples are %s" % show(m1)[:120])
        if not c.need(len(loops) == 1, key + ":loop", "%d loops make training steps" % len(loops)): continue
        l = loops[0]
        want = call_cdiv(length(memory), bs)
        c.need(l.N is not None and l.N is want and l.exhaust, key + ":batches", "the number of batches is %s, expected samples over batch size, rounded up" % (show(l.N)[:120] if l.N is not None else "not bounded"))
        for b in l.backs:
            if consistent(b.facts): step(c, key, l, b, m1, bs, me)
    c.need(rets >= 1, key + ":returns", "training never ends")
    c.floor("steps", 1); c.floor("stops", 1)

def call_cdiv(a, b): return mk("cdiv", a, b)

def step(c, key, l, b, mem, bs, me):
    c.count("steps"); f = b.facts
    names = [e for e in events(b.trace) if e.name.startswith("Optimizer::") or e.name in ("Tensor::backward", "Tensor::zero_grad") or writes_weights(e)]
    if not c.need([e.name for e in names] == ["Optimizer::zero_grad", "Tensor::backward", "Optimizer::step"], key + ":order", "a training step does %s" % [e.name for e in names]): return
    opt = [j for j, x in enumerate(l.inits) if x is field(me, "optimizer")]
    c.need(len(opt) == 1 and names[0].args[0] is l.phis[opt[0]] and names[2].args[0].op == "post" and names[2].args[0].args[2] is names[0].args[0], key + ":optimizer", "a training step uses %s" % [show(e.args[0])[:60] for e in names])
    c.need(not any(isinstance(x, LoopRec) and any(writes_weights(e) for y in x.backs for e in events(y.trace)) for x in b.trace), key + ":inner", "a batch makes several steps")
    L = names[1].args[0]
    if not c.need(is_call(L, "Tensor::add") and len(L.args) == 3 or L.op == "add", key + ":loss", "the loss is %s" % show(L)[:160]): return
    parts = list(L.args[1:]); ce = [x for x in parts if is_call(x, "Tensor::cross_entropy_loss")]; ms = [x for x in parts if is_call(x, "Tensor::mse_loss")]
    if not c.need(len(ce) == 1 and len(ms) == 1, key + ":loss", "the loss is the sum of %s" % [show(x)[:60] for x in parts]): return
    ce, ms = ce[0], ms[0]
    net = {x for x in subterms(L) if is_call(x, FORWARD)}
    if not c.need(len(net) == 1, key + ":forward", "the loss uses %d evaluations of the network" % len(net)): return
    out = net.pop()
    c.need(out.args[1] is field(me, "model") and out.args[3] is TRUE, key + ":mode", "the network is evaluated as %s" % show(mk("call", *out.args[:2], *out.args[3:]))[:120])
    x = out.args[2]; y = x
    if is_call(y, "Tensor::squeeze_dim") and y.args[2] is ONE: y = y.args[1]
    c.need(is_call(y, "Tensor::stack") and y.args[2] is ZERO and y is not x and batch_of(y.args[1], "state", mem, bs, l.k), key + ":states", "the network is evaluated on %s" % show(x)[:200])
    P, V = proj(out, ("f", "0")), proj(out, ("f", "1"))
    c.need(ce.args[1] is P and is_call(ce.args[2], "Tensor::stack") and ce.args[2].args[2] is ZERO and batch_of(ce.args[2].args[1], "ps", mem, bs, l.k), key + ":policy", "the policy loss compares %s with %s" % (show(ce.args[1])[:80], show(ce.args[2])[:160]))
    rest = [show(z) for z in ce.args[3:]]
    c.need(len(rest) == 4 and "None" in rest[0] and "Mean" in rest[1] and ce.args[6] is ZERO, key + ":policy:options", "the policy loss has the options %s" % rest)
    got, aim = (ms.args[2], ms.args[1]) if ms.args[2] is V else (ms.args[1], ms.args[2])
    T_ = column(aim)
    good = got is V and T_ is not None and is_call(T_, "Tensor::from_slice") and batch_of(T_.args[1], "outcome", mem, bs, l.k)
    c.need(good, key + ":value", "the value loss compares %s with %s" % (show(ms.args[1])[:80], show(ms.args[2])[:160]))
    c.need("Mean" in show(ms.args[3]), key + ":value:options", "the value loss has the options %s" % show(ms.args[3])[:60])
    c.need(finite(f, L) or (finite(f, ce) and finite(f, ms)), key + ":finite", "a step is made with a loss that may not be finite")
def writes_weights(e): return e.name in ("Optimizer::step", "Optimizer::backward_step", "Optimizer::backward_step_clip", LOAD, COPY, "Optimizer::zero_grad_with_set_to_none") or e.name.startswith("Optimizer::clip") or e.name.startswith("Optimizer::set_")

# ---------------------------------------------------------------- C29
NEW, CONF, TRAIN, SELF, SELFP, STORE, READ, VSBEST = ("AlphaZero::" + x for x in ("new", "from_config", "train", "self_play", "self_play_parallel", "save_training_data", "load_training_data", "play_vs_best_model"))
PATHS = "get_all_paths_rec"
def pieces(t):
    """a path as a tuple of strings and values"""
    t = is_path(t)
    if t.op == "fmt": return t.args[0]
    if t.op == "str": return (t.args[0],)
    return (t,)
def tidied(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        elif p != "": out.append(p)
    if out and isinstance(out[-1], str) and out[-1].endswith("/") and len(out[-1]) > 1: out[-1] = out[-1].rstrip("/")
    return tuple(out)
def parent(ps):
    ps = list(ps)
    while ps:
        p = ps.pop()
        if isinstance(p, str) and "/" in p: return tidied(ps + [p[:p.rindex("/")]])
    return None
def created(ps, before):
    """the directory has been asked to be created, and every directory above it"""
    ps = tidied(ps)
    for i in range(len(before) - 1, -1, -1):
        e = before[i]
        if e.name == "fs::create_dir_all" and tidied(pieces(e.args[0])) == ps: return True
        if e.name == "fs::create_dir" and tidied(pieces(e.args[0])) == ps: 
            up = parent(ps)
            if up is not None and created(up, before[:i]): return True
    return False

def walk(trace, facts, before=(), loops=()):
    """every event of a path: (event, facts of the path it lies on, events before it, loops around it)"""
    before = list(before)
    for x in trace:
        if isinstance(x, Ev):
            yield x, facts, list(before), loops
            before.append(x)
        elif isinstance(x, LoopRec):
            for b in x.backs:
                if consistent(b.facts): yield from walk(b.trace, b.facts, before, loops + ((x, b),))
    return

def loaded(o, m, path):
    """the network m is a fresh one of which every weight was read from path without error"""
    net = m.args[0] if m.op == "with" else m
    if not is_call(net, NEWNET): return "the network is %s" % show(m)[:160]
    v0 = field(net, "vs"); loads = [e for e, *_ in walk(o.st.trace, o.st.facts) if e.name.startswith("VarStore::") and e.name not in ("VarStore::new", "VarStore::root", "VarStore::variables")]
    if path is None:
        return None if not loads and m is net else "without a model to load the network is %s" % show(m)[:160]
    if [e.name for e in loads] != [LOAD]: return "the weights are changed by %s" % [e.name for e in loads]
    e = loads[0]
    if e.args[0] is not v0: return "%s is loaded instead of the weights of the network" % show(e.args[0])[:120]
    if tidied(pieces(e.args[1])) != tidied(pieces(path)): return "the weights are read from %s" % show(e.args[1])[:120]
    if o.st.facts.ev(isv(call(LOAD, *e.args), "Ok", ("Ok", "Err"))) is not True: return "the network is used although loading its weights failed"
    if mk_with(net, ("f", "vs"), mk("post", LOAD, 0, *e.args)) is not m and mk_with(net, ("f", "vs"), mk("post", "load", 0, *e.args)) is not m: return "the network is %s" % show(m)[:200]
    return None

def bestfile(o):
    """(where the best model was looked for, whether it was there)"""
    ls = [(l.args[1], v) for l, v in o.st.facts.lits if l.op == "call" and l.args[0] in ("Path::exists", "Path::is_file")]
    return ls[0] if len(ls) == 1 else None
def is_best(t):
    ps = tidied(pieces(t))
    return len(ps) == 3 and ps[0] == "./models/" and ps[2] == "/best_model.ot" and is_call(ps[1], "LearnableGame::name")

def nan_in(t, x):
    """t is true when the tensor x holds a value that is not a number"""
    if t.op == "or": return any(nan_in(y, x) for y in t.args if isinstance(y, T))
    if t.op == "not":
        y = t.args[0]
        return is_call(y, "Tensor::is_nonzero") and is_call(y.args[1], "Tensor::all") and is_call(y.args[1].args[1], "Tensor::isfinite") and y.args[1].args[1].args[1] is x
    if not is_call(t, "Tensor::is_nonzero"): return False
    s = t.args[1]
    return s.op == "call" and s.args[0] in ("Tensor::sum", "Tensor::any") and is_call(s.args[1], "Tensor::isnan") and s.args[1].args[1] is x
def no_nan(f, S):
    """the facts exclude that a weight of S is not a number"""
    vs = mk("call", "VarStore::variables", field(field(S, "model"), "vs"))
    for l, v in f.lits:
        if v is False and l.op == "any" and l.args[0] is length(vs) and nan_in(l.args[1], proj(proj(vs, ("i", l.args[2])), ("f", "1"))): return True
    return False

def c29(c, prog):
    me = sym("self"); path, conf, mconf, op = sym("model_path"), sym("config"), sym("mcts_config"), sym("op")
    key = "new"
    r = Run(c, prog, fn(prog, NEW), [path, conf, mconf, op], opaque={NEWNET}, trusted=TR); n = {"given": 0, "best": 0, "fresh": 0}
    given = isv(path, "Some", ("None", "Some"))
    for o in r.outs:
        if o.kind != "ret": c.count("stops"); continue
        m = field(o.val, "model")
        for f, case in refine(o.st.facts, lambda ask: "given" if ask(given) else "none"):
            c.count("starts")
            if case == "given": w = some0(path)
            else:
                b = bestfile(o)
                if not c.need(b is not None and is_best(b[0]), key + ":looked", "without a model path the program does not look whether there is a best model: %s" % where(o)): continue
                case, w = ("best", b[0]) if b[1] else ("fresh", None)
            n[case] += 1
            bad = loaded(o, m, w)
            c.need(bad is None, key + ":" + case, bad)
        opt = field(o.val, "optimizer"); bs = [x for x in subterms(opt) if is_call(x, "OptimizerConfig::build")]
        net = m.args[0] if m.op == "with" else m
        good = len(bs) == 1 and opt is ok_of(bs[0]) and (bs[0].args[2] is field(m, "vs") or bs[0].args[2] is field(net, "vs"))
        c.need(good, key + ":optimizer", "the optimizer trains %s" % [show(x.args[2])[:100] for x in bs])
    c.need(all(n.values()), key + ":cases", "starts that succeed: %s" % n)

    key = "from_path"; p = sym("path")
    r = Run(c, prog, fn(prog, FROM), [p], opaque={NEWNET}, trusted=TR)
    for o in r.rets:
        bad = loaded(o, o.val, p); c.count("starts")
        c.need(bad is None, key, bad)
    c.need(r.rets, key + ":returns", "loading a model never succeeds")

    key = "learn_parallel"
    r = Run(c, prog, fn(prog, "AlphaZero::learn_parallel"), [mutref("az")], None, {("g", "az"): me}, opaque={SELFP, TRAIN, STORE, VSBEST}, trusted=TR)
    kinds = {SAVE: set(), VSBEST: set()}
    for o in r.outs:
        for e, f, before, loops in walk(o.st.trace, o.st.facts):
            if not (e.name in kinds or (writes_files(e) and not e.name.startswith("fs::create_dir"))): continue
            c.count("saves")
            if not c.need(e.name in kinds, key + ":other", "learning writes %s" % str(e)[:120]): continue
            if e.name == SAVE:
                w = e.args[0]; S = whole(w)
                if not c.need(S is not None, key + ":what", "%s is saved" % show(w)[:120]): continue
                c.need(not is_bestlike(e.args[1]), key + ":best", "the best model is written as %s" % show(e.args[1])[:100])
                c.need(created(parent(pieces(e.args[1])) or (), before), key + ":dir", "the directory of %s has not been created" % show(e.args[1])[:100])
            else: S = e.args[0]
            kinds[e.name].add(S)
            c.need(no_nan(f, S), key + ":nan", "%s without checking that its weights hold no NaN, when %s" % ("a model is saved" if e.name == SAVE else "a model is compared with the best", str(f)[:200]))
            trained = trained_in(o.st.trace, S, me)
            c.need(trained, key + ":trained", "%s is saved or compared, not the trained model" % show(S)[:100])
        if o.kind == "ret": c.count("runs")
    c.need(all(kinds.values()), key + ":cases", "saves and comparisons found: %s" % {k: len(v) for k, v in kinds.items()})

    key = "learn"
    r = Run(c, prog, fn(prog, "AlphaZero::learn"), [mutref("az")], None, {("g", "az"): me}, opaque={SELF, TRAIN, STORE, VSBEST}, trusted=TR)
    for o in r.outs:
        for e, f, before, loops in walk(o.st.trace, o.st.facts):
            if not writes_files(e) or e.name.startswith("fs::create_dir"): continue
            c.count("saves")
            if not c.need(e.name == SAVE, key + ":other", "learning writes %s" % str(e)[:120]): continue
            c.need(not is_bestlike(e.args[1]), key + ":best", "the best model is written as %s" % show(e.args[1])[:100])
            c.need(created(parent(pieces(e.args[1])) or (), before), key + ":dir", "the directory of %s has not been created" % show(e.args[1])[:100])
    c.floor("starts", 4); c.floor("saves", 3); c.floor("runs", 1)

def is_bestlike(t): return any(isinstance(p, str) and "best" in p for p in pieces(t))
def whole(w):
    """S of S.model.vs"""
    if w.op == "p" and w.args[1] == ("f", "vs") and w.args[0].op == "p" and w.args[0].args[1] == ("f", "model"): return w.args[0].args[0]
    return None
def trained_in(tr, S, me):
    """S is the value a loop over the training passes ends with (or what one pass leaves)"""
    if S.op == "post" and S.args[0].endswith("train"): return True
    for x in tr:
        if not isinstance(x, LoopRec): continue
        for j, ph in enumerate(x.phis):
            if ph is S and x.backs and all(b.nexts[j].op == "post" and b.nexts[j].args[0].endswith("train") and b.nexts[j].args[2] is S for b in x.backs if consistent(b.facts)): return True
        if any(trained_in(b.trace, S, me) for b in x.backs): return True
    return False

# ---------------------------------------------------------------- C30
def column_of(t, data, fld):
    """t lists one field of every sample, in order"""
    if t.op != "comp": return False
    n, alts, b = t.args
    return len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and n is length(data) and alts[0][1][0] == ("e", field(proj(data, ("i", b)), fld))

def stored_as(t, data):
    """which field of the samples a stored tensor holds, one sample per row: (field, how)"""
    for _ in range(4):
        if t.op == "call" and t.args[0] in ("Tensor::to_device", "Tensor::to_kind", "Tensor::contiguous", "Tensor::detach"): t = t.args[1]
    if t.op != "call": return None
    nm = t.args[0]
    for fld in ("ps", "state", "outcome"):
        if len(t.args) >= 2 and column_of(t.args[1], data, fld):
            if fld == "outcome" and nm == "Tensor::from_slice": return fld
            if fld != "outcome" and nm == "Tensor::stack" and t.args[2] is ZERO: return fld
            if fld == "state" and nm in ("Tensor::concat", "Tensor::cat") and t.args[2] is ZERO: return fld
    return None

def row_read(t, b):
    """(file, changes) of row b of a tensor that was read from a file"""
    if t.op == "call" and t.args[0] in ("Tensor::int64_value", "Tensor::double_value") and t.args[2] is vec(b): t = mk("call", "Tensor::get", t.args[1], b)
    while t.op == "call" and t.args[0] in ("Tensor::squeeze", "Tensor::int64_value", "Tensor::flatten", "Tensor::to_kind", "Tensor::to_device", "Tensor::double_value", "Tensor::contiguous"):
        t = t.args[1]
    w = row_of(t)
    if w is None or w[1] is not b: 
        if t.op == "p" and t.args[1] == ("i", b): w = (t.args[0], b)
        else: return None
    x = w[0]
    if x.op == "p" or x.op == "call":
        for y in subterms(x):
            if is_call(y, "Tensor::load") and (ok_of(y) is x or is_call(x, "TryFrom::try_from") or x.op == "p" and mentions(x, lambda z: is_call(z, "TryFrom::try_from")) and not mentions(x, lambda z: z.op == "call" and z.args[0].startswith("Tensor::") and z is not y)): return y
    return None

def c30(c, prog):
    me, data, dir_ = sym("self"), sym("data"), sym("path"); files = {}
    key = "save_training_data"
    r = Run(c, prog, fn(prog, STORE), [me, data, dir_], trusted=TR)
    for o in r.outs:
        for e in events(o.st.trace): c.need(not writes_files(e) or e.name == "Tensor::save", key + ":other", "storing samples does %s" % str(e)[:120])
        if o.kind != "ret": c.count("stops"); continue
        sv = [(e, f, l) for e, f, b, l in walk(o.st.trace, o.st.facts) if e.name == "Tensor::save"]; got = {}
        for e, f, l in sv:
            ps = tidied(pieces(e.args[1])); fld = stored_as(e.args[0], data); c.count("files")
            c.need(f.ev(isv(call("Tensor::save", *e.args), "Ok", ("Ok", "Err"))) is True, key + ":checked", "a failed write to %s goes unnoticed" % show(e.args[1])[:80])
            c.need(len(ps) == 2 and ps[0] is dir_ and isinstance(ps[1], str) and ps[1].startswith("/") and not l, key + ":where", "samples are written to %s" % show(e.args[1])[:100])
            c.need(fld is not None, key + ":what", "%s is stored" % show(e.args[0])[:160])
            c.need(fld not in got and ps not in got.values(), key + ":twice", "the files %s and %s collide" % (got, show(e.args[1])[:60])); got[fld] = ps
        c.need(set(got) == {"ps", "state", "outcome"}, key + ":all", "stored are %s" % sorted(map(str, got)))
        for k, v in got.items():
            if len(v) == 2: c.need(files.setdefault(k, v[1]) == v[1], key + ":name", "two names for %s" % k)
    c.need(r.rets, key + ":returns", "storing never succeeds")

    key = "load_training_data"
    r = Run(c, prog, fn(prog, READ), [dir_], trusted=TR)
    for o in r.outs:
        if o.kind != "ret": c.count("stops"); continue
        for e in named(o.st.trace, "Tensor::load"):
            c.need(o.st.facts.ev(isv(call("Tensor::load", *e.args), "Ok", ("Ok", "Err"))) is True, key + ":checked", "a failed read of %s goes unnoticed" % show(e.args[0])[:80])
        t = o.val
        if not c.need(t.op == "comp" and len(t.args[1]) == 1 and not t.args[1][0][0] and len(t.args[1][0][1]) == 1 and t.args[1][0][1][0][0] == "e", key + ":list", "loading gives %s" % show(t)[:200]): continue
        n, alts, b = t.args; x = alts[0][1][0][1]
        ld = {}
        for fld, k in (("ps", "ps"), ("state", "state"), ("outcome", "outcome")):
            y = row_read(field(x, fld), b)
            if not c.need(y is not None, key + ":" + fld, "the %s of sample i is %s" % (fld, show(field(x, fld))[:200])): continue
            ld[fld] = y; ps = tidied(pieces(y.args[1])); c.count("columns")
            c.need(len(ps) == 2 and ps[0] is dir_ and ps[1] == files.get(fld), key + ":file", "the %s is read from %s but stored in %s" % (fld, show(y.args[1])[:80], files.get(fld)))
        sizes = [z for y in ld.values() for x_ in [ok_of(y)] for z in (proj(mk("call", "Tensor::size", x_), ("i", ZERO)), proj(ok_of(mk("call", "Tensor::size1", x_)), ("f", "0")), ok_of(mk("call", "Tensor::size1", x_)))]
        c.need(any(n is z for z in sizes), key + ":count", "the number of samples read is %s" % show(n)[:120])
    c.need(r.rets, key + ":returns", "loading never succeeds")

    key = "learn_parallel"
    r = Run(c, prog, fn(prog, "AlphaZero::learn_parallel"), [mutref("az")], None, {("g", "az"): me}, opaque={SELFP, TRAIN, STORE, VSBEST}, trusted=TR)
    for o in r.outs:
        evs = list(walk(o.st.trace, o.st.facts))
        for e, f, before, loops in evs:
            if e.name == SELFP:
                # the samples of this call
                inside = [x for x, f2, b2, l2 in evs if x.name == STORE and [l[0] for l in l2] == [l[0] for l in loops] and [l[1] for l in l2] == [l[1] for l in loops]]
                c.count("iterations"); res = call(SELFP, *e.args)
                if not loops: continue     # the iteration the program stops in
                if o.kind != "ret" and len(loops) < 2: continue
                if not c.need(len(loops) >= 2, key + ":nested", "self-play is not repeated in every learning iteration"): continue
                st = [x for x in inside if x.args[1] is res]
                c.need(len(st) == 1 and len(inside) == 1, key + ":stored", "the samples of a self-play iteration are stored %d times: %s" % (len(st), [show(x.args[1])[:80] for x in inside]))
                L, b = loops[-1]
                c.need(L.N is field(field(e.args[0], "config"), "self_play_iterations"), key + ":count", "self-play is repeated %s times" % (show(L.N)[:80] if L.N is not None else "unboundedly many"))
                js = [j for j, ph in enumerate(L.phis) if any(b.nexts[j] is mk_cat(ph, y) for y in [res] + [x.ret for x in ()])]
                c.need(len(js) == 1 and L.inits[js[0]] in (vec(),), key + ":memory", "the samples of an iteration are kept in %s" % [show(x)[:80] for x in b.nexts])
                if len(js) == 1:
                    after = [x for x, f2, b2, l2 in evs if x.name == TRAIN]
                    c.count("trainings", len(after))
            if e.name == STORE:
                ps = tidied(pieces(e.args[2])); c.count("stores")
                c.need(created(ps, before), key + ":dir", "the directory %s has not been created" % show(e.args[2])[:60])
                ks = [x for x in ps if isinstance(x, T)]
                want = [l[0].k for l in loops]
                comps = components(ps)
                c.need(comps is not None and all(any(len(cm) == 2 and is_index(cm[1], k) for cm in comps) for k in want), key + ":own", "two iterations share the directory %s" % show(mk("fmt", tuple(ps[-4:])))[:200])
                c.need(comps is not None and any(isinstance(x, T) and drawn_anew(x) for cm in comps for x in cm), key + ":run", "two runs share the directory %s" % show(e.args[2])[:60])
                c.need(comps is not None and comps[-1][0] == "sp-", key + ":name", "the directory of an iteration is named %s" % (comps and comps[-1],))
            if e.name == TRAIN and loops: memory_trained(c, key, o, e, loops)
    c.floor("files", 3); c.floor("columns", 3); c.floor("stores", 1); c.floor("iterations", 1)

    key = "get_all_paths_rec"
    walk_dirs(c, prog, key)

def is_index(t, k):
    return t is k or t.op == "poly" and mentions(t, lambda z: z is k) and sub(t, k).op == "num"
def components(ps):
    """the names of a path, each a tuple of strings and values"""
    out = [[]]
    for p in ps:
        if isinstance(p, str):
            segs = p.split("/")
            if segs[0]: out[-1].append(segs[0])
            for s in segs[1:]: out.append([s] if s else [])
        else: out[-1].append(p)
    return [tuple(x) for x in out]
def mk_cat(a, b): return mk("cat", a, b)

def memory_trained(c, key, o, e, loops):
    L, b = loops[-1]
    js = [j for j, ph in enumerate(L.phis) if ph is e.args[1]]
    if not c.need(len(js) == 1, key + ":trained", "training uses %s" % show(e.args[1])[:120]): return
    t = L.inits[js[0]]; c.count("trainings")
    good = t.op == "comp" and len(t.args[1]) == 1 and not t.args[1][0][0] and len(t.args[1][0][1]) == 1 and t.args[1][0][1][0][0] == "s" and is_call(t.args[1][0][1][0][1], SELFP)
    c.need(good, key + ":trained", "training starts with %s" % show(t)[:200])
    c.need(L.N is not None and L.N.op == "p" and L.N.args[1] == ("f", "num_epochs"), key + ":epochs", "training is repeated %s times" % (show(L.N)[:80] if L.N is not None else "unboundedly many"))

def walk_dirs(c, prog, key):
    """the directories listed are the self-play directories at or below the given one"""
    d = sym("dir"); res = sym("res")
    r = Run(c, prog, fn(prog, PATHS), [d, mutref("res")], None, {("g", "res"): res}, trusted=TR)
    rec = "rec:" + PATHS; n = {"leaf": 0, "sp": 0, "dir": 0, "error": 0}
    isdir = call("Path::is_dir", d); name = call("Path::file_name", d); list_ = call("fs::read_dir", d)
    for o in r.outs:
        f = o.st.facts
        if o.kind != "ret": c.count("stops"); continue
        c.count("walks"); after = o.st.mem[("g", "res")]
        loops = [x for x in o.st.trace if isinstance(x, LoopRec)]; recs = [(e, l) for e, _, _, l in walk(o.st.trace, f) if e.name == rec]
        isok = f.ev(isv(o.val, "Ok", ("Ok", "Err")))
        if not c.need(isok is not None, key + ":answer", "the walk answers %s" % show(o.val)[:100]): continue
        d_ = f.ev(isdir)
        if not c.need(d_ is not None, key + ":isdir", "a path is listed or entered without looking whether it is a directory"): continue
        if d_ is False:
            n["leaf"] += 1; c.need(after is res and isok and not recs, key + ":file", "for something that is no directory the list becomes %s" % show(after)[:120]); continue
        sp = f.ev(call("str::starts_with", some0(name), mk("str", "sp-")))
        if not c.need(sp is not None, key + ":name", "the name of a directory does not decide whether it is listed: %s" % where(o)): continue
        if sp:
            n["sp"] += 1; c.need(after is push(res, d) and isok and not recs, key + ":listed", "for a self-play directory the list becomes %s" % show(after)[:120]); continue
        failed = f.ev(isv(list_, "Ok", ("Ok", "Err"))) is False
        if failed:
            n["error"] += 1; c.need(not isok, key + ":unreadable", "a directory that cannot be read is skipped"); continue
        if not isok: n["error"] += 1; c.need(errors(f), key + ":error", "an error is reported for %s" % where(o)); continue
        n["dir"] += 1
        if not c.need(len(loops) == 1, key + ":loop", "the entries of a directory are visited by %d loops" % len(loops)): continue
        L = loops[0]; lst = ok_of(list_)
        c.need(L.N is not None and L.N is length(lst) and L.exhaust, key + ":entries", "%s entries are visited" % (show(L.N)[:80] if L.N is not None else "some"))
        for b in L.backs:
            if not consistent(b.facts): continue
            c.count("entries")
            es = [e for e in events(b.trace) if e.name == rec]
            if not c.need(len(es) == 1, key + ":entered", "an entry is entered %d times" % len(es)): continue
            e = es[0]; ent = proj(lst, ("i", L.k)); want = call("DirEntry::path", ok_of(ent))
            c.need(e.args[0] is want, key + ":which", "entered is %s" % show(e.args[0])[:120])
            c.need(b.facts.ev(isv(ent, "Ok", ("Ok", "Err"))) is True and b.facts.ev(isv(call(rec, *e.args), "Ok", ("Ok", "Err"))) is True, key + ":ignored", "an error in an entry is ignored")
            js = [j for j, ph in enumerate(L.phis) if ph is e.args[1]]
            c.need(len(js) == 1 and L.inits[js[0]] is res and b.nexts[js[0]].op == "post" and b.nexts[js[0]].args[2:] == e.args, key + ":carried", "the list after an entry is %s" % [show(x)[:100] for x in b.nexts])
    c.need(all(n.values()), key + ":cases", "cases: %s" % n)
    c.floor("entries", 1)
def errors(f):
    """a result is known to be an error"""
    return any(l.op == "isv" and (l.args[1] == "Ok" and v is False or l.args[1] == "Err" and v is True) for l, v in f.lits)

# ---------------------------------------------------------------- C36
def c36(c, prog):
    """a learning run is made of complete iterations: play, train on what was played, save, compare"""
    me = sym("self")
    for nm, play in (("AlphaZero::learn_parallel", SELFP), ("AlphaZero::learn", SELF)):
        key = nm.split("::")[1]; names = {play, TRAIN, SAVE, VSBEST}
        r = Run(c, prog, fn(prog, nm), [mutref("az")], None, {("g", "az"): me}, opaque={SELF, SELFP, TRAIN, STORE, VSBEST}, trusted=TR)
        ended = 0
        for o in r.outs:
            evs = [(e, l) for e, f, b, l in walk(o.st.trace, o.st.facts) if e.name in names]
            if o.kind == "ret":     # a run that stops says so; what it did before is an iteration like any other
                out = [e for e, l in evs if not l]
                c.need(not out, key + ":outside", "%s is called outside the iterations, or an iteration is left before its end" % sorted({e.name for e in out}))
                tops = {id(l[0][0]): l[0][0] for e, l in evs if l}
                if not c.need(len(tops) == 1, key + ":loop", "the iterations are made by %d loops" % len(tops)): continue
                L = next(iter(tops.values())); ended += 1
                if not c.need(L.N is field(field(me, "config"), "learn_iterations"), key + ":count", "a run makes %s iterations" % (show(L.N)[:80] if L.N is not None else "an unknown number of")): continue
                c.need(L.exhaust or o.st.facts.ev(le(L.N, L.k)) is True, key + ":ends", "a run ends before its last iteration when %s" % str(o.st.facts)[:240])
            if o.kind != "ret": continue
            seen = set()
            for e, l in evs:
                if not l or id(l[0][1]) in seen: continue
                seen.add(id(l[0][1])); iteration(c, key, l[0], [(x, m) for x, m in evs if m and m[0][1] is l[0][1]], play, nm.endswith("parallel"))
        c.need(ended, key + ":ends", "a run never ends")
    c.floor("iterations", 3)

def iteration(c, key, top, evs, play, compares):
    """one iteration on one path: evs are its calls in order, each with the loops around it"""
    L, b = top; c.count("iterations")
    what = [e.name for e, m in evs]
    n = lambda x: [i for i, y in enumerate(what) if y == x]
    for x, w in ((play, "self-play"), (TRAIN, "training"), (SAVE, "saving the model")) + (((VSBEST, "the comparison with the best model"),) if compares else ()):
        if not c.need(n(x), key + ":missing", "an iteration goes without %s when %s" % (w, str(b.facts)[-240:])): return
    c.need(max(n(play)) < min(n(TRAIN)), key + ":order", "training starts before self-play has ended")
    c.need(max(n(TRAIN)) < min(n(SAVE)), key + ":order", "the model is saved before its training has ended")
    if n(VSBEST): c.need(max(n(TRAIN)) < min(n(VSBEST)), key + ":order", "the model is compared before its training has ended")
    # repeated as often as configured, once a time
    model = None
    for x, knob, w in ((play, "self_play_iterations", "self-play"), (TRAIN, "num_epochs", "training")):
        ls = [m for i, (e, m) in enumerate(evs) if what[i] == x]
        if not c.need(all(len(m) == 2 for m in ls), key + ":repeat", "%s is repeated by %s loops" % (w, [len(m) - 1 for m in ls])): return
        ins = {id(m[1][0]): m[1][0] for m in ls}
        if not c.need(len(ins) == 1, key + ":repeat", "%s is done in %d loops" % (w, len(ins))): return
        I = next(iter(ins.values())); c.count("repetitions")
        c.need(I.exhaust and setting_of(I.N, knob), key + ":repeat", "%s is repeated %s times" % (w, show(I.N)[:80] if I.N is not None else "unboundedly many"))
        for q in I.backs:
            if consistent(q.facts): c.need(len([1 for m in ls if m[1][1] is q]) == 1, key + ":once", "one repetition calls %s %d times" % (w, len([1 for m in ls if m[1][1] is q])))
    # which model plays, is trained, saved, compared and carried on
    P = {e.args[0] for i, (e, m) in enumerate(evs) if what[i] == play}
    if not c.need(len(P) == 1 and next(iter(P)) in L.phis, key + ":plays", "self-play is made by %s" % [show(x)[:80] for x in P]): return
    P = next(iter(P)); j = L.phis.index(P); S = b.nexts[j]
    c.need(L.inits[j] is sym("self"), key + ":start", "the first iteration starts with %s" % show(L.inits[j])[:80])
    for i, (e, m) in enumerate(evs):
        if what[i] == TRAIN:
            I, q = m[1]
            js = [a for a, ph in enumerate(I.phis) if ph is e.args[0]]
            c.need(len(js) == 1 and I.inits[js[0]] is P and q.nexts[js[0]].op == "post" and q.nexts[js[0]].args[2] is e.args[0], key + ":trains", "trained is %s" % show(e.args[0])[:80])
            c.need(S is e.args[0], key + ":carried", "the next iteration goes on with %s" % show(S)[:80])
            trained_on(c, key, e, m[1], play, P)
        elif what[i] == SAVE:
            if not c.need(len(m) == 1 and len(n(SAVE)) == 1, key + ":saves", "the model of an iteration is saved %d times" % len(n(SAVE))): continue
            c.need(whole(e.args[0]) is S, key + ":saved", "saved are the weights %s" % show(e.args[0])[:80])
            cs = components(tidied(pieces(e.args[1])))
            c.need(cs and any(isinstance(z, T) and is_index(z, L.k) for cm in cs for z in cm), key + ":name", "every iteration saves to %s" % show(e.args[1])[:120])
        elif what[i] == VSBEST:
            c.need(len(m) == 1 and len(n(VSBEST)) == 1 and e.args[0] is S, key + ":compared", "%s is compared, %d times" % (show(e.args[0])[:80], len(n(VSBEST))))

def setting_of(t, name): return t is not None and t.op == "p" and t.args[1] == ("f", name) and t.args[0].op == "p" and t.args[0].args[1] == ("f", "config")
def trained_on(c, key, e, loop, play, P):
    """training starts with the samples of this iteration, all of them"""
    L, b = loop
    js = [j for j, ph in enumerate(L.phis) if ph is e.args[1]]
    if not c.need(len(js) == 1, key + ":samples", "training uses %s" % show(e.args[1])[:120]): return
    t = L.inits[js[0]]; c.count("trainings")
    good = t.op == "comp" and len(t.args[1]) == 1 and not t.args[1][0][0] and len(t.args[1][0][1]) == 1
    if good:
        tag, x = t.args[1][0][1][0]
        good = tag == "s" and is_call(x, play) and x.args[1] is P and setting_of(t.args[0], "self_play_iterations")
    c.need(good, key + ":samples", "training starts with %s" % show(t)[:200])
    c.need(b.nexts[js[0]].op == "post" and e.args[1] in b.nexts[js[0]].args, key + ":samples", "the samples of the next training pass are %s" % show(b.nexts[js[0]])[:120])
