"""The network's layers and heads (C12): construction and forward passes evaluated over a domain of tensor shapes."""
from .common import *
from .tree import rw, tidy, field
from sa import terms as tm

PURE = ("Tensor::apply_t", "Tensor::apply", "ModuleT::forward_t", "Module::forward", "nn::seq_t", "SequentialT::add", "SequentialT::add_fn", "SequentialT::add_fn_t",
        "nn::conv2d", "nn::conv", "nn::batch_norm2d", "nn::linear", "nn::seq", "Sequential::add", "Sequential::add_fn", "Path::sub", "Path::root", "VarStore::root")

class Bad(Exception): pass
class Img:
    """rows of `ch` planes of the size of the board"""
    def __init__(self, ch, chain=(), ends=None): self.ch = ch; self.chain = chain; self.ends = ends
class Flat:
    """rows of n numbers"""
    def __init__(self, n, chain=(), ends=None): self.n = n; self.chain = chain; self.ends = ends
def after(x, what):
    r = Img(x.ch) if isinstance(x, Img) else Flat(x.n)
    r.chain = x.chain + (what,); r.ends = what[0]; return r
def same_shape(x, y): return type(x) is type(y) and (x.ch is y.ch if isinstance(x, Img) else x.n is y.n)

def fnname(f):
    while f.op == "ref": return None
    if f.op == "fn":
        from sa.mir import short
        def strs(x):
            if isinstance(x, str): yield x
            elif isinstance(x, T):
                for y in x.args: yield from strs(y)
            elif isinstance(x, tuple):
                for y in x: yield from strs(y)
        for s in strs(f.args):
            if "Tensor>::" in s or "Tensor::" in s: return "Tensor::" + s.split("::")[-1]
    return None

class Net:
    def __init__(self, c, prog, vs, conv, train):
        self.c = c; self.prog = prog; self.vs = vs; self.conv = conv; self.train = train; self.layers = 0; self.where = ""
    def default(self, v, name): return v.op == "p" and v.args[1] == ("f", name) and v.args[0].op == "call" and v.args[0].args[0] == "Default::default"
    def in_store(self, p):
        """a path of the store the network keeps"""
        while p.op == "call" and (p.args[0] in ("Path::sub", "Div::div", "Path::clone", "Clone::clone") or p.args[0].endswith("::div")): p = p.args[1]
        if not (p.op == "call" and p.args[0] == "VarStore::root" and p.args[1] is self.vs): raise Bad("a layer whose weights live in %s" % show(p)[:120])
    def run(self, f, args):
        e = Engine(self.prog, pure=PURE); f, args = rw(f), list(args)
        outs = e.call_value(State({}, Facts()), f, args, ("net",))
        return self.only(outs)
    def only(self, outs):
        vals = {rw(o.val) for o in outs if o.kind == "ret"}
        if len(vals) != 1 or any(o.kind == "ret" and o.st.trace for o in outs): raise Bad("a step with cases or effects: %s" % [show(v)[:100] for v in vals])
        return vals.pop()
    # a layer applied to a value
    def layer(self, l, x):
        if l.op == "call":
            n, a = l.args[0], l.args[1:]
            if n in ("nn::seq_t", "nn::seq"): return x
            if n in ("SequentialT::add", "Sequential::add"): return self.layer(a[1], self.layer(a[0], x))
            if n in ("SequentialT::add_fn", "Sequential::add_fn", "SequentialT::add_fn_t"):
                x = self.layer(a[0], x); f = a[1]; nm = fnname(f)
                v = sym("x#")
                if nm: return self.tensor(mk("call", nm, v), {v: x})
                return self.tensor(self.run(f, [v] + ([self.train] if n.endswith("_t") else [])), {v: x})
            self.layers += 1; self.c.count("layers")
            if n in ("nn::conv2d", "nn::conv"):
                path, cin, cout, k, cfg = a
                self.in_store(path)
                if not isinstance(x, Img): raise Bad("a convolution of numbers in a row")
                if x.ch is not cin: raise Bad("a convolution of %s planes on %s planes" % (show(cin)[-60:], show(x.ch)[-60:]))
                g = lambda f: proj(cfg, ("f", f))
                one = lambda f: self.default(g(f), f) or g(f) is ONE
                d = g("dilation"); d = 1 if self.default(d, "dilation") else d.args[0] if d.op == "num" else None
                p = g("padding"); p = 0 if self.default(p, "padding") else p.args[0] if p.op == "num" else None
                if not one("stride") or not one("groups") or d is None or p is None or k.op != "num" or 2 * p != d * (k.args[0] - 1): raise Bad("a convolution that changes the size of the board")
                r = Img(cout); r.chain = x.chain + (("conv", l),); r.ends = "conv"; return r
            if n == "nn::batch_norm2d":
                self.in_store(a[0])
                if not isinstance(x, Img) or x.ch is not a[1]: raise Bad("normalisation of %s planes after %s" % (show(a[1])[-60:], show(x.ch)[-60:] if isinstance(x, Img) else "a row"))
                return after(x, ("bn", l))
            if n == "nn::linear":
                self.in_store(a[0])
                if not isinstance(x, Flat): raise Bad("a linear layer on planes")
                if x.n is not a[1]: raise Bad("a linear layer of %s inputs on %s numbers" % (show(a[1])[:120], show(x.n)[:120]))
                r = Flat(a[2]); r.chain = x.chain + (("linear", l),); r.ends = "linear"; return r
        if l.op == "fold":                                   # a layer repeated
            at, i, inits, body, bv = l.args
            if len(body) != 1 or len(inits) != 1: raise Bad("layers added with cases")
            x = self.layer(inits[i], x)
            nx = body[0][1][i]
            if not (nx.op == "call" and nx.args[0] == "SequentialT::add" and nx.args[1].op == "ph"): raise Bad("layers added as " + show(nx)[:120])
            y = self.layer(nx.args[2], x)
            if not same_shape(x, y): raise Bad("a repeated layer that changes the number of planes")
            self.repeated = at
            y.chain = x.chain + (("times", at, y.chain[len(x.chain):]),); return y
        if l.op == "agg" and l.args[0][0] == "adt":
            b = [b for p, b in self.prog.bodies.items() if p.endswith("::%s as tch::nn::ModuleT>::forward_t" % l.args[0][1].split("::")[-1])]
            if len(b) == 1:
                v = sym("x#")
                e = Engine(self.prog, pure=PURE)
                this = sym("self#"); t = self.only(e.run_body(b[0], [this, v, self.train], State({}, Facts()), ("net", b[0].path)))
                names = l.args[1]
                before = self.layers
                m = {field(this, n): l.args[2][i] for i, n in enumerate(names)}
                return self.block(t, v, x, this, dict(zip(names, l.args[2])))
        raise Bad("layer " + show(l)[:160])
    def block(self, t, v, x, this, fields):
        """a residual block: relu(x + bn(conv(relu(bn(conv(x))))))"""
        m = {field(this, n): y for n, y in fields.items()}
        ends = []
        while t.op == "call" and t.args[0] in RELU: t = t.args[1]; ends.append("relu")
        if not (t.op == "call" and t.args[0] in ADD): raise Bad("a residual block that adds nothing back")
        a, b = t.args[1:3]
        if a is v: a, b = b, a
        if b is not v or a is v: raise Bad("a residual block that adds back something other than its input")
        if mentions(a, lambda z: z.op == "call" and z.args[0] in ADD): raise Bad("a residual block with inner sums")
        used = [z for z in applied(a)]
        if sorted(used) != sorted(field_names(m, this)): raise Bad("a residual block that uses its layers %s" % used)
        y = self.tensor(subst(a, m), {v: x})
        kinds = [k[0] for k in y.chain[len(x.chain):]]
        if kinds != ["conv", "bn", "relu", "conv", "bn"] or ends != ["relu"]: raise Bad("a residual block made of %s" % (kinds + ["add"] + ends))
        if not same_shape(x, y): raise Bad("a residual block that changes the number of planes")
        r = Img(y.ch); r.chain = x.chain + (("block", tuple(y.chain[len(x.chain):])),); r.ends = "relu"
        return r
    # a tensor expression
    def tensor(self, t, env):
        if t in env: return env[t]
        if t.op == "call":
            n, a = t.args[0], t.args[1:]
            if n in ("Tensor::apply_t", "ModuleT::forward_t"):
                if n == "Tensor::apply_t": x, l, tr = a[:3]
                else: l, x, tr = a[:3]
                if tr is not self.train: raise Bad("a layer that is not told whether the network is being trained")
                return self.layer(rw(l), self.tensor(x, env))
            if n in ("Tensor::apply", "Module::forward") and len(a) == 2:      # layers that do not ask (no normalisation)
                x, l = a if n == "Tensor::apply" else (a[1], a[0])
                return self.layer(rw(l), self.tensor(x, env))
            if n in RELU: return after(self.tensor(a[0], env), ("relu",))
            if n in ("Tensor::tanh", "Tensor::tanh_"): return after(self.tensor(a[0], env), ("tanh",))
            if n == "Tensor::softmax":
                x = self.tensor(a[0], env)
                if not isinstance(x, Flat) or a[1] not in (ONE, num(-1)): raise Bad("a softmax over other than the actions of a row")
                return after(x, ("softmax",))
            if n in ("Tensor::flatten",) and a[1] is ONE and a[2] in (num(-1), num(3)) or n in ("Tensor::flat_view",):
                x = self.tensor(a[0], env)
                if isinstance(x, Flat): return x
                r = Flat(mul(x.ch, self.conv)); r.chain = x.chain + (("flatten",),); return r
        raise Bad("operation " + show(t)[:160])
RELU = ("Tensor::relu", "Tensor::relu_"); ADD = ("Tensor::add", "Tensor::g_add", "Add::add", "Tensor::add_", "Tensor::g_add_")
def by_row(t):
    """the last axis of a policy is its second"""
    m = {x: mk("call", x.args[0], x.args[1], ONE, *x.args[3:]) for x in subterms(t) if x.op == "call" and x.args[0] == "Tensor::softmax" and x.args[2] is num(-1)}
    return subst(t, m) if m else t
def applied(t):
    while t.op == "call":
        if t.args[0] in ("Tensor::apply_t", "Tensor::apply"):
            if t.args[2].op == "p": yield t.args[2].args[1][1]
            t = t.args[1]
        elif t.args[0] == "ModuleT::forward_t":
            if t.args[1].op == "p": yield t.args[1].args[1][1]
            t = t.args[2]
        else: t = t.args[1]
def field_names(m, this): return [k.args[1][1] for k in m]

def constant(t, name):
    """is t the game's constant of that name"""
    def strs(x):
        if isinstance(x, str): yield x
        elif isinstance(x, T):
            for y in x.args: yield from strs(y)
        elif isinstance(x, tuple):
            for y in x: yield from strs(y)
    return t.op == "const" and any(s.endswith("::LearnableGame::" + name) for s in strs(t.args))
def constants(ts):
    r = {}
    for t in ts:
        for s in subterms(t):
            for n in ("ACTION_SPACE_SIZE", "N_INPUT_CHANNELS", "CONV_OUTPUT_SIZE", "N_FILTERS", "N_RES_BLOCKS"):
                if s.op == "const" and constant(s, n): r[n] = s
    return r

def c12(c, prog):
    vs = sym("vs"); train = sym("train", "bool"); xs = sym("xs"); me = sym("net")
    r = Run(c, prog, fn(prog, "ResNet::new"), [vs], pure=PURE)
    nets = {rw(o.val) for o in r.rets}
    if not c.need(len(nets) == 1, "new", "building the network has %d outcomes" % len(nets)): return
    net = nets.pop()
    if not c.need(net.op == "agg", "new", "the network is " + show(net)[:120]): return
    K = constants([net])
    if not c.need(set(K) == {"ACTION_SPACE_SIZE", "N_INPUT_CHANNELS", "CONV_OUTPUT_SIZE", "N_FILTERS", "N_RES_BLOCKS"}, "constants", "the network does not use the game's constants: only %s" % sorted(K)): return
    c.need(proj(net, ("f", "vs")) is vs, "store", "the network does not keep the store its layers were made in")
    outs = {}
    for name in ("forward_t", "forward_train", "forward_policy"):
        rr = Run(c, prog, fn(prog, "ResNet::" + name), [me, xs, train], pure=PURE)
        vals = {rw(o.val) for o in rr.rets}
        if not c.need(len(vals) == 1 and not any(o.st.trace for o in rr.rets), name, "%s has %d outcomes or effects" % (name, len(vals))): return
        outs[name] = by_row(vals.pop())
    pol, val = proj(outs["forward_t"], ("f", "0")), proj(outs["forward_t"], ("f", "1"))
    tp, tv = proj(outs["forward_train"], ("f", "0")), proj(outs["forward_train"], ("f", "1"))
    c.need(outs["forward_policy"] is pol, "policy:same", "forward_policy gives another policy than forward_t")
    c.need(tv is val, "value:same", "forward_train gives another value than forward_t")
    c.need(pol.op == "call" and pol.args[0] == "Tensor::softmax" and pol.args[1] is tp, "policy:softmax", "inference is not the softmax of the training policy: %s" % show(pol)[-160:])
    start = Img(K["N_INPUT_CHANNELS"])
    for key, t in (("policy", pol), ("training policy", tp), ("value", val)):
        n = Net(c, prog, vs, K["CONV_OUTPUT_SIZE"], train)
        try: y = n.tensor(rw(subst(t, {me: net})), {xs: start})
        except Bad as b: c.viol(key + ":layers", "%s: %s" % (key, b)); continue
        want = ONE if key == "value" else K["ACTION_SPACE_SIZE"]
        c.need(isinstance(y, Flat) and y.n is want, key + ":size", "the %s has %s numbers per row" % (key, show(y.n) if isinstance(y, Flat) else "planes of"))
        c.need(y.ends == {"policy": "softmax", "training policy": "linear", "value": "tanh"}[key], key + ":range", "the %s ends in %s" % (key, y.ends))
        kinds = [k[0] for k in y.chain]
        c.need(not any(k in ("tanh", "softmax") for k in kinds[:-1]), key + ":squashed", "the %s is squashed before the end: %s" % (key, kinds))
        c.need(kinds[:3] == ["conv", "bn", "relu"] and kinds.count("times") == 1 and kinds[3] == "times", key + ":body", "the %s is made of %s" % (key, kinds))
        for k in y.chain:
            if k[0] == "times": c.need(k[1] is K["N_RES_BLOCKS"] and [z[0] for z in k[2]] == ["block"], key + ":blocks", "the %s has %s times %s" % (key, show(k[1])[-40:], [z[0] for z in k[2]]))
        c.count("heads")
    # the constants of each game fit its positions
    for impl, sq, acts in (("Backgammon", 24, 2 * 26 * 26), ("TicTacToe", 9, 9)):
        c.need(int(cv(prog, impl, "CONV_OUTPUT_SIZE")) == sq, impl + ":CONV_OUTPUT_SIZE", "%s: CONV_OUTPUT_SIZE is not the %d squares of its tensor" % (impl, sq))
        c.need(int(cv(prog, impl, "ACTION_SPACE_SIZE")) == acts, impl + ":ACTION_SPACE_SIZE", "%s: ACTION_SPACE_SIZE is not the number of codes, %d" % (impl, acts))
        c.need(int(cv(prog, impl, "N_RES_BLOCKS")) > 0 and int(cv(prog, impl, "N_FILTERS")) > 0, impl + ":sizes", "%s: a network without blocks or filters" % impl)
        c.count("games")
    c.floor("heads", 3); c.floor("layers", 12); c.floor("games", 2)
def cv(prog, impl, name):
    from .backgammon import const_int
    return const_int(cval(prog, impl, name))
