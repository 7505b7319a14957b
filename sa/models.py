"""Meaning of the library functions the code calls: iterators, collections, options, strings, tensors.

A model is f(engine, state, args, call) -> [Out] or None (None: treat as an opaque call)."""
from . import terms as tm
from .terms import *
from .facts import split, Facts

MODELS = {}
QUIET_LOCAL = set()

def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

def lookup(name, path):
    m = MODELS.get(name)
    if m: return m
    if path.startswith("tch::") or name.startswith("Tensor::"): return tensor_call(name)
    return None

def E():
    from . import engine
    return engine
def R(st, v): return [E().Out("ret", st, v)]
def panic(st, why): return E().Out("panic", st, mk("str", why))

# ---------------------------------------------------------------- classification of opaque calls
PURE_PREFIX = ("Tensor::", "Path::", "PathBuf::", "str::", "f32::", "f64::", "i8::", "usize::", "u8::", "i64::", "OsStr::", "OsString::",
               "String::", "ProgressStyle::", "MultiProgress::", "ProgressBar::", "slice::", "Config::get", "fmt::", "Option::", "Result::", "Vec::",
               "HashMap::", "HashSet::", "Itertools::", "cmp::", "char::", "u32::", "i32::", "Duration::", "Stdin::", "io::stdin", "Dirichlet::new", "WeightedIndex::new",
               "ArgMatches::contains", "ArgMatches::subcommand_name", "ArgMatches::remove", "ArgMatches::get", "Ordering::", "nn::", "utils::", "num_cpus::", "Device::",
               "VarStore::root", "VarStore::variables", "DirEntry::", "Neg::", "Add::", "Sub::", "Mul::", "Div::", "Not::", "ToString::", "BufReader::new")
CHANGES = ("Path", "String::", "OsString::", "slice::", "Option::", "Result::", "Vec::", "HashMap::", "HashSet::", "str::", "VecDeque::", "BTree", "ArrayVec::")
GETTERS = {"LearnableGame::" + x for x in ("get_player", "check_winner", "get_valid_moves", "as_tensor", "encode", "decode", "get_id", "name", "new", "to_pretty_str")}
IMPURE = {"Path::exists", "Path::is_dir", "Path::is_file", "Stdin::read_line", "Tensor::backward", "Tensor::save", "Tensor::load", "Tensor::zero_grad", "Tensor::print"}
KEEPS = {"Path::exists", "Path::is_dir", "Path::is_file"}
PURE = {"From::from", "Into::into", "TryInto::try_into", "TryFrom::try_from", "AsRef::as_ref", "ToString::to_string", "Default::default", "apply",
        "rand::thread_rng", "Optimizer::new", "OptimizerConfig::build", "VarStore::new", "Hash::hash", "FromStr::from_str", "str::parse",
        "fs::read_dir", "PartialOrd::partial_cmp", "Display::fmt", "SliceIndex::index"} | GETTERS
KNOWN_IMPURE = {"Rng::gen_range", "SliceRandom::choose", "SliceRandom::shuffle", "Distribution::sample", "LearnableGame::apply_move", "LearnableGame::skip_turn",
                "LearnableGame::roll_die", "LearnableGame::set_id", "VarStore::load", "VarStore::save", "VarStore::copy", "Optimizer::step", "Optimizer::zero_grad",
                "fs::create_dir", "fs::create_dir_all", "File::create", "File::open", "Write::write_all", "Write::flush", "BufWriter::new", "serde_json::from_reader",
                "serde_json::to_string_pretty", "tch::no_grad_guard", "ThreadPoolBuilder::build_global", "io::_print", "panicking::panic", "panicking::panic_fmt",
                "rt::panic_fmt", "Config::builder", "ConfigBuilder::add_source", "ConfigBuilder::build", "File::new", "nanoid::format", "SequentialT::add", "SequentialT::add_fn",
                "ArgMatches::remove_one", "ArgMatches::remove_subcommand", "Parser::parse"}
RANDOM = {"Rng::gen_range", "SliceRandom::choose", "SliceRandom::shuffle", "Distribution::sample", "nanoid::format", "Rng::gen", "Rng::gen_bool"}
NOPOST = {"ArgMatches::remove_one", "ArgMatches::remove_subcommand", "ArgMatches::get_one", "VarStore::root"}

def is_pure(name):
    if name in IMPURE or name in KNOWN_IMPURE: return False
    if name in PURE: return True
    if name.startswith("Tensor::") and name.endswith("_"): return False
    return name.startswith(PURE_PREFIX)
def known(name): return is_pure(name) or name in KNOWN_IMPURE or name in IMPURE or name in MODELS
def keeps(name, i):
    return name in NOPOST or name in RANDOM and i > 0 or name in KEEPS

# ---------------------------------------------------------------- identity-like calls
IDENT = ["Deref::deref", "DerefMut::deref_mut", "Into::into", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "slice::to_vec", "Tensor::shallow_clone",
         "Tensor::to_device", "Tensor::to_device_", "Tensor::detach", "Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Result::as_ref", "String::as_str", "str::as_bytes", "String::as_bytes", "Path::new", "PathBuf::as_path", "Path::to_path_buf", "PathBuf::from",
         "hint::must_use", "Iterator::by_ref", "ProgressIterator::progress", "ProgressIterator::progress_with", "ParallelProgressIterator::progress_with", "ProgressBarIter::with_message", "ProgressBarIter::with_style", "Box::new", "Arc::new", "Rc::new",
         "slice::into_vec", "Vec::into_boxed_slice", "Vec::as_slice", "Vec::as_mut_slice", "ToOwned::to_owned", "Clone::clone", "From::from", "fmt::format", "Arguments::from_str", "Arguments::from_str_nonconst", "Cow::into_owned",
         "identity", "convert::identity", "mem::drop_in_place", "str::to_owned", "str::to_string", "Rc::clone", "Arc::clone", "Iterator::into_iter", "ToString::to_string", "FromResidual::from_residual",
         "ProgressBar::with_message", "ProgressBar::with_style", "ProgressBar::with_finish", "slice::as_ref", "OsString::into_string_", "Iterator::fuse", "i64::from", "f64::from", "f32::from", "usize::from", "DirEntry::path_", "String::into_boxed_str", "String::from",
         "IntoParallelRefIterator::par_iter", "IntoParallelIterator::into_par_iter", "Iterator::cloned", "Iterator::copied", "Vec::into_iter", "slice::iter", "Vec::iter", "IntoIterator::into_iter", "slice::iter_mut", "slice::as_slice", "array::as_slice", "Vec::shrink_to_fit", "ParallelIterator::copied", "ParallelIterator::cloned", "HashMap::iter", "HashSet::iter", "HashMap::into_iter", "Iterator::peekable"]
ITERS = {"IntoParallelRefIterator::par_iter", "IntoParallelIterator::into_par_iter", "Iterator::cloned", "Iterator::copied", "Vec::into_iter", "slice::iter", "Vec::iter", "IntoIterator::into_iter", "slice::iter_mut", "Iterator::by_ref", "HashMap::iter", "HashSet::iter", "HashMap::into_iter", "ParallelIterator::copied", "ParallelIterator::cloned", "HashMap::iter_mut", "HashMap::into_values"}
KEEPREF = {"DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Iterator::by_ref", "Vec::shrink_to_fit", "Into::into", "From::from", "Box::new", "FromResidual::from_residual", "identity", "convert::identity", "hint::must_use"}
def ident(eng, st, args, c):
    x = args[0]
    if c.name in ITERS: return R(st, as_iter(eng, st, x))
    if c.name in KEEPREF: return R(st, x)
    return R(st, eng.full(st, x))
for _n in IDENT: MODELS[_n] = ident
MODELS["HashMap::iter_mut"] = ident

for _n in ("ProgressBar::new", "ProgressBar::hidden", "ProgressBar::new_spinner", "MultiProgress::new", "ProgressBar::inc", "ProgressBar::reset", "ProgressBar::set_message", "ProgressBar::set_position",
           "ProgressBar::set_style", "ProgressBar::enable_steady_tick", "ProgressBar::finish", "ProgressBar::finish_with_message", "ProgressBar::tick", "ProgressStyle::progress_chars", "ProgressStyle::default_bar",
           "ProgressStyle::default_spinner", "ProgressBar::set_length", "ProgressBar::finish_and_clear", "ProgressBar::println", "io::_eprint", "MultiProgress::add", "ProgressStyle::tick_chars", "ProgressBar::abandon", "Duration::from_millis", "Duration::from_secs", "ProgressBar::is_finished", "ProgressBar::length"):
    MODELS[_n] = lambda eng, st, args, c: R(st, UNIT)
@model("io::_print")
def m_print(eng, st, args, c):
    if eng.prints: st.ev("print", [eng.full(st, args[0])], UNIT, c.span)
    return R(st, UNIT)
for _n in ("MultiProgress::println", "ProgressStyle::with_template", "MultiProgress::clear", "ProgressStyle::template"):
    MODELS[_n] = lambda eng, st, args, c: R(st, ok(UNIT))

# ---------------------------------------------------------------- options and results
def isSome(v): return isv(v, "Some", OPT)
def isOk(v): return isv(v, "Ok", RES)
def payload(v, var): return proj(proj(v, ("v", var)), ("f", "0"))
def fork(st, f):
    return [(tm_state(st, g), b) for g, b in split(f, st.facts)]
def tm_state(st, g): return E().State(dict(st.mem), g, st.trace)
def rd(eng, st, x):
    while x.op == "ref": x = eng.read_loc(st, x.args[0], x.args[1])
    return x
def is_result(v, c, i=0):
    v0 = v
    if v.op == "agg" and isinstance(v.args[0], tuple) and v.args[0][0] == "adt": return v.args[0][1] == "Result"
    return None

INTS = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}
CONFIG_AS = {"Config::get_float": "f64", "Config::get_int": "i64", "Config::get_bool": "bool", "Config::get_string": "String"}
@model("Config::get", *CONFIG_AS)
def m_config_get(eng, st, args, c):
    """a configuration value, by key and by the type it is read as"""
    ty = CONFIG_AS.get(c.name)
    if ty is None:
        t = eng.type_arg((c.callee.get("args") or ["?"])[0]); ty = t if isinstance(t, str) else str(t)
    v = mk("call", "Config::get", rd(eng, st, args[0]), eng.full(st, args[1]), mk("str", ty))
    return R(st, v)

@model("TryInto::try_into", "TryFrom::try_from")
def m_try_into(eng, st, args, c):
    ty = [x for x in (c.callee.get("args") or []) if isinstance(x, str)]
    if len(ty) != 2: return None
    src, dst = ty if c.name.startswith("TryInto") else (ty[1], ty[0])
    if src not in INTS or dst not in INTS: return None
    x = rd(eng, st, args[0]); lo, hi = INTS[dst]
    slo, shi = INTS[src]
    f = band(le(num(lo), x) if lo > slo else TRUE, le(x, num(hi)) if hi < shi else TRUE)
    return [E().Out("ret", s, ok(x) if b else err(mk("call", "TryFromIntError", x))) for s, b in fork(st, f)]

@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Option::unwrap_unchecked")
def m_unwrap(eng, st, args, c):
    v = rd(eng, st, args[0])
    if c.name == "Result::unwrap_err":
        f, var = bnot(isOk(v)), "Err"
    else:
        f, var = (isSome(v), "Some") if c.name.startswith("Option") else (isOk(v), "Ok")
    out = []
    for s, b in fork(st, f):
        if b: out.append(E().Out("ret", s, payload(v, var)))
        else: out.append(panic(s, c.name))
    return out

@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::unwrap_or_else", "Result::unwrap_or_else",
       "Option::map_or", "Option::map_or_else", "Result::map_or", "Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def m_unwrap_or(eng, st, args, c):
    v = rd(eng, st, args[0])
    opt = c.name.startswith("Option"); op = c.name.split("::")[1]
    f, var = (isSome(v), "Some") if opt else (isOk(v), "Ok")
    if v.op == "call" and v.args[0] == "some_cmp": return R(st, v.args[1])
    out = []
    for s, b in fork(st, f):
        p = payload(v, var)
        if op in ("is_some_and", "is_ok_and", "is_none_or"):
            if b: out += eng.call_value(s, args[1], [p], (c.cs, "and"), c.span)
            else: out.append(E().Out("ret", s, boolc(op == "is_none_or")))
            continue
        if op in ("map_or", "map_or_else"):
            if b: out += eng.call_value(s, args[2], [p], (c.cs, "map"), c.span)
            elif op == "map_or": out.append(E().Out("ret", s, args[1]))
            else: out += eng.call_value(s, args[1], [] if opt else [payload(v, "Err")], (c.cs, "else"), c.span)
            continue
        if b: out.append(E().Out("ret", s, p))
        elif op == "unwrap_or": out.append(E().Out("ret", s, args[1]))
        elif op == "unwrap_or_default": out.append(E().Out("ret", s, default_of(c.destty)))
        else: out += eng.call_value(s, args[1], [] if opt else [payload(v, "Err")], (c.cs, "else"), c.span)
    return out

def default_of(ty):
    if ty in ("f32", "f64") or (isinstance(ty, str) and ty[0] in "iu"): return ZERO
    if ty == "bool": return FALSE
    if isinstance(ty, list):
        if ty[0] == "tuple": return tup(*[default_of(x) for x in ty[1]])
        if ty[0] == "adt" and ty[1].endswith("vec::Vec"): return vec()
        if ty[0] == "adt" and ty[1].endswith("Option"): return NONE
        if ty[0] == "adt" and ty[1].endswith("String"): return mk("str", "")
    return mk("call", "Default::default", mk("raw", E()._freeze(ty)))

@model("bool::then_some", "bool::then")
def m_bool_then(eng, st, args, c):
    out = []
    for s, b in fork(st, rd(eng, st, args[0])):
        if not b: out.append(E().Out("ret", s, NONE))
        elif c.name.endswith("then_some"): out.append(E().Out("ret", s, some(args[1])))
        else:
            for o in eng.call_value(s, args[1], [], (c.cs, "then"), c.span):
                out.append(E().Out("ret", o.st, some(o.val)) if o.kind == "ret" else o)
    return out

@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(eng, st, args, c):
    v = rd(eng, st, args[0]); op = c.name.split("::")[1]
    f = isSome(v) if c.name.startswith("Option") else isOk(v)
    return R(st, f if op in ("is_some", "is_ok") else bnot(f))

@model("Option::map", "Option::and_then", "Result::map", "Result::and_then", "Option::ok_or", "Option::ok_or_else", "Result::ok", "Result::map_err", "Option::filter", "Option::or", "Option::or_else",
       "Result::err", "Option::flatten", "Result::or_else", "Option::inspect")
def m_optmap(eng, st, args, c):
    v = rd(eng, st, args[0]); op = c.name.split("::")[1]
    opt = c.name.startswith("Option")
    if args[0].op == "ref" and op == "map": v = rd(eng, st, args[0])
    f, var = (isSome(v), "Some") if opt else (isOk(v), "Ok")
    wrap = some if opt else ok
    Out = E().Out; out = []
    def mapped(outs, w): return [Out(o.kind, o.st, w(o.val)) if o.kind == "ret" else o for o in outs]
    for s, b in fork(st, f):
        p = payload(v, var); e = payload(v, "Err") if not opt else None
        if op == "map": out += mapped(eng.call_value(s, args[1], [p], (c.cs, "m"), c.span), wrap) if b else [Out("ret", s, NONE if opt else err(e))]
        elif op == "and_then": out += eng.call_value(s, args[1], [p], (c.cs, "m"), c.span) if b else [Out("ret", s, NONE if opt else err(e))]
        elif op == "ok_or": out.append(Out("ret", s, ok(p) if b else err(args[1])))
        elif op == "ok_or_else": out += [Out("ret", s, ok(p))] if b else mapped(eng.call_value(s, args[1], [], (c.cs, "m"), c.span), err)
        elif op == "ok": out.append(Out("ret", s, some(p) if b else NONE))
        elif op == "err": out.append(Out("ret", s, NONE if b else some(e)))
        elif op == "map_err": out += [Out("ret", s, ok(p))] if b else mapped(eng.call_value(s, args[1], [e], (c.cs, "m"), c.span), err)
        elif op == "or": out.append(Out("ret", s, v if b else args[1]))
        elif op == "flatten": out.append(Out("ret", s, p if b else NONE))
        elif op == "or_else": out += [Out("ret", s, v)] if b else eng.call_value(s, args[1], [] if opt else [e], (c.cs, "m"), c.span)
        elif op == "inspect": out += [Out("ret", o.st, v) if o.kind == "ret" else o for o in eng.call_value(s, args[1], [p], (c.cs, "m"), c.span)] if b else [Out("ret", s, v)]
        elif op == "filter":
            if not b: out.append(Out("ret", s, NONE))
            else:
                for o in eng.call_value(s, args[1], [p], (c.cs, "m"), c.span):
                    if o.kind != "ret": out.append(o); continue
                    for s2, b2 in fork(o.st, o.val): out.append(Out("ret", s2, v if b2 else NONE))
    return out

@model("Option::as_mut", "Option::as_deref_mut")
def m_asmut(eng, st, args, c):
    a = args[0]
    if a.op != "ref": return R(st, a)
    v = eng.read_loc(st, *a.args)
    return [E().Out("ret", s, some(mk("ref", a.args[0], a.args[1] + (("v", "Some"), ("f", "0")))) if b else NONE) for s, b in fork(st, isSome(v))]

@model("Option::take", "Option::replace", "mem::take", "mem::replace", "Option::insert")
def m_take(eng, st, args, c):
    a = args[0]
    if a.op != "ref": return None
    v = eng.read_loc(st, *a.args)
    new = NONE if c.name == "Option::take" else some(args[1]) if c.name.startswith("Option::") else args[1] if c.name == "mem::replace" else default_of(c.destty)
    eng.write_loc(st, a.args[0], a.args[1], new)
    return R(st, v)
@model("mem::swap")
def m_swap(eng, st, args, c):
    a, b = args
    x, y = eng.read_loc(st, *a.args), eng.read_loc(st, *b.args)
    eng.write_loc(st, *a.args, y); eng.write_loc(st, *b.args, x)
    return R(st, UNIT)

def cf(var, x): return agg(("adt", "std::ops::ControlFlow", var, CF), ("0",), (x,))
@model("Try::branch")
def m_branch(eng, st, args, c):
    v = args[0]
    ty = (c.callee.get("args") or [None])[0]
    r = is_result(v, c)
    if r is None: r = isinstance(ty, list) and ty[1].endswith("Result")
    out = []
    if r:
        for s, b in fork(st, isOk(v)):
            out.append(E().Out("ret", s, cf("Continue", payload(v, "Ok")) if b else cf("Break", err(payload(v, "Err")))))
    else:
        for s, b in fork(st, isSome(v)):
            out.append(E().Out("ret", s, cf("Continue", payload(v, "Some")) if b else cf("Break", NONE)))
    return out

# ---------------------------------------------------------------- comparisons and numbers
def isint_args(eng, st, args, c):
    ty = (c.callee.get("args") or [None])[0]
    while isinstance(ty, list) and ty[0] == "ref": ty = ty[1]
    return ty not in ("f32", "f64")
@model("PartialEq::eq", "PartialEq::ne")
def m_eq(eng, st, args, c):
    f = eng.eqv(st, args[0], args[1])
    return R(st, f if c.name.endswith("eq") else bnot(f))
@model("HashMap::entry")
def m_entry(eng, st, args, c):
    return R(st, mk("entry", args[0], eng.full(st, args[1]))) if args[0].op == "ref" else None
@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def m_or_insert(eng, st, args, c):
    e = args[0]; Out = E().Out
    if e.op != "entry": return None
    r, k = e.args; out = []
    for s, b in fork(st, mk("has", eng.read_loc(st, *r.args), k)):
        at = mk("ref", r.args[0], r.args[1] + (("n", k),))
        if b: out.append(Out("ret", s, at)); continue
        vals = [Out("ret", s, eng.full(s, args[1]))] if c.name.endswith("or_insert") else eng.call_value(s, args[1], [], (c.cs, "ins"), c.span) if c.name.endswith("with") else None
        if vals is None: return None
        for o in vals:
            if o.kind == "ret":
                v = eng.read_loc(o.st, *r.args)
                eng.write_loc(o.st, r.args[0], r.args[1], mk("mapped", v, k, o.val))
                o = Out("ret", o.st, at)
            out.append(o)
    return out
@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(eng, st, args, c):
    a, b = rd(eng, st, args[0]), rd(eng, st, args[1]); i = isint_args(eng, st, args, c); op = c.name[-2:]
    return R(st, {"lt": lambda: lt(a, b, i), "le": lambda: le(a, b, i), "gt": lambda: lt(b, a, i), "ge": lambda: le(b, a, i)}[op]())
@model("PartialOrd::partial_cmp")
def m_pcmp(eng, st, args, c): return R(st, some(cmp_of(eng, st, args, c)))
def cmp_of(eng, st, args, c):
    i = not c.name.startswith("f") and isint_args(eng, st, args, c)
    return mk("cmp", rd(eng, st, args[0]), rd(eng, st, args[1]), int(i))
@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordis(eng, st, args, c):
    x = rd(eng, st, args[0]); V = ("Less", "Equal", "Greater"); op = c.name[-2:]
    v, n = {"lt": (0, 0), "le": (2, 1), "gt": (2, 0), "ge": (0, 1), "eq": (1, 0), "ne": (1, 1)}[op]
    f = isv(x, V[v], V)
    return R(st, bnot(f) if n else f)
@model("Ord::cmp", "f32::total_cmp", "f64::total_cmp")
def m_cmp(eng, st, args, c): return R(st, cmp_of(eng, st, args, c))
@model("Ordering::reverse")
def m_crev(eng, st, args, c):
    x = args[0]
    return R(st, mk("cmp", x.args[1], x.args[0], x.args[2])) if x.op == "cmp" else None
@model("cmp::min", "Ord::min", "f32::min", "f64::min")
def m_min(eng, st, args, c):
    a, b = args[0], args[1]
    if c.name.startswith("f"): return R(st, E().mk_min([a, b]))
    v = st.facts.ev(le(a, b)) if a.op != "ref" and b.op != "ref" else None
    return R(st, a if v is True else b if v is False else E().mk_min([a, b]))
@model("cmp::max", "Ord::max", "f32::max", "f64::max")
def m_max(eng, st, args, c):
    a, b = args[0], args[1]
    if c.name.startswith("f"): return R(st, E().mk_max([a, b]))
    v = st.facts.ev(le(a, b)) if a.op != "ref" and b.op != "ref" else None
    return R(st, b if v is True else a if v is False else E().mk_max([a, b]))
@model("i8::abs", "i32::abs", "i64::abs", "isize::abs", "f32::abs", "i8::unsigned_abs", "i32::unsigned_abs")
def m_abs(eng, st, args, c):
    x = args[0]
    if x.op == "num": return R(st, num(abs(x.args[0])))
    lo, hi = st.facts.rng(x)
    if lo >= 0: return R(st, x)
    if hi <= 0: return R(st, neg(x))
    return R(st, mk("abs", norm_abs(x)))
@model(*[f"{t}::{n}" for t in ("i8", "i32", "i64", "isize", "i16") for n in ("signum", "is_positive", "is_negative")])
def m_sign(eng, st, args, c):
    x = rd(eng, st, args[0]); op = c.name.split("::")[1]
    if op == "is_positive": return R(st, lt(ZERO, x))
    if op == "is_negative": return R(st, lt(x, ZERO))
    out = []
    for s, b in fork(st, lt(ZERO, x)):
        if b: out.append(E().Out("ret", s, ONE)); continue
        for s2, n in fork(s, lt(x, ZERO)): out.append(E().Out("ret", s2, neg(ONE) if n else ZERO))
    return out
@model(*[f"{t}::{n}" for t in INTS for n in ("saturating_sub", "saturating_add", "checked_sub", "checked_add", "checked_mul", "abs_diff", "pow", "clamp", "saturating_mul")], "Ord::clamp", "f32::clamp", "f64::clamp")
def m_intop(eng, st, args, c):
    t, op = c.name.split("::"); x, y = rd(eng, st, args[0]), rd(eng, st, args[1]); Out = E().Out
    if op == "clamp": return R(st, E().mk_max([y, E().mk_min([x, rd(eng, st, args[2])])]))
    if op == "pow":
        if y.op != "num" or not 0 <= y.args[0] <= 4: return None
        r = ONE
        for _ in range(int(y.args[0])): r = mul(r, x)
        return R(st, r)
    if op == "abs_diff": return [Out("ret", s, sub(x, y) if b else sub(y, x)) for s, b in fork(st, le(y, x))]
    v = {"sub": sub, "add": add, "mul": mul}[op.split("_")[1]](x, y); lo, hi = INTS[t]
    out = []
    for s, b in fork(st, le(num(lo), v)):
        if not b: out.append(Out("ret", s, NONE if op.startswith("checked") else num(lo))); continue
        if hi >= 2 ** 31 - 1: out.append(Out("ret", s, some(v) if op.startswith("checked") else v)); continue
        for s2, b2 in fork(s, le(v, num(hi))):
            out.append(Out("ret", s2, (some(v) if op.startswith("checked") else v) if b2 else (NONE if op.startswith("checked") else num(hi))))
    return out
@model(*[f"{t}::{n}" for t in INTS for n in ("div_ceil", "is_multiple_of", "next_multiple_of") if t.startswith("u")])
def m_divceil(eng, st, args, c):
    op = c.name.split("::")[1]; x, y = args
    if y.op == "num" and y.args[0] == 0: return None
    if op == "is_multiple_of": return R(st, eq(tm.irem(x, y), ZERO))
    q = num(-(-x.args[0] // y.args[0])) if x.op == "num" and y.op == "num" else mk("cdiv", x, y)
    return R(st, mul(q, y) if op == "next_multiple_of" else q)
def norm_abs(x):
    p = tm.poly(x)
    if p[1]:
        lead = tm.unpoly(*p)
        if lead.op == "poly" and lead.args[1][0][1] < 0: return neg(x)
    return x
@model("Neg::neg")
def m_neg(eng, st, args, c):
    return R(st, neg(args[0])) if numeric_ty(c) else R(st, mk("call", "Tensor::neg", rd(eng, st, args[0])))
def numeric_ty(c):
    ty = (c.callee.get("args") or [None])[0]
    while isinstance(ty, list) and ty[0] == "ref": ty = ty[1]
    return isinstance(ty, str)
def arith(name, f):
    def m(eng, st, args, c):
        a, b = rd(eng, st, args[0]), rd(eng, st, args[1])
        if numeric_ty(c) and all(isinstance(t, str) or True for t in c.callee["args"][:2]) and numarg(c, 1): return R(st, f(a, b, c))
        return R(st, mk("call", "Tensor::" + name, a, b))
    return m
def numarg(c, i):
    ts = c.callee.get("args") or []
    if i >= len(ts): return True
    ty = ts[i]
    while isinstance(ty, list) and ty[0] == "ref": ty = ty[1]
    return isinstance(ty, str)
def fl(c):
    ty = c.callee["args"][0]
    while isinstance(ty, list) and ty[0] == "ref": ty = ty[1]
    return ty in ("f32", "f64")
MODELS["Add::add"] = arith("add", lambda a, b, c: add(a, b))
MODELS["Sub::sub"] = arith("sub", lambda a, b, c: sub(a, b))
MODELS["Mul::mul"] = arith("mul", lambda a, b, c: mul(a, b))
MODELS["Div::div"] = arith("div", lambda a, b, c: fdiv(a, b) if fl(c) else idiv(a, b))
def assign_op(name, f):
    def m(eng, st, args, c):
        r = args[0]
        if r.op != "ref": return None
        x = eng.read_loc(st, *r.args)
        new = f(x, rd(eng, st, args[1])) if numeric_ty(c) else mk("call", "Tensor::" + name, x, rd(eng, st, args[1]))
        eng.write_loc(st, r.args[0], r.args[1], new)
        return R(st, UNIT)
    return m
MODELS["AddAssign::add_assign"] = assign_op("add", add)
MODELS["SubAssign::sub_assign"] = assign_op("sub", sub)
MODELS["MulAssign::mul_assign"] = assign_op("mul", mul)

# saturating / wrapping / checked arithmetic stays opaque (pure)

# ---------------------------------------------------------------- vectors and slices
@model("Vec::new", "Vec::with_capacity", "HashMap::new", "HashSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "VecDeque::new")
def m_vnew(eng, st, args, c): return R(st, vec())
@model("String::new")
def m_snew(eng, st, args, c): return R(st, mk("str", ""))
@model("Default::default")
def m_default(eng, st, args, c): return R(st, default_of(c.destty))
@model("Dirichlet::new_with_size")
def _dirichlet_sized(eng, st, args, c):
    return R(st, mk("call", "Dirichlet::new", mk("rep", eng.full(st, args[0]), eng.full(st, args[1]))))
@model("vec::from_elem")
def m_fromelem(eng, st, args, c):
    x, n = eng.full(st, args[0]), args[1]
    if n.op == "num" and n.args[0] <= 64: return R(st, vec(*([x] * n.args[0])))
    return R(st, mk("rep", x, n))
@model("Vec::resize", "Vec::resize_with")
def m_resize(eng, st, args, c):
    """of an empty vector"""
    r = args[0]
    if r.op != "ref" or eng.read_loc(st, *r.args) is not vec(): return None
    n = eng.full(st, args[1])
    if c.name.endswith("_with"):
        n0 = len(st.trace); outs = eng.call_value(st.copy(), args[2], [], (c.cs, "resize"), c.span)
        if len(outs) != 1 or outs[0].kind != "ret" or len(outs[0].st.trace) != n0 or any(outs[0].st.mem.get(q) is not st.mem.get(q) for q in st.mem): return None
        x = eng.full(outs[0].st, outs[0].val)
    else: x = eng.full(st, args[2])
    eng.write_loc(st, r.args[0], r.args[1], vec(*([x] * n.args[0])) if n.op == "num" and n.args[0] <= 64 else mk("rep", x, n))
    return R(st, UNIT)
@model("tch::no_grad")
def m_nograd(eng, st, args, c): return eng.call_value(st, args[0], [], (c.cs, "no_grad"), c.span)
@model("array::map", "slice::map")
def m_arraymap(eng, st, args, c):
    v = args[0]
    if v.op != "vec": return None
    todo = [(st, ())]; out = []
    for i, x in enumerate(v.args):
        nxt = []
        for s, done in todo:
            for o in eng.call_value(s, args[1], [x], (c.cs, i), c.span):
                if o.kind == "ret": nxt.append((o.st, done + (o.val,)))
                else: out.append(o)
        todo = nxt
    return out + [E().Out("ret", s, vec(*done)) for s, done in todo]
@model("Box::new_uninit")
def m_uninit(eng, st, args, c):
    root = ("h", c.cs)
    st.mem[root] = E().UNINIT
    return R(st, agg(("box",), ("0",), (mk("ref", root, ()),)))
@model("boxed::box_assume_init_into_vec_unsafe", "slice::box_assume_init_into_vec_unsafe")
def m_boxvec(eng, st, args, c):
    r = args[0].args[2][0]
    v = eng.full(st, get(st.mem[r.args[0]], (("f", "1"), ("f", "value"))))
    st.mem.pop(r.args[0], None)
    return R(st, v)
def mutvec(f):
    def m(eng, st, args, c):
        r = args[0]
        if r.op != "ref": return None
        v = eng.read_loc(st, *r.args)
        new, ret = f(eng, st, v, [eng.full(st, a) if a.op != "ref" else a for a in args[1:]], c)
        if isinstance(new, T): eng.write_loc(st, r.args[0], r.args[1], new)
        return R(st, ret) if isinstance(ret, T) else ret
    return m
MODELS["Vec::push"] = mutvec(lambda eng, st, v, a, c: (push(v, eng.full(st, a[0])), UNIT))
MODELS["Vec::clear"] = mutvec(lambda eng, st, v, a, c: (vec(), UNIT))
MODELS["HashMap::clear"] = MODELS["Vec::clear"]
MODELS["Vec::truncate"] = mutvec(lambda eng, st, v, a, c: (mk("slice", v, ZERO, E().mk_min([a[0], length(v)])), UNIT))
MODELS["Vec::reserve"] = mutvec(lambda eng, st, v, a, c: (v, UNIT))
def m_insert(eng, st, v, a, c):
    if a[0] is ZERO: return concat(vec(a[1]), v), UNIT
    return mk("inserted", v, a[0], a[1]), UNIT
MODELS["Vec::insert"] = mutvec(m_insert)
MODELS["Vec::remove"] = mutvec(lambda eng, st, v, a, c: (vec(*(v.args[:a[0].args[0]] + v.args[a[0].args[0] + 1:])) if v.op == "vec" and a[0].op == "num" and a[0].args[0] < len(v.args) else mk("removed", v, a[0]), proj(v, ("i", a[0]))))
MODELS["Vec::swap_remove"] = mutvec(lambda eng, st, v, a, c: (mk("swap_removed", v, a[0]), proj(v, ("i", a[0]))))
MODELS["slice::sort_unstable"] = mutvec(lambda eng, st, v, a, c: (mk("sorted", v), UNIT))
MODELS["slice::sort"] = MODELS["slice::sort_unstable"]
MODELS["slice::reverse"] = mutvec(lambda eng, st, v, a, c: (vec(*v.args[::-1]) if v.op == "vec" else mk("reversed", v), UNIT))
MODELS["slice::swap"] = mutvec(lambda eng, st, v, a, c: (mk_with(mk_with(v, ("i", a[0]), proj(v, ("i", a[1]))), ("i", a[1]), proj(v, ("i", a[0]))), UNIT))
MODELS["Vec::dedup"] = mutvec(lambda eng, st, v, a, c: (mk("dedup", v), UNIT))
def m_append(eng, st, args, c):
    a, b = args
    v = eng.read_loc(st, *a.args)
    if b.op == "ref":
        w = eng.read_loc(st, *b.args); eng.write_loc(st, b.args[0], b.args[1], vec())
    else: w = b
    eng.write_loc(st, a.args[0], a.args[1], concat(v, w))
    return R(st, UNIT)
MODELS["Vec::append"] = m_append
MODELS["Vec::extend_from_slice"] = m_append
def m_pop(eng, st, args, c):
    r = args[0]
    if r.op != "ref": return None
    v = eng.read_loc(st, *r.args)
    out = []
    for s, b in fork(st, eq(length(v), ZERO)):
        if b: out.append(E().Out("ret", s, NONE)); continue
        x, rest = popped(v)
        eng.write_loc(s, r.args[0], r.args[1], rest)
        out.append(E().Out("ret", s, some(x)))
    return out
def popped(v):
    if v.op == "vec" and v.args: return v.args[-1], vec(*v.args[:-1])
    if v.op == "ext": return v.args[1][-1], (mk("ext", v.args[0], v.args[1][:-1]) if len(v.args[1]) > 1 else v.args[0])
    return proj(v, ("i", sub(length(v), ONE))), E().mk_removed(v, sub(length(v), ONE))
MODELS["Vec::pop"] = m_pop
@model("Vec::len", "slice::len", "HashMap::len", "HashSet::len", "BTreeSet::len", "str::len", "String::len", "ExactSizeIterator::len", "VecDeque::len")
def m_len(eng, st, args, c):
    v = rd(eng, st, args[0])
    if isiter(v): return R(st, ix_len(v)) if indexed(v) else None
    return R(st, length(v))
@model("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty")
def m_isempty(eng, st, args, c):
    return R(st, eq(length(rd(eng, st, args[0])), ZERO))
def m_get(eng, st, args, c):
    a = args[0]; v = rd(eng, st, a)
    nm = c.name.split("::")[1]
    i = args[1] if nm in ("get", "get_mut") else ZERO if nm in ("first", "first_mut") else sub(length(v), ONE)
    if i.op == "agg": return None
    f = lt(i, length(v)) if nm in ("get", "get_mut") else bnot(eq(length(v), ZERO))
    out = []
    if nm in ("get", "get_mut") and eng.trusted_vec(v):
        return R(st, some(mk("ref", a.args[0], a.args[1] + (("i", i),)) if nm == "get_mut" and a.op == "ref" else proj(v, ("i", i))))
    for s, b in fork(st, f):
        x = mk("ref", a.args[0], a.args[1] + (("i", i),)) if nm.endswith("_mut") and a.op == "ref" else proj(v, ("i", i))
        out.append(E().Out("ret", s, some(x) if b else NONE))
    return out
for _n in ("get", "first", "last", "get_mut", "last_mut", "first_mut"): MODELS["slice::" + _n] = m_get
@model("slice::contains")
def m_contains(eng, st, args, c):
    v, x = rd(eng, st, args[0]), eng.full(st, args[1])
    return R(st, contains(v, x))
def contains(v, x):
    k = mk("k", "contains")
    TYPES[k.uid] = "usize"
    return E().quant("any", length(v), eq(proj(v, ("i", k)), x), k)
@model("slice::concat")
def m_concat(eng, st, args, c):
    v = rd(eng, st, args[0])
    if v.op == "vec":
        r = vec()
        for x in v.args: r = concat(r, x)
        return R(st, r)
    return None
def slice_of(v, idx):
    """v[range]"""
    nm = idx.args[0][1].split("::")[-1] if isinstance(idx.args[0], tuple) and len(idx.args[0]) > 1 else ""
    f = dict(zip(idx.args[1], idx.args[2]))
    if nm == "Range": return f["start"], f["end"]
    if nm == "RangeFrom": return f["start"], length(v)
    if nm == "RangeTo": return ZERO, f["end"]
    if nm == "RangeFull": return ZERO, length(v)
    if idx.args[0] == ("iter", "range"): return f["pos"], f["hi"]
    return None
@model("Index::index", "IndexMut::index_mut")
def m_index(eng, st, args, c):
    a, idx = args
    v = rd(eng, st, a)
    if idx.op == "agg":
        if idx.args[0] == "tuple": return None
        r = slice_of(v, idx)
        if r is None: return None
        if a.op == "ref":
            if r[0] is ZERO and r[1] is length(v): return R(st, a)
            return None
        return R(st, E().mkslice(v, *r))
    ty = (c.callee.get("args") or [None])[0]
    el = ("i", idx)
    if isinstance(ty, list) and ty[0] == "adt" and "HashMap" in ty[1]: return R(st, proj(v, ("n", idx)))
    if a.op == "ref" and c.name == "IndexMut::index_mut": return R(st, mk("ref", a.args[0], a.args[1] + (el,)))
    return R(st, proj(v, el))
@model("Vec::drain", "HashMap::drain")
def m_drain(eng, st, args, c):
    r = args[0]
    v = eng.read_loc(st, *r.args)
    if len(args) > 1:
        lo, hi = slice_of(v, args[1]) or (None, None)
        if lo is not ZERO or hi is not length(v): return None
    eng.write_loc(st, r.args[0], r.args[1], vec())
    return R(st, it_seq(v))

# maps: a sequence of (key, value) pairs; element access by key uses ("n", key)
@model("HashMap::values", "HashMap::into_values")
def m_values(eng, st, args, c): return R(st, mkiter("field", it=it_seq(rd(eng, st, args[0])), n=mk("str", "1")))
@model("HashMap::keys", "HashMap::into_keys")
def m_keys(eng, st, args, c): return R(st, mkiter("field", it=it_seq(rd(eng, st, args[0])), n=mk("str", "0")))
@model("HashMap::values_mut")
def m_valuesmut(eng, st, args, c): return R(st, mkiter("mutfield", src=args[0], pos=ZERO, n=mk("str", "1")))
def m_mapget(eng, st, args, c):
    a = args[0]; v = rd(eng, st, a); k = eng.full(st, args[1])
    f = mk("has", v, k); out = []
    for s, b in fork(st, f):
        x = mk("ref", a.args[0], a.args[1] + (("n", k),)) if c.name.endswith("_mut") and a.op == "ref" else proj(v, ("n", k))
        out.append(E().Out("ret", s, some(x) if b else NONE))
    return out
MODELS["HashMap::get"] = MODELS["HashMap::get_mut"] = m_mapget
@model("HashMap::contains_key", "HashSet::contains")
def m_has(eng, st, args, c): return R(st, mk("has", rd(eng, st, args[0]), eng.full(st, args[1])))
@model("HashMap::remove", "HashSet::remove")
def m_mapremove(eng, st, args, c):
    r = args[0]; v = eng.read_loc(st, *r.args); k = eng.full(st, args[1])
    eng.write_loc(st, r.args[0], r.args[1], mk("unmapped", v, k))
    if c.name.startswith("HashSet"): return R(st, mk("has", v, k))
    st.ev("HashMap::remove", [v, k], None, c.span)
    return [E().Out("ret", s, some(proj(v, ("n", k))) if b else NONE) for s, b in fork(st, mk("has", v, k))]
@model("f64::recip", "f32::recip")
def m_recip(eng, st, args, c): return R(st, fdiv(ONE, rd(eng, st, args[0])))
@model("HashMap::retain", "Vec::retain")
def m_retain(eng, st, args, c):
    """the entries for which a pure closure holds"""
    r = args[0]
    if r.op != "ref": return None
    v = eng.read_loc(st, *r.args); k = mk("kvar", str(c.cs)[-40:], "retain"); TYPES[k.uid] = "usize"
    x = proj(v, ("i", k)); ins = [x] if c.name.startswith("Vec") else [proj(x, ("f", "0")), proj(x, ("f", "1"))]
    s0 = st.copy(); n0 = len(s0.trace); alts = []
    for o in eng.call_value(s0, args[1], ins, (c.cs, "retain"), c.span):
        if o.kind != "ret" or len(o.st.trace) != n0 or any(o.st.mem.get(q) is not st.mem.get(q) for q in st.mem):
            if not c.name.startswith("Vec"): return None
            outs = collect(eng, st, mkiter("filter", it=it_seq(v), f=args[1]), c, "retain")     # the closure keeps something of its own
            for o2 in outs:
                if o2.kind == "ret": eng.write_loc(o2.st, r.args[0], r.args[1], o2.val); o2.val = UNIT
            return outs
        extra = [l if b else bnot(l) for l, b in o.st.facts.lits[len(st.facts.lits):]]
        alts.append(band(*extra, o.val))
    eng.write_loc(st, r.args[0], r.args[1], E().mkcomp(length(v), [((bor(*alts),), (("e", x),))], k))
    return R(st, UNIT)
@model("HashMap::insert")
def m_mapinsert(eng, st, args, c):
    r = args[0]; v = eng.read_loc(st, *r.args); k, x = eng.full(st, args[1]), eng.full(st, args[2])
    eng.write_loc(st, r.args[0], r.args[1], mk("mapped", v, k, x))
    return [E().Out("ret", s, some(proj(v, ("n", k))) if b else NONE) for s, b in fork(st, mk("has", v, k))]
@model("HashSet::insert")
def m_setinsert(eng, st, args, c):
    r = args[0]; v = eng.read_loc(st, *r.args); k = eng.full(st, args[1])
    f = mk("has", v, k)
    out = []
    for s, b in fork(st, f):
        if not b: eng.write_loc(s, r.args[0], r.args[1], push(v, k))
        out.append(E().Out("ret", s, boolc(not b)))
    return out

# ---------------------------------------------------------------- iterators
def mkiter(kind, **f):
    return agg(("iter", kind), tuple(f), tuple(f.values()))
def isiter(v): return v.op == "agg" and isinstance(v.args[0], tuple) and v.args[0][0] == "iter"
def fld(v, n): return v.args[2][v.args[1].index(n)]
def it_seq(v): return mkiter("seq", src=v, pos=ZERO)
def as_iter(eng, st, x):
    if x.op == "ref":
        v = eng.read_loc(st, *x.args)
        if isiter(v): return x
        if v.op == "ref": return as_iter(eng, st, v)
        if v.op == "agg" and isinstance(v.args[0], tuple) and v.args[0][0] == "adt" and v.args[0][1].split("::")[-1] in ("Range", "RangeFrom"):
            eng.write_loc(st, *x.args, as_iter(eng, st, v)); return x     # a range is its own iterator
        return mkiter("mut", src=x, pos=ZERO)
    if isiter(x): return x
    if x.op == "agg" and isinstance(x.args[0], tuple) and x.args[0][0] == "adt":
        nm = x.args[0][1].split("::")[-1]
        f = dict(zip(x.args[1], x.args[2]))
        if nm == "Range": return mkiter("range", pos=f["start"], hi=f["end"])
        if nm == "RangeFrom": return mkiter("range", pos=f["start"], hi=mk("inf"))
        if nm == "Option":
            return it_seq(vec(*x.args[2]))
    return it_seq(x)
@model("RangeInclusive::new")
def m_rangeinc(eng, st, args, c): return R(st, mkiter("range", pos=args[0], hi=add(args[1], ONE)))
@model("RangeInclusive::contains", "Range::contains")
def m_rcontains(eng, st, args, c):
    r, x = as_iter(eng, st, args[0]), rd(eng, st, args[1])
    if not isiter(r) or r.args[0][1] != "range": return None
    return R(st, band(le(fld(r, "pos"), x), lt(x, fld(r, "hi"))))

def indexed(v):
    k = v.args[0][1]
    if k in ("seq", "range", "mut", "chunks"): return True
    if k in ("enumerate", "rev", "step", "field"): return indexed(fld(v, "it"))
    if k == "zip": return indexed(fld(v, "a")) and indexed(fld(v, "b"))
    return False
def ix_len(v):
    k = v.args[0][1]
    if k == "seq": return sub(length(fld(v, "src")), fld(v, "pos"))
    if k == "range": return sub(fld(v, "hi"), fld(v, "pos"))
    if k == "enumerate": return ix_len(fld(v, "it"))
    if k == "chunks": return sub(chunk_count(fld(v, "src"), fld(v, "n")), fld(v, "pos"))
    if k == "field": return ix_len(fld(v, "it"))
    if k == "rev": return sub(ix_len(fld(v, "it")), fld(v, "pos"))
    if k == "step":
        n = ix_len(fld(v, "it"))
        s = fld(v, "s")
        n2 = num(-(-n.args[0] // s.args[0])) if n.op == "num" and s.op == "num" else mk("cdiv", n, s)
        return sub(n2, fld(v, "pos"))
    if k == "zip": return E().mk_min([ix_len(fld(v, "a")), ix_len(fld(v, "b"))])
    raise E().Unsupported("length of iterator " + k)
def chunk_count(src, n):
    m = length(src)
    return num(-(-m.args[0] // n.args[0])) if m.op == "num" and n.op == "num" else mk("cdiv", m, n)
def chunk(src, n, i):
    lo = mul(i, n)
    return E().mkslice(src, lo, E().mk_min([add(lo, n), length(src)]))
def ix_elem(v, i):
    k = v.args[0][1]
    if k == "chunks": return chunk(fld(v, "src"), fld(v, "n"), add(fld(v, "pos"), i))
    if k == "seq": return proj(fld(v, "src"), ("i", add(fld(v, "pos"), i)))
    if k == "range": return add(fld(v, "pos"), i)
    if k == "mut":
        r = fld(v, "src"); return mk("ref", r.args[0], r.args[1] + (("i", add(fld(v, "pos"), i)),))
    if k == "enumerate": return tup(add(fld(v, "n"), i), ix_elem(fld(v, "it"), i))
    if k == "field": return proj(ix_elem(fld(v, "it"), i), ("f", fld(v, "n").args[0]))
    if k == "rev": return ix_elem(fld(v, "it"), sub(sub(ix_len(fld(v, "it")), ONE), add(fld(v, "pos"), i)))
    if k == "step": return ix_elem(fld(v, "it"), mul(add(fld(v, "pos"), i), fld(v, "s")))
    if k == "zip": return tup(ix_elem(fld(v, "a"), i), ix_elem(fld(v, "b"), i))
    raise E().Unsupported("element of iterator " + k)

def it_next(eng, st, root, path, cs):
    """-> [(kind, payload, state)], kind some|none|skip|panic"""
    v = eng.read_loc(st, root, path)
    if v.op == "ref": return it_next(eng, st, v.args[0], v.args[1], cs)
    if not isiter(v): raise E().Unsupported("next() on %s" % show(v)[:80])
    k = v.args[0][1]
    F = lambda n: path + (("f", n),)
    def bump(s, n, d=ONE): eng.write_loc(s, root, F(n), add(fld(v, n), d))
    out = []
    if k in ("seq", "range", "mut", "mutfield", "rev", "step", "chunks"):
        pos = fld(v, "pos")
        if k == "seq": lim, x = length(fld(v, "src")), proj(fld(v, "src"), ("i", pos))
        elif k == "range": lim, x = fld(v, "hi"), pos
        elif k == "chunks": lim, x = chunk_count(fld(v, "src"), fld(v, "n")), chunk(fld(v, "src"), fld(v, "n"), pos)
        elif k in ("mut", "mutfield"):
            r = fld(v, "src"); lim = length(eng.read_loc(st, *r.args)); e = (("i", pos),)
            if k == "mutfield": e += (("f", fld(v, "n").args[0]),)
            x = mk("ref", r.args[0], r.args[1] + e)
        elif k == "rev": lim, x = ix_len(fld(v, "it")), ix_elem(fld(v, "it"), sub(sub(ix_len(fld(v, "it")), ONE), pos))
        else:
            n = ix_len(fld(v, "it")); s_ = fld(v, "s")
            lim = num(-(-n.args[0] // s_.args[0])) if n.op == "num" and s_.op == "num" else mk("cdiv", n, s_)
            x = ix_elem(fld(v, "it"), mul(pos, s_))
        if lim.op == "inf":
            bump(st, "pos"); return [("some", x, st)]
        for s, b in fork(st, lt(pos, lim)):
            if b: bump(s, "pos"); out.append(("some", x, s))
            else: out.append(("none", None, s))
        return out
    if k == "enumerate":
        for kd, x, s in it_next(eng, st, root, F("it"), cs):
            if kd == "some":
                n = eng.read_loc(s, root, F("n")); eng.write_loc(s, root, F("n"), add(n, ONE)); x = tup(n, x)
            out.append((kd, x, s))
        return out
    if k == "field":
        for kd, x, s in it_next(eng, st, root, F("it"), cs):
            if kd == "some": x = proj(x, ("f", fld(v, "n").args[0]))
            out.append((kd, x, s))
        return out
    if k == "zip":
        for kd, x, s in it_next(eng, st, root, F("a"), cs):
            if kd != "some": out.append((kd, x, s)); continue
            for kd2, y, s2 in it_next(eng, s, root, F("b"), cs):
                if kd2 == "skip": raise E().Unsupported("zip of a filter")
                out.append((kd2, tup(x, y) if kd2 == "some" else y, s2))
        return out
    if k == "map" or k == "filter" or k == "filter_map" or k == "take_while" or k == "inspect" or k == "map_while":
        fn = fld(v, "f")
        for kd, x, s in it_next(eng, st, root, F("it"), cs):
            if kd != "some": out.append((kd, x, s)); continue
            for o in eng.call_value(s, mk("ref", root, F("f")), [x], (cs, k), None):
                if o.kind == "panic": out.append(("panic", o.val, o.st)); continue
                if k == "map": out.append(("some", o.val, o.st))
                elif k == "inspect": out.append(("some", x, o.st))
                elif k in ("filter", "take_while"):
                    for s2, b in fork(o.st, o.val): out.append((("some", x, s2) if b else ("skip" if k == "filter" else "none", None, s2)))
                else:
                    for s2, b in fork(o.st, isSome(o.val)): out.append((("some", payload(o.val, "Some"), s2) if b else ("skip" if k == "filter_map" else "none", None, s2)))
        return out
    if k == "uniq":
        fn = fld(v, "f")
        for kd, x, s in it_next(eng, st, root, F("it"), cs):
            if kd != "some": out.append((kd, x, s)); continue
            for o in (eng.call_value(s, mk("ref", root, F("f")), [x], (cs, k), None) if fn is not UNIT else R(s, x)):
                if o.kind == "panic": out.append(("panic", o.val, o.st)); continue
                key = eng.full(o.st, o.val); seen = eng.read_loc(o.st, root, F("seen"))
                for s2, b in fork(o.st, mk("has", seen, key)):
                    if not b: eng.write_loc(s2, root, F("seen"), push(seen, key))
                    out.append(("skip", None, s2) if b else ("some", x, s2))
        return out
    if k == "take":
        n = fld(v, "n")
        for s, b in fork(st, le(n, ZERO)):
            if b: out.append(("none", None, s)); continue
            for kd, x, s2 in it_next(eng, s, root, F("it"), cs):
                if kd == "some": eng.write_loc(s2, root, F("n"), sub(n, ONE))
                out.append((kd, x, s2))
        return out
    raise E().Unsupported("iterator " + k)

@model("Iterator::next")
def m_next(eng, st, args, c):
    a = args[0]
    if a.op != "ref":
        return None
    out = []
    for kd, x, s in it_next(eng, st, a.args[0], a.args[1], (c.cs, "next")):
        if kd == "some": out.append(E().Out("ret", s, some(x)))
        elif kd == "none": out.append(E().Out("ret", s, NONE))
        else: out.append(E().Out(kd, s, x))
    return out

def adapter(kind, *extra):
    def m(eng, st, args, c):
        it = as_iter(eng, st, args[0])
        return R(st, mkiter(kind, it=it, **{n: v for n, v in zip(extra, args[1:])}))
    return m
@model("Itertools::unique_by", "Itertools::unique")
def m_unique(eng, st, args, c): return R(st, mkiter("uniq", it=as_iter(eng, st, args[0]), f=args[1] if len(args) > 1 else UNIT, seen=vec()))
for _p in ("Iterator::", "ParallelIterator::", "IndexedParallelIterator::"):
    MODELS[_p + "map"] = adapter("map", "f")
    MODELS[_p + "filter"] = adapter("filter", "f")
    MODELS[_p + "filter_map"] = adapter("filter_map", "f")
    MODELS[_p + "inspect"] = adapter("inspect", "f")
MODELS["Iterator::take_while"] = adapter("take_while", "f")
MODELS["Iterator::map_while"] = adapter("map_while", "f")
@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def m_enum(eng, st, args, c): return R(st, mkiter("enumerate", it=as_iter(eng, st, args[0]), n=ZERO))
@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip", "Itertools::zip_eq")
def m_zip(eng, st, args, c): return R(st, mkiter("zip", a=as_iter(eng, st, args[0]), b=as_iter(eng, st, args[1])))
@model("itertools::multizip", "Itertools::multizip")
def m_mzip(eng, st, args, c): return None
@model("Iterator::take")
def m_take2(eng, st, args, c):
    it = as_iter(eng, st, args[0]); n = args[1]
    if it.args[0] == ("iter", "seq") and fld(it, "pos") is ZERO:
        v = fld(it, "src")
        return R(st, it_seq(E().mkslice(v, ZERO, E().mk_min([n, length(v)]))))
    return R(st, mkiter("take", it=it, n=n))
@model("Iterator::skip")
def m_skip(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    def adv(v):
        k = v.args[0][1]
        if k in ("seq", "range", "mut"): return mk_with(v, ("f", "pos"), add(fld(v, "pos"), args[1]))
        if k == "enumerate": return mk_with(mk_with(v, ("f", "it"), adv(fld(v, "it"))), ("f", "n"), add(fld(v, "n"), args[1]))
        if k == "map": return mk_with(v, ("f", "it"), adv(fld(v, "it")))
        raise E().Unsupported("skip on " + k)
    return R(st, adv(it))
@model("Iterator::step_by")
def m_step(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    return R(st, mkiter("step", it=it, s=args[1], pos=ZERO))
@model("Iterator::rev")
def m_rev(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    if it.op == "ref": return None
    if it.args[0][1] == "range" and fld(it, "pos").op == "num" and fld(it, "hi").op == "num" and fld(it, "hi").args[0] - fld(it, "pos").args[0] <= 0: return R(st, it)
    if it.args[0][1] == "map" and indexed(fld(it, "it")):
        return R(st, mkiter("map", it=mkiter("rev", it=fld(it, "it"), pos=ZERO), f=fld(it, "f")))
    if it.args[0][1] == "rev" and fld(it, "pos") is ZERO: return R(st, fld(it, "it"))
    if indexed(it): return R(st, mkiter("rev", it=it, pos=ZERO))
    out = []
    for o in collect(eng, st, it, c):
        if o.kind == "ret": out.append(E().Out("ret", o.st, mkiter("rev", it=it_seq(o.val), pos=ZERO)))
        else: out.append(o)
    return out

def consume(eng, st, it, c, inits, body, early=None, tag=""):
    """run an iterator to its end; body(eng, state, x, accroots) -> [Out]; outs: val = None, accumulators in memory"""
    Out = E().Out
    lid = E().intern_id("it", c.cs, tag)
    iroot = ("it", lid)
    st.mem[iroot] = it
    accs = [("acc", lid, i) for i in range(len(inits))]
    for a, x in zip(accs, inits): st.mem[a] = x
    def step(s):
        r = []
        for kd, x, s2 in it_next(eng, s, iroot, (), (c.cs, tag, "n")):
            if kd == "none": r.append(("exit", "end", s2))
            elif kd == "skip": r.append(("back", None, s2))
            elif kd == "panic": r.append(("panic", x, s2))
            else:
                for o in body(eng, s2, x, accs):
                    if o.kind == "ret": r.append(("back", None, o.st))
                    elif o.kind == "stop": r.append(("exit", "stop", o.st))
                    else: r.append((o.kind, o.val, o.st))
        return r
    res = []
    for kd, t, s in eng.loop(st, lid, step, "iterator at %s" % (c.span,)):
        vals = [s.mem.get(a) for a in accs]
        s.mem.pop(iroot, None)
        for a in accs: s.mem.pop(a, None)
        if kd == "exit": res.append((t, s, vals))
        else: res.append((kd, s, t))
    return res

def run_acc(eng, st, it, c, init, body, fin=lambda v: v, tag=""):
    Out = E().Out
    out = []
    for kd, s, vals in consume(eng, st, it, c, [init], body, tag=tag):
        if kd in ("end", "stop"): out.append(Out("ret", s, fin(vals[0])))
        else: out.append(Out(kd, s, vals))
    return out

def collect(eng, st, it, c, tag="collect"):
    if it.op == "ref":
        pass
    elif it.args[0] == ("iter", "seq"):
        v, p = fld(it, "src"), fld(it, "pos")
        return R(st, v if p is ZERO else E().mkslice(v, p, length(v)))
    def body(eng, s, x, accs):
        s.mem[accs[0]] = push(s.mem[accs[0]], eng.full(s, x))
        return R(s, UNIT)
    return run_acc(eng, st, it, c, vec(), body, tag=tag)

@model("Iterator::collect", "Itertools::collect_vec", "ParallelIterator::collect", "FromIterator::from_iter", "FromParallelIterator::from_par_iter")
def m_collect(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    ty = c.destty
    if isinstance(ty, list) and ty[0] == "adt" and ty[1].endswith("Result"):
        return collect_result(eng, st, it, c)
    if isinstance(ty, list) and ty[0] == "adt" and ty[1].endswith("String"):
        return [E().Out(o.kind, o.st, mk("call", "join", o.val, mk("str", "")) if o.kind == "ret" else o.val) for o in collect(eng, st, it, c)]
    if isinstance(ty, list) and ty[0] == "adt" and ty[1].endswith("BTreeSet"):      # in order, each once
        return [E().Out(o.kind, o.st, mk("dedup", mk("sorted", o.val)) if o.kind == "ret" else o.val) for o in collect(eng, st, it, c)]
    return collect(eng, st, it, c)
def collect_result(eng, st, it, c):
    Out = E().Out
    def body(eng, s, x, accs):
        out = []
        for s2, b in fork(s, isOk(x)):
            if b:
                s2.mem[accs[0]] = push(s2.mem[accs[0]], payload(x, "Ok")); out.append(Out("ret", s2, UNIT))
            else:
                s2.mem[accs[0]] = err(payload(x, "Err")); out.append(Out("stop", s2, UNIT))
        return out
    out = []
    for kd, s, vals in consume(eng, st, it, c, [vec()], body, tag="collect"):
        if kd == "end": out.append(Out("ret", s, ok(vals[0])))
        elif kd == "stop": out.append(Out("ret", s, vals[0]))
        else: out.append(Out(kd, s, vals))
    return out

@model("Iterator::fold")
def m_fold(eng, st, args, c):
    it = as_iter(eng, st, args[0]); f = args[2]
    def body(eng, s, x, accs):
        acc = s.mem[accs[0]]
        out = []
        for o in eng.call_value(s, f, [acc, x], (c.cs, "fold"), c.span):
            if o.kind == "ret": o.st.mem[accs[0]] = o.val
            out.append(o)
        return out
    return run_acc(eng, st, it, c, args[1], body)
@model("Iterator::sum", "ParallelIterator::sum")
def m_sum(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    if isinstance(c.destty, list): return None
    def body(eng, s, x, accs):
        s.mem[accs[0]] = add(s.mem[accs[0]], rd(eng, s, x)); return R(s, UNIT)
    return run_acc(eng, st, it, c, ZERO, body)
@model("Iterator::product")
def m_product(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    if isinstance(c.destty, list): return None
    def body(eng, s, x, accs):
        s.mem[accs[0]] = mul(s.mem[accs[0]], rd(eng, s, x)); return R(s, UNIT)
    return run_acc(eng, st, it, c, ONE, body)
@model("Iterator::count")
def m_count(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    if it.op != "ref" and indexed(it): return R(st, ix_len(it))
    def body(eng, s, x, accs):
        s.mem[accs[0]] = add(s.mem[accs[0]], ONE); return R(s, UNIT)
    return run_acc(eng, st, it, c, ZERO, body)
@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(eng, st, args, c):
    it = as_iter(eng, st, args[0])
    def body(eng, s, x, accs): return eng.call_value(s, args[1], [x], (c.cs, "each"), c.span)
    return run_acc(eng, st, it, c, UNIT, body, lambda v: UNIT)
@model("Iterator::all", "Iterator::any", "ParallelIterator::all", "ParallelIterator::any")
def m_all(eng, st, args, c):
    it = as_iter(eng, st, args[0]); isall = c.name.endswith("all")
    Out = E().Out
    def body(eng, s, x, accs):
        out = []
        for o in eng.call_value(s, args[1], [x], (c.cs, "q"), c.span):
            if o.kind != "ret": out.append(o); continue
            # a latch rather than an early exit: the closed form is the quantifier
            cur = o.st.mem[accs[0]]
            o.st.mem[accs[0]] = band(cur, o.val) if isall else bor(cur, o.val)
            out.append(Out("ret", o.st, UNIT))
        return out
    # predicates without effects: quantify over the condition of the element
    st0 = st.copy()
    r = quantified(eng, st, it, args[1], c, isall)
    if r is not None: return r
    return run_acc(eng, st0, it, c, boolc(isall), body)

def quantified(eng, st, it, f, c, isall):
    """all/any with a pure predicate: one quantified literal"""
    Out = E().Out
    n0 = len(st.trace)
    def body(eng, s, x, accs):
        outs = []
        for o in eng.call_value(s, f, [x], (c.cs, "q"), c.span):
            if o.kind != "ret": outs.append(o); continue
            for s2, b in fork(o.st, o.val):
                if b != isall: s2.mem[accs[0]] = boolc(b)
                outs.append(Out("ret", s2, UNIT))
        return outs
    res = run_acc(eng, st, it, c, boolc(isall), body)
    if any(o.kind == "ret" and len(o.st.trace) != n0 for o in res): return None
    return res

@model("Iterator::position", "Iterator::find", "Iterator::find_map", "ParallelIterator::find_first")
def m_position(eng, st, args, c):
    a = args[0]
    it = as_iter(eng, st, a); op = c.name.split("::")[1]
    Out = E().Out
    inits = [ZERO, NONE]
    def body(eng, s, x, accs):
        out = []
        for o in eng.call_value(s, args[1], [x], (c.cs, "q"), c.span):
            if o.kind != "ret": out.append(o); continue
            cond = isSome(o.val) if op == "find_map" else o.val
            for s2, b in fork(o.st, cond):
                if b:
                    s2.mem[accs[1]] = o.val if op == "find_map" else some(s2.mem[accs[0]] if op == "position" else x)
                    out.append(Out("stop", s2, UNIT))
                else:
                    s2.mem[accs[0]] = add(s2.mem[accs[0]], ONE); out.append(Out("ret", s2, UNIT))
        return out
    res = []
    for kd, s, vals in consume(eng, st, it, c, inits, body):
        if kd == "end": res.append(Out("ret", s, NONE))
        elif kd == "stop": res.append(Out("ret", s, vals[1]))
        else: res.append(Out(kd, s, vals))
    return res

@model("Extend::extend", "Vec::extend", "ParallelExtend::par_extend")
def m_extend(eng, st, args, c):
    r = args[0]
    it = as_iter(eng, st, args[1])
    if r.op != "ref": return None
    out = []
    for o in collect(eng, st, it, c, "extend"):
        if o.kind == "ret":
            v = eng.read_loc(o.st, *r.args)
            eng.write_loc(o.st, r.args[0], r.args[1], concat(v, o.val))
            out.append(E().Out("ret", o.st, UNIT))
        else: out.append(o)
    return out

def multi(n, split_):
    def m(eng, st, args, c):
        it = as_iter(eng, st, args[0])
        k = n
        if k is None:
            ty = c.destty
            k = len(ty[1]) if isinstance(ty, list) and ty[0] == "tuple" else 2
        Out = E().Out
        def body(eng, s, x, accs):
            if split_ == "unzip":
                x = eng.full(s, x)
                for i, a in enumerate(accs): s.mem[a] = push(s.mem[a], proj(x, ("f", str(i))))
                return R(s, UNIT)
            out = []
            for o in eng.call_value(s, args[1], [x], (c.cs, "q"), c.span):
                if o.kind != "ret": out.append(o); continue
                for s2, b in fork(o.st, o.val):
                    a = accs[0 if b else 1]; s2.mem[a] = push(s2.mem[a], eng.full(s2, x)); out.append(Out("ret", s2, UNIT))
            return out
        res = []
        for kd, s, vals in consume(eng, st, it, c, [vec()] * k, body):
            if kd in ("end", "stop"): res.append(Out("ret", s, tup(*vals)))
            else: res.append(Out(kd, s, vals))
        return res
    return m
MODELS["Iterator::unzip"] = multi(2, "unzip"); MODELS["itertools::multiunzip"] = multi(None, "unzip")
MODELS["Itertools::multiunzip"] = multi(None, "unzip"); MODELS["ParallelIterator::unzip"] = multi(2, "unzip")
MODELS["Iterator::partition"] = multi(2, "partition")

@model("Itertools::sorted", "Itertools::sorted_unstable", "Itertools::dedup")
def m_itsorted(eng, st, args, c):
    """the whole sequence, sorted or without adjacent repetitions"""
    out = []
    for o in collect(eng, st, as_iter(eng, st, args[0]), c):
        if o.kind == "ret": o = E().Out("ret", o.st, it_seq(mk("dedup" if c.name.endswith("dedup") else "sorted", o.val)))
        out.append(o)
    return out
@model("Itertools::concat")
def m_itconcat(eng, st, args, c):
    out = []
    for o in MODELS["Iterator::flat_map"](eng, st, args, c._replace(name="Iterator::flatten") if hasattr(c, "_replace") else with_name(c, "Iterator::flatten")):
        if o.kind == "ret": out += collect(eng, o.st, as_iter(eng, o.st, o.val), c, "concat")
        else: out.append(o)
    return out
def with_name(c, name):
    import copy
    d = copy.copy(c); d.name = name; return d
@model("slice::map", "array::map")
def m_arraymap(eng, st, args, c):
    """[x; N].map(f): eager, in order"""
    return collect(eng, st, mkiter("map", it=as_iter(eng, st, args[0]), f=args[1]), c, "amap")
@model("Iterator::flat_map", "ParallelIterator::flat_map", "Iterator::flatten", "ParallelIterator::flat_map_iter", "ParallelIterator::flatten", "Iterator::chain")
def m_flatmap(eng, st, args, c):
    op = c.name.split("::")[1]
    it = as_iter(eng, st, args[0]); Out = E().Out
    out = []
    if op == "chain":
        for o in collect(eng, st, it, c, "a"):
            if o.kind != "ret": out.append(o); continue
            for o2 in collect(eng, o.st, as_iter(eng, o.st, args[1]), c, "b"):
                out.append(Out("ret", o2.st, it_seq(concat(o.val, o2.val))) if o2.kind == "ret" else o2)
        return out
    def body(eng, s, x, accs):
        outs = [Out("ret", s, x)] if op == "flatten" else eng.call_value(s, args[1], [x], (c.cs, "f"), c.span)
        r = []
        for o in outs:
            if o.kind != "ret": r.append(o); continue
            v = o.val
            for o2 in (collect(eng, o.st, as_iter(eng, o.st, v), c, "inner")):
                if o2.kind == "ret": o2.st.mem[accs[0]] = concat(o2.st.mem[accs[0]], eng.full(o2.st, o2.val))
                r.append(o2)
        return r
    return run_acc(eng, st, it, c, vec(), body, it_seq, tag="flat")

def by_key_of(rows, base, x, y, sign):
    """the key a comparator compares its two arguments by: (key of x, sign) or (None, sign)"""
    for p, q, sg in ((x, y, sign), (y, x, -sign)):
        m = {x: {}, y: {}}
        ok = bool(rows)
        for r in rows:
            if r.val.op != "cmp": ok = False; break
            lits = r.st.facts.lits[base:]
            a, b = r.val.args[:2]
            for v, w, t in ((p, q, a), (q, p, b)):
                if tm.mentions(t, lambda z: z is w): ok = False
                own = frozenset((f, s) for f, s in lits if not tm.mentions(f, lambda z: z is w))
                if m[v].setdefault(own, t) is not t: ok = False
        if not ok: continue
        ren = {frozenset((subst(f, {q: p}), s) for f, s in k): subst(t, {q: p}) for k, t in m[q].items()}
        if ren != m[p]: continue
        alts = sorted(((band(*[f if s else bnot(f) for f, s in k]), t) for k, t in m[p].items()), key=lambda z: (z[0].uid, z[1].uid))
        key = alts[-1][1]
        for g, t in reversed(alts[:-1]): key = ite(g, t, key)
        return subst(key, {p: x}), sg
    return None, sign
def keyed(sign, closure):
    def m(eng, st, args, c):
        it = as_iter(eng, st, args[0]); Out = E().Out
        out = []
        for o in collect(eng, st, it, c):
            if o.kind != "ret": out.append(o); continue
            v = o.val; s0 = o.st
            for s, b in fork(s0, eq(length(v), ZERO)):
                if b: out.append(Out("ret", s, NONE)); continue
                x, y = mk("sym", "cmp_x", id_of(c)), mk("sym", "cmp_y", id_of(c))
                if closure == "by":
                    r = eng.call_value(s.copy(), args[1], [x, y], (c.cs, "by"), c.span)
                    r = [q for q in r if q.kind == "ret"]
                    key, sg = by_key_of(r, len(s.facts.lits), x, y, sign)
                    if key is None:
                        out.append(Out("ret", s, some(mk("pick", v, mk("opaque_cmp", id_of(c)))))); continue
                elif closure == "by_key":
                    r = [q for q in eng.call_value(s.copy(), args[1], [x], (c.cs, "by"), c.span) if q.kind == "ret"]
                    key = r[0].val; sg = sign
                else: key = x; sg = sign
                key = key if sg > 0 else neg(key)
                bv = E().fresh_bv((key, v))
                n = length(v)
                if v.op == "comp" and len(v.args[1]) == 1 and not v.args[1][0][0] and len(v.args[1][0][1]) == 1: n = v.args[0]
                i = E().mkargmax(n, subst(key, {x: proj(v, ("i", bv))}), bv)
                out.append(Out("ret", s, some(proj(v, ("i", i)))))
        return out
    return m
def id_of(c): return "x"
for _p in ("Iterator::", "ParallelIterator::"):
    MODELS[_p + "max_by"] = keyed(1, "by"); MODELS[_p + "min_by"] = keyed(-1, "by")
    MODELS[_p + "max_by_key"] = keyed(1, "by_key"); MODELS[_p + "min_by_key"] = keyed(-1, "by_key")
    MODELS[_p + "max"] = keyed(1, "id"); MODELS[_p + "min"] = keyed(-1, "id")
@model("Iterator::last")
def m_last(eng, st, args, c):
    out = []
    for o in collect(eng, st, as_iter(eng, st, args[0]), c):
        if o.kind != "ret": out.append(o); continue
        for s, b in fork(o.st, eq(length(o.val), ZERO)):
            out.append(E().Out("ret", s, NONE if b else some(proj(o.val, ("i", sub(length(o.val), ONE))))))
    return out
@model("Iterator::nth")
def m_nth(eng, st, args, c): return None
@model("slice::chunks")
def m_chunks(eng, st, args, c):
    v, n = rd(eng, st, args[0]), args[1]
    return R(st, mkiter("chunks", src=v, n=n, pos=ZERO))

# ---------------------------------------------------------------- strings and paths
def flat(x):
    if x.op == "fmt": return x.args[0]
    if x.op == "str": return (x.args[0],) if x.args[0] else ()
    if x.op == "disp":
        return flat(x.args[0]) if x.args[0].op in ("str", "fmt", "disp") else (x.args[0],)
    return (x,)
def mkfmt(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        elif p != "": out.append(p)
    if not out: return mk("str", "")
    if len(out) == 1: return mk("str", out[0]) if isinstance(out[0], str) else out[0]
    return mk("fmt", tuple(out))
@model("Itertools::join", "slice::join", "Join::join")
def m_join(eng, st, args, c):
    """the items' texts with the separator between them"""
    sep = rd(eng, st, args[1])
    if sep.op != "str": return None
    out = []
    for o in collect(eng, st, as_iter(eng, st, args[0]), c):
        out.append(E().Out("ret", o.st, mk("joined", eng.full(o.st, o.val), sep)) if o.kind == "ret" else o)
    return out
@model("str::repeat")
def m_repeat(eng, st, args, c):
    x, n = rd(eng, st, args[0]), rd(eng, st, args[1])
    if x.op == "str" and n.op == "num" and 0 <= n.args[0] * len(x.args[0]) <= 4096: return R(st, mk("str", x.args[0] * int(n.args[0])))
    return None
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def m_arg(eng, st, args, c):
    x = eng.full(st, args[0])
    return R(st, mk("disp", x) if c.name.endswith("display") else mk("dbg", x))
@model("Arguments::new")
def m_arguments(eng, st, args, c):
    t = args[0]; av = args[1]
    bs = t.args[0] if t.op == "bytes" else None
    if bs is None: return None
    out = []; i = 0; k = 0
    def argv(n): return flat(proj(av, ("i", num(n))))
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(bytes(bs[i:i+n]).decode("utf8", "replace")); i += n
        elif n == 0x80:
            L = bs[i] | bs[i+1] << 8; i += 2
            out.append(bytes(bs[i:i+L]).decode("utf8", "replace")); i += L
        elif n == 0xC0:
            out += argv(k); k += 1
        else:
            opts = []
            if n & 1: opts.append(tuple(bs[i:i+4])); i += 4
            if n & 2: opts.append(("w",) + tuple(bs[i:i+2])); i += 2
            if n & 4: opts.append(("p",) + tuple(bs[i:i+2])); i += 2
            if n & 8: k = bs[i] | bs[i+1] << 8; i += 2
            a = argv(k); k += 1
            if opts: out.append(mk("opt", tuple(opts), mkfmt(a)))
            else: out += a
    return R(st, mkfmt(out))
@model("Path::join", "PathBuf::join")
def m_join(eng, st, args, c):
    return R(st, mkfmt(flat(eng.full(st, args[0])) + ("/",) + flat(eng.full(st, args[1]))))
@model("Path::to_str", "OsStr::to_str")
def m_tostr(eng, st, args, c): return R(st, some(eng.full(st, args[0])))
@model("PathBuf::push")
def m_pathpush(eng, st, args, c):
    r = args[0]
    if r.op != "ref": return None
    eng.write_loc(st, r.args[0], r.args[1], mkfmt(flat(eng.read_loc(st, *r.args)) + ("/",) + flat(eng.full(st, args[1]))))
    return R(st, UNIT)
@model("OsString::into_string")
def m_tostr2(eng, st, args, c): return R(st, ok(eng.full(st, args[0])))
@model("Path::display", "Path::to_string_lossy", "OsStr::to_string_lossy", "Path::as_os_str", "OsStr::to_os_string")
def m_disp(eng, st, args, c): return R(st, eng.full(st, args[0]))
@model("String::push_str", "String::push")
def m_pushstr(eng, st, args, c):
    r = args[0]
    eng.write_loc(st, r.args[0], r.args[1], mkfmt(flat(eng.read_loc(st, *r.args)) + flat(eng.full(st, args[1]))))
    return R(st, UNIT)
@model("Formatter::write_fmt", "Formatter::write_str")
def m_fwrite(eng, st, args, c):
    if eng.prints: st.ev("print", [eng.full(st, args[1])], UNIT, c.span)
    return R(st, ok(UNIT))
@model("mem::drop")
def m_drop(eng, st, args, c): return R(st, UNIT)
@model("rand::thread_rng")
def m_rng(eng, st, args, c): return R(st, mk("sym", "rng"))

@model("Lazy::get")
def m_lazy(eng, st, args, c):
    """a lazily initialised static: one fixed value"""
    import re
    m = re.findall(r"<([\w:]+) as", repr(args[0].args)) or [show(args[0])]
    return R(st, mk("const", m[0].split("::")[-1]))
# ---------------------------------------------------------------- random draws: one value per call and per iteration
def random_call(eng, st, args, c):
    vals = [mk("sym", "rng") if i_rng(eng, st, a) else (eng.full(st, a)) for a in args]
    ks = tuple(eng.loopstack)
    n = sum(1 for e, _ in E().flatten(st.trace) if e.name == c.name and e.args[:len(vals)] == tuple(vals))
    if c.name == "SliceRandom::choose":
        out = []
        for s, b in fork(st, eq(length(vals[0]), ZERO)):
            if b: out.append(E().Out("ret", s, NONE)); continue
            i = mk("choice", vals[0], mk("draw", n, ks)); TYPES[i.uid] = "usize"
            s.ev(c.name, vals, i, c.span)
            out.append(E().Out("ret", s, some(proj(vals[0], ("i", i)))))
        return out
    v = mk("call", c.name, *vals, mk("draw", n, ks))
    E().settype(v, c.destty)
    if c.destty == ["tuple", []]: v = UNIT
    st.ev(c.name, vals, v, c.span)
    if c.name == "SliceRandom::shuffle":
        r = args[0]
        eng.write_loc(st, r.args[0], r.args[1], mk("shuf", eng.read_loc(st, *r.args), mk("draw", n, ks)))
    return R(st, v)
def i_rng(eng, st, a):
    x = rd(eng, st, a)
    return x.op == "sym" and x.args[0] == "rng"
for _n in RANDOM: MODELS[_n] = random_call

# ---------------------------------------------------------------- tensors
CREATE = ("Tensor::zeros", "Tensor::ones", "Tensor::full", "Tensor::from_slice", "Tensor::zeros_like", "Tensor::empty")
def tensor_call(name):
    def m(eng, st, args, c):
        if name.startswith("Tensor::") and name.endswith("_") and not name.endswith("__") and args and args[0].op == "ref":
            r = args[0]
            v = eng.read_loc(st, *r.args)
            w = mk("call", name.rstrip("_"), v, *[eng.full(st, a) for a in args[1:]])
            if name in ("Tensor::to_device_",): w = v
            eng.write_loc(st, r.args[0], r.args[1], w)
            if v.op == "call" and v.args[0] in CREATE: pass
            elif w is not v and v.op not in ("num",):
                # every other handle of the same storage sees the update
                tag = mk("call", "alias-hole")
                hold = {}
                for root, x in list(st.mem.items()):
                    y = eng.read_loc(st, root, ())
                    hold[root] = subst(subst(y, {w: tag}), {v: w})
                for root, y in hold.items(): st.mem[root] = subst(y, {tag: w})
            return R(st, w)
        return None
    return m

@model("Optimizer::backward_step")
def m_backward_step(eng, st, args, c):
    """zero_grad, backward and step in one call"""
    outs = eng.opaque_call(st, "Optimizer::zero_grad", [args[0]], c.span, None)
    st = outs[0].st
    st = eng.opaque_call(st, "Tensor::backward", [args[1]], c.span, None)[0].st
    return eng.opaque_call(st, "Optimizer::step", [args[0]], c.span, ["tuple", []])
