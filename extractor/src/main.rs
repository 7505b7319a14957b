//! rustc driver that writes the MIR of every body of a workspace crate as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; it only reads the compiled program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    root: String,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        s.replace("crate::", &format!("{}::", self.root))
    }
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d)));
        self.fix(s)
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!("{}", l.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, l.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => "\"bool\"".into(),
            ty::Char => "\"char\"".into(),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => esc(&t.to_string()),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adt(def, &p);
                let a: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                format!("[\"adt\",{},{}]", esc(&p), arr(a))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"array\",{},{}]", self.ty(e), n)
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
            ty::RawPtr(e, m) => format!("[\"ptr\",{},{}]", self.ty(e), m.is_mut()),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), m.is_mut()),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                format!("[\"fn\",{},{}]", esc(&self.path(d)), arr(a))
            }
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", esc(&t.to_string())),
            ty::Closure(d, args) => {
                let u: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                format!("[\"closure\",{},{}]", esc(&self.path(d)), arr(u))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                format!("[\"tuple\",{}]", arr(a))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            _ => {
                let s = with_no_trimmed_paths!(with_crate_prefix!(t.to_string()));
                format!("[\"other\",{}]", esc(&self.fix(s)))
            }
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) { return }
        self.adts.insert(p.to_string(), String::new());
        let mut vs = vec![];
        let local = def.did().is_local();
        for (i, v) in def.variants().iter_enumerated() {
            let discr = def.is_enum().then(|| def.discriminant_for_variant(self.tcx, i).val.to_string());
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else { "null".into() };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
            }
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discr.unwrap_or("null".into()), arr(fs)));
        }
        let s = format!("{{\"kind\":{},\"local\":{},\"variants\":{}}}", esc(if def.is_enum() {"enum"} else if def.is_struct() {"struct"} else {"union"}), local, arr(vs));
        self.adts.insert(p.to_string(), s);
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"d\"]".into(),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(body, self.tcx);
                    let mut name = String::from("null");
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        let pth = self.path(def.did());
                        self.adt(*def, &pth);
                        let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if (def.is_struct() || bt.variant_index.is_some()) && f.as_usize() < def.variant(vi).fields.len() {
                            name = esc(def.variant(vi).fields[f].name.as_str());
                        }
                    }
                    format!("[\"f\",{},{}]", f.as_usize(), name)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => format!("[\"v\",{},{}]", v.as_usize(), n.map(|n| esc(n.as_str())).unwrap_or("null".into())),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
                _ => "[\"x\"]".into(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => return format!("{{\"c\":\"fn\",\"ty\":{}}}", self.ty(t)),
            _ => {}
        }
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) = v {
            return match t.kind() {
                ty::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", i.try_to_bool().unwrap_or(false)),
                ty::Int(_) => format!("{{\"c\":\"int\",\"v\":{},\"ty\":{}}}", i.to_int(i.size()), self.ty(t)),
                ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":{},\"ty\":{}}}", i.to_uint(i.size()), self.ty(t)),
                ty::Char => format!("{{\"c\":\"char\",\"v\":{}}}", i.to_uint(i.size())),
                ty::Float(ty::FloatTy::F32) => { let f = f32::from_bits(i.to_u32()); format!("{{\"c\":\"float\",\"v\":\"{:?}\",\"ty\":\"f32\"}}", f) }
                ty::Float(ty::FloatTy::F64) => { let f = f64::from_bits(i.to_u64()); format!("{{\"c\":\"float\",\"v\":\"{:?}\",\"ty\":\"f64\"}}", f) }
                ty::Adt(..) if depth < 4 => self.destr(v, t, depth).unwrap_or_else(|| format!("{{\"c\":\"raw\",\"v\":\"{}\",\"ty\":{}}}", i.to_uint(i.size()), self.ty(t))),
                _ => format!("{{\"c\":\"raw\",\"v\":\"{}\",\"ty\":{}}}", i.to_uint(i.size()), self.ty(t)),
            };
        }
        // strings and byte strings
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if inner.is_str() {
                        return format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                    }
                    return format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(b.iter().map(|x| x.to_string())));
                }
            }
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                let (prov, off) = ptr.prov_and_relative_offset();
                let ga = tcx.try_get_global_alloc(prov.alloc_id());
                if let Some(mir::interpret::GlobalAlloc::Memory(alloc)) = ga {
                    if let ty::Array(e, n) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                let o = off.bytes_usize();
                                let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                return format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(b.iter().map(|x| x.to_string())));
                            }
                        }
                    }
                    if depth < 4 {
                        let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let inner_s = self.cval(iv, *inner, depth + 1);
                        return format!("{{\"c\":\"refto\",\"v\":{}}}", inner_s);
                    }
                }
                if let Some(mir::interpret::GlobalAlloc::Static(d)) = ga {
                    return format!("{{\"c\":\"static\",\"path\":{}}}", esc(&self.path(d)));
                }
            }
        }
        // an indirect scalar
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Some(mir::interpret::GlobalAlloc::Memory(alloc)) = tcx.try_get_global_alloc(alloc_id) {
                    if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        let r = mir::interpret::AllocRange { start: offset, size: l.size };
                        if let Ok(s) = alloc.inner().read_scalar(&tcx, r, false) {
                            return self.cval(ConstValue::Scalar(s), t, depth + 1);
                        }
                    }
                }
            }
        }
        if depth < 6 {
            if let Some(s) = self.destr(v, t, depth) { return s; }
        }
        if let ConstValue::ZeroSized = v {
            return format!("{{\"c\":\"zst\",\"ty\":{}}}", self.ty(t));
        }
        format!("{{\"c\":\"opaque\",\"ty\":{}}}", self.ty(t))
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {}
            _ => return None,
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
        Some(format!("{{\"c\":\"agg\",\"ty\":{},\"variant\":{},\"fields\":{}}}", self.ty(t), d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into()), arr(fs)))
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"c\":\"promoted\",\"v\":{},\"of\":{}}}", p.as_usize(), esc(&self.path(u.def)));
            }
            let a: Vec<String> = u.args.types().map(|x| self.ty(x)).collect();
            named = format!("\"named\":{},\"nargs\":{},", esc(&self.path(u.def)), arr(a));
            if rustc_middle::ty::TypeVisitableExt::has_param(&u.args) {
                return format!("{{\"c\":\"uneval\",{}\"ty\":{}}}", named, self.ty(t));
            }
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                let s = self.cval(v, t, 0);
                if named.is_empty() { s } else { format!("{{{}{}", named, &s[1..]) }
            }
            Err(_) => format!("{{\"c\":\"uneval\",{}\"ty\":{}}}", named, self.ty(t)),
        }
    }
    fn op(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(env, c)),
            _ => "[\"const\",{\"c\":\"bool\",\"v\":true}]".into(),
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Option<String> {
        let ty::FnDef(d, args) = *t.kind() else { return None };
        let args = args.skip_binder();
        let a: Vec<String> = args.types().map(|x| self.ty(x)).collect();
        let tr = self.tcx.trait_of_assoc(d).map(|x| esc(&self.path(x))).unwrap_or("null".into());
        let mut res = String::from("null");
        let mut body = false;
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, args) {
                let rd = i.def_id();
                let kind = match i.def { ty::InstanceKind::Item(_) => "", _ => "!" };
                body = rd.is_local() && kind.is_empty();
                res = esc(&format!("{}{}", kind, self.path(rd)));
            }
        }
        Some(format!("{{\"path\":{},\"args\":{},\"trait\":{},\"resolved\":{},\"body\":{}}}", esc(&self.path(d)), arr(a), tr, res, body))
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, env, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(body, env, o), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(body, env, o), { let ot = o.ty(body, self.tcx); self.ty(ot) }, self.ty(*t)),
            Rvalue::BinaryOp(b, x) => format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", b)), self.op(body, env, &x.0), self.op(body, env, &x.1), { let t = x.0.ty(body, self.tcx); self.ty(t) }),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{},{}]", esc(&format!("{:?}", u)), self.op(body, env, o), { let t = o.ty(body, self.tcx); self.ty(t) }),
            Rvalue::Discriminant(p) => format!("[\"discr\",{},{}]", self.place(body, p), { let t = p.ty(body, self.tcx).ty; self.ty(t) }),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.op(body, env, o)).collect();
                let k = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let def = self.tcx.adt_def(d);
                        let p = self.path(d);
                        self.adt(def, &p);
                        format!("[\"adt\",{},{},{},{}]", esc(&p), v.as_usize(), esc(def.variant(v).name.as_str()), f.map(|f| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(d))),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, arr(fs))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, did: DefId, body: &Body<'tcx>, env: TypingEnv<'tcx>, promoted: Option<usize>) -> String {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
                let pl = self.place(body, &p);
                dbg.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            locals.push(format!("{{\"ty\":{},\"name\":{}}}", self.ty(l.ty), names.get(&i.as_usize()).map(|n| esc(n)).unwrap_or("null".into())));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => st.push(format!("[\"=\",{},{},{}]", self.place(body, &x.0), self.rvalue(body, env, &x.1), sp)),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{},{}]", self.place(body, place), variant_index.as_usize(), sp)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    let dt = discr.ty(body, self.tcx);
                    format!("[\"switch\",{},{},{},{},{}]", self.op(body, env, discr), self.ty(dt), ts, targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), sp),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(body, self.tcx);
                    let c = match self.callee(env, ft) { Some(c) => c, None => format!("{{\"ind\":{},\"ty\":{}}}", self.op(body, env, func), self.ty(ft)) };
                    let a: Vec<String> = args.iter().map(|x| self.op(body, env, &x.node)).collect();
                    let dt = destination.ty(body, self.tcx).ty;
                    format!("[\"call\",{},{},{},{},{},{}]", c, arr(a), self.place(body, destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp, self.ty(dt))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match **msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow", AssertKind::DivisionByZero(..) => "div0", AssertKind::RemainderByZero(..) => "rem0", _ => "other" };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(body, env, cond), expected, esc(m), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), term, bb.is_cleanup));
        }
        let mut generics = vec![];
        {
            let mut g = Some(self.tcx.generics_of(did));
            let mut all = vec![];
            while let Some(x) = g {
                let mut own: Vec<String> = x.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| p.name.to_string()).collect();
                own.extend(all);
                all = own;
                g = x.parent.map(|p| self.tcx.generics_of(p));
            }
            for n in all { generics.push(esc(&n)); }
        }
        let kind = format!("{:?}", self.tcx.def_kind(did));
        let pub_ = !self.tcx.is_closure_like(did) && matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && self.tcx.visibility(did).is_public();
        format!("{{\"path\":{},\"kind\":{},\"pub\":{},\"promoted\":{},\"generics\":{},\"argc\":{},\"span\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}}}",
            esc(&self.path(did)), esc(&kind), pub_, promoted.map(|p| p.to_string()).unwrap_or("null".into()), arr(generics), body.arg_count, self.span(body.span), arr(locals), arr(dbg), arr(blocks))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("MIRX_OUT") else { return rustc_driver::Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        if name.starts_with("build_script") { return rustc_driver::Compilation::Continue }
        let root = if is_bin { format!("main_{}", name) } else { name.clone() };
        let mut cx = Cx { tcx, root, adts: BTreeMap::new() };
        let mut bodies = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| d.local_def_index.as_u32());
        let mut consts = vec![];
        for ld in keys {
            let d = ld.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    bodies.push(cx.body(d, b, env, None));
                    for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, pb, env, Some(i.as_usize())));
                    }
                }
                DefKind::AssocConst { .. } | DefKind::Const { .. } => {
                    let pb = tcx.promoted_mir(d);
                    for (i, pb) in pb.iter_enumerated() {
                        bodies.push(cx.body(d, pb, env, Some(i.as_usize())));
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let v = match tcx.const_eval_poly(d) { Ok(v) => cx.cval(v, t, 0), Err(_) => "null".into() };
                    consts.push(format!("{{\"path\":{},\"value\":{},\"span\":{}}}", esc(&cx.path(d)), v, cx.span(tcx.def_span(d))));
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let tr = match tcx.impl_opt_trait_ref(d) { Some(t) => esc(&cx.path(t.skip_binder().def_id)), None => "null".into() };
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&cx.path(it.def_id)), esc(&format!("{:?}", tcx.def_kind(it.def_id)))));
                }
                impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":{}}}", tr, st, arr(items)));
            }
            if let DefKind::Trait = tcx.def_kind(d) {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&cx.path(it.def_id)), it.defaultness(tcx).has_value()));
                }
                impls.push(format!("{{\"traitdef\":{},\"items\":{}}}", esc(&cx.path(d)), arr(items)));
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let _ = cx.ty(t);
            }
        }
        let adts = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let js = format!("{{\"crate\":{},\"bin\":{},\"bodies\":[\n{}\n],\"consts\":{},\"impls\":{},\"adts\":{{{}}}}}\n", esc(&cx.root), is_bin, bodies.join(",\n"), arr(consts), arr(impls), adts);
        let p = std::path::Path::new(&out).join(format!("{}.json", cx.root));
        std::fs::write(p, js).expect("write mir json");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    if std::env::var("MIRX_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
