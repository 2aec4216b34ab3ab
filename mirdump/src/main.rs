// Compiles a crate exactly as cargo asks for it and, for the workspace crate, writes its MIR
// (drop-elaborated, with every call resolved) as JSON.  Bodies of the small generic functions of
// `core` that the crate calls (Option/Result/ControlFlow/Ordering combinators) are written as well,
// monomorphised, so that they are executed rather than assumed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, String>,
    type_todo: Vec<Ty<'tcx>>,
    seen: HashMap<Instance<'tcx>, String>,
    todo: VecDeque<(Instance<'tcx>, String)>,
    env: TypingEnv<'tcx>,
}

// functions outside the crate whose bodies are dumped and executed
fn inline_std(path: &str) -> bool {
    const P: &[&str] = &[
        "std::option::", "core::option::", "<std::option::", "<core::option::",
        "std::result::", "core::result::", "<std::result::", "<core::result::",
        "std::ops::ControlFlow", "std::ops::control_flow", "<std::ops::ControlFlow", "<std::ops::control_flow",
        "std::cmp::Ordering", "core::cmp::", "std::cmp::PartialOrd::", "std::cmp::Ord::",
        "<T as std::convert::Into<U>>", "<T as std::convert::From<T>>", "<T as std::convert::TryInto<U>>", "<T as std::convert::TryFrom<U>>",
        "std::convert::Into", "core::bool::", "std::bool::", "<bool", "bool::",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> D<'tcx> {
    fn ty_s(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn path_vis(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = self.ty_s(t);
        if !self.types.contains_key(&s) {
            self.types.insert(s.clone(), String::new());
            let j = self.ty_json(t);
            self.types.insert(s.clone(), j);
        }
        s
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Uint(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Ref(_, i, m) => {
                let i = self.ty(*i);
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), js(&i))
            }
            ty::RawPtr(i, m) => {
                let i = self.ty(*i);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{}}}", m.is_mut(), js(&i))
            }
            ty::Slice(i) => {
                let i = self.ty(*i);
                format!("{{\"k\":\"slice\",\"t\":{}}}", js(&i))
            }
            ty::Array(i, n) => {
                let i = self.ty(*i);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", js(&i), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| js(&self.ty(t))).collect();
                format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(*did, args);
                format!("{{\"k\":\"fndef\",{}}}", c)
            }
            ty::Closure(did, args) => {
                let inst = Instance::new_raw(*did, args);
                let id = self.enqueue(inst);
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| js(&self.ty(t))).collect();
                format!("{{\"k\":\"closure\",\"id\":{},\"up\":[{}]}}", js(&id), up.join(","))
            }
            ty::Adt(def, args) => {
                let p = self.path_vis(def.did());
                let a: Vec<String> = args.types().map(|t| js(&self.ty(t))).collect();
                let local = def.did().is_local();
                let open = !def.is_union()
                    && (def.is_enum()
                        || local
                        || (def.is_struct() && def.all_fields().count() > 0 && def.all_fields().all(|f| f.vis.is_public())));
                let mut vs = vec![];
                if open {
                    for (i, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", js(f.name.as_str()), js(&ft)));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, i).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(v.name.as_str()), d, fs.join(",")));
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"path\":{},\"args\":[{}],\"local\":{},\"enum\":{},\"open\":{},\"vs\":[{}]}}",
                    js(&p), a.join(","), local, def.is_enum(), open, vs.join(",")
                )
            }
            _ => "{\"k\":\"opaque\"}".into(),
        }
    }
    fn inst_id(&self, inst: Instance<'tcx>) -> String {
        let p = self.path(inst.def_id());
        let a: Vec<String> = inst.args.iter().filter(|a| a.as_region().is_none()).map(|a| rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", self.tcx.erase_and_anonymize_regions(a)))).collect();
        if a.is_empty() { p } else { format!("{} [{}]", p, a.join(";")) }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let inst = Instance { def: inst.def, args: self.tcx.erase_and_anonymize_regions(inst.args) };
        if let Some(s) = self.seen.get(&inst) {
            return s.clone();
        }
        let id = self.inst_id(inst);
        self.seen.insert(inst, id.clone());
        self.todo.push_back((inst, id.clone()));
        id
    }
    /// json fields describing a callee
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let base = self.path_vis(did);
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let a: Vec<String> = args.types().map(|t| js(&self.ty(t))).collect();
        let mut res = String::new();
        let mut id = String::from("null");
        let mut local = false;
        let mut derived = false;
        let mut shim = "";
        let mut rargs: Vec<String> = vec![];
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
            res = self.path_vis(inst.def_id());
            local = inst.def_id().is_local();
            if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                derived = tcx.is_automatically_derived(im);
            }
            rargs = inst.args.types().map(|t| js(&self.ty(t))).collect();
            match inst.def {
                InstanceKind::Item(d) => {
                    let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
                    if ctor {
                        shim = "ctor";
                    } else if d.is_local() || (inline_std(&res) && tcx.is_mir_available(d)) || (inline_std(&self.path(d)) && tcx.is_mir_available(d)) {
                        id = js(&self.enqueue(inst));
                    }
                }
                InstanceKind::Intrinsic(..) => shim = "intrinsic",
                InstanceKind::Virtual(..) => shim = "virtual",
                InstanceKind::Shim(..) => shim = "shim",
                _ => shim = "other",
            }
        }
        format!(
            "\"base\":{},\"args\":[{}],\"res\":{},\"rargs\":[{}],\"id\":{},\"local\":{},\"derived\":{},\"shim\":{}",
            js(&base), a.join(","), js(&res), rargs.join(","), id, local, derived, js(shim)
        )
    }
    fn loc(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return "".into();
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => "?".into(),
        };
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.norm(t);
                    format!("[\"f\",{},{}]", i.as_usize(), js(&self.ty(t)))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ts = self.ty(t);
        let mut named = String::new();
        if let Const::Unevaluated(uv, _) = c {
            if uv.promoted.is_none() {
                named = self.path_vis(uv.def);
            }
        }
        let mut f = format!("\"ty\":{},\"named\":{}", js(&ts), js(&named));
        if let ty::FnDef(..) = t.kind() {
            return format!("{{{},\"v\":\"zst\"}}", f);
        }
        match c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(cv) if named.is_empty() && self.destructurable(t) => match self.destructure(cv, t) {
                Some(x) => f.push_str(&x),
                None => self.cval(&mut f, cv, t),
            },
            Ok(cv) => self.cval(&mut f, cv, t),
            Err(_) => f.push_str(",\"v\":\"err\""),
        }
        format!("{{{}}}", f)
    }
    /// (a reference to) a structure, tuple or enum with fields
    fn destructurable(&self, t: Ty<'tcx>) -> bool {
        let t = if let ty::Ref(_, i, _) = t.kind() { *i } else { t };
        if t.has_param() || t.has_aliases() {
            return false;
        }
        match t.kind() {
            ty::Adt(d, _) => !d.is_union() && d.all_fields().count() > 0,
            ty::Tuple(a) => a.len() > 0,
            _ => false,
        }
    }
    fn destructure(&mut self, cv: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let (cv, t) = if let ty::Ref(_, i, _) = t.kind() {
            match cv {
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (aid, off) = p.prov_and_relative_offset();
                    (ConstValue::Indirect { alloc_id: aid.alloc_id(), offset: off }, *i)
                }
                _ => return None,
            }
        } else {
            (cv, t)
        };
        let d = self.tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
        let mut v = vec![];
        for (c, ft) in d.fields {
            let ts = self.ty(*ft);
            let mut f = format!("\"ty\":{},\"named\":\"\"", js(&ts));
            let x = if self.destructurable(*ft) { self.destructure(*c, *ft) } else { None };
            match x {
                Some(x) => f.push_str(&x),
                None => self.cval(&mut f, *c, *ft),
            }
            v.push(format!("{{{}}}", f));
        }
        Some(format!(",\"v\":\"adt\",\"variant\":{},\"fields\":[{}]", d.variant.map(|v| v.as_usize()).unwrap_or(0), v.join(",")))
    }
    fn cval(&mut self, f: &mut String, cv: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        {
            {
                let refd = match t.kind() {
                    ty::Ref(_, i, _) => Some(*i),
                    _ => None,
                };
                match cv {
                    ConstValue::ZeroSized => f.push_str(",\"v\":\"zst\""),
                    ConstValue::Scalar(s) => match s {
                        mir::interpret::Scalar::Int(i) => {
                            let bits = i.to_bits(i.size());
                            let v: String = if let ty::Int(_) = t.kind() { i.to_int(i.size()).to_string() } else { bits.to_string() };
                            let _ = write!(f, ",\"v\":\"int\",\"int\":{}", v);
                        }
                        mir::interpret::Scalar::Ptr(p, _) => {
                            let (aid, off) = p.prov_and_relative_offset();
                            if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(aid.alloc_id()) {
                                let a = a.inner();
                                let ok = refd.map(|r| matches!(r.kind(), ty::Array(e, _) if *e == tcx.types.u8)).unwrap_or(false);
                                if ok {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                                    let _ = write!(f, ",\"v\":\"bytes\",\"bytes\":{:?}", b);
                                } else {
                                    let h = self.read_ref(refd, aid.alloc_id(), off.bytes());
                                    let _ = write!(f, ",\"v\":\"{}", h);
                                }
                            } else {
                                f.push_str(",\"v\":\"ptr\"");
                            }
                        }
                    },
                    ConstValue::Slice { .. } => {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            if refd.map(|r| r.is_str()).unwrap_or(false) {
                                let _ = write!(f, ",\"v\":\"str\",\"str\":{}", js(&String::from_utf8_lossy(b)));
                            } else {
                                let _ = write!(f, ",\"v\":\"bytes\",\"bytes\":{:?}", b);
                            }
                        }
                    }
                    ConstValue::Indirect { .. } => {
                        if refd.map(|r| r.is_str()).unwrap_or(false) {
                            if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                                let _ = write!(f, ",\"v\":\"str\",\"str\":{}", js(&String::from_utf8_lossy(b)));
                            }
                        } else {
                            f.push_str(",\"v\":\"indirect\"");
                        }
                    }
                }
            }
        }
    }
    /// the value behind a promoted `&T` for the simple T that occur: &&str, &integer
    fn read_ref(&mut self, refd: Option<Ty<'tcx>>, aid: mir::interpret::AllocId, off: u64) -> String {
        let tcx = self.tcx;
        let Some(t) = refd else { return "ptr\"".into() };
        if let ty::Ref(_, i, _) = t.kind() {
            if i.is_str() {
                let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) };
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("str\",\"str\":{}", js(&String::from_utf8_lossy(b)));
                }
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_enum() {
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                let sz = l.size;
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(aid) {
                    if let Ok(s) = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(rustc_abi::Size::from_bytes(off), sz), false) {
                        if let Ok(i) = s.try_to_scalar_int() {
                            return format!("int\",\"int\":{}", i.to_bits(sz));
                        }
                    }
                }
            }
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_struct() && d.all_fields().count() == 0 {
                return "zst\"".into();
            }
        }
        "ptr\"".into()
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.konst(&c.const_)),
            _ => "{\"o\":\"rtcheck\"}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Rvalue::Repeat(o, _) => format!("{{\"r\":\"repeat\",\"a\":{}}}", self.op(o)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"ref\",\"raw\":true,\"mut\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ts = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}", js(&format!("{:?}", k)), self.op(o), js(&ts))
            }
            Rvalue::BinaryOp(b, ab) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(&ab.0), self.op(&ab.1)),
            Rvalue::UnaryOp(u, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.op(a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "\"k\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(_, v, ..) => format!("\"k\":\"adt\",\"v\":{}", v.as_usize()),
                    AggregateKind::Closure(..) => "\"k\":\"closure\"".to_string(),
                    _ => "\"k\":\"?\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"a\":[{}]}}", kk, v.join(","))
            }
            _ => "{\"r\":\"?\"}".into(),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>, id: &str) -> Option<String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !tcx.is_mir_available(did) {
            return None;
        }
        let b = tcx.optimized_mir(did);
        let generic = inst.args.iter().any(|a| a.as_type().is_some());
        let b: mir::Body<'tcx> = if generic {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b,
                Err(_) => b.clone(),
            }
        } else {
            tcx.erase_and_anonymize_regions(b.clone())
        };
        let mut derived = false;
        let mut tr = String::new();
        let mut self_ty = String::new();
        let owner = tcx.typeck_root_def_id(did);
        if let Some(im) = tcx.impl_of_assoc(owner) {
            derived = tcx.is_automatically_derived(im);
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let t = t.instantiate_identity().skip_norm_wip();
                tr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
            }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            self_ty = self.ty_s(st);
        }
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let t = self.norm(l.ty);
            locals.push(js(&self.ty(t)));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let ps = self.place(p);
                dbg.push(format!("[{},{}]", js(v.name.as_str()), ps));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"at\":{}}}", p, r, js(&self.loc(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("{{\"s\":\"sd\",\"p\":{},\"v\":{}}}", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = js(&self.loc(t.source_info.span));
            let mac = t.source_info.span.from_expansion();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("{{\"t\":\"switch\",\"d\":{},\"v\":[{}],\"else\":{},\"at\":{}}}", o, v.join(","), targets.otherwise().as_usize(), at)
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.norm(pt);
                    let pt = js(&self.ty(pt));
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"at\":{}}}", p, pt, target.as_usize(), at)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|o| self.op(&o.node)).collect();
                    let d = self.place(destination);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"to\":{},\"at\":{},\"mac\":{}}}",
                        f, a.join(","), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), at, mac
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(cond);
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"to\":{},\"at\":{}}}", o, expected, js(&format!("{:?}", msg)), target.as_usize(), at)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                k => format!("{{\"t\":\"?\",\"k\":{}}}", js(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), tj));
        }
        let test = self.path(did).contains("::tests::");
        Some(format!(
            "{}:{{\"path\":{},\"local\":{},\"derived\":{},\"trait\":{},\"self\":{},\"test\":{},\"at\":{},\"argc\":{},\"locals\":[{}],\"dbg\":[{}],\"blocks\":[\n{}]}}",
            js(id), js(&self.path_vis(did)), did.is_local(), derived, js(&tr), js(&self_ty), test,
            js(&self.loc(tcx.def_span(did))), b.arg_count, locals.join(","), dbg.join(","), blocks.join(",\n")
        ))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D {
            tcx,
            types: BTreeMap::new(),
            type_todo: vec![],
            seen: HashMap::new(),
            todo: VecDeque::new(),
            env: TypingEnv::fully_monomorphized(),
        };
        let _ = &d.type_todo;
        for owner in tcx.hir_body_owners() {
            let did = owner.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let inst = Instance::new_raw(did, ty::GenericArgs::identity_for_item(tcx, did));
            let args = tcx.erase_and_anonymize_regions(inst.args);
            d.enqueue(Instance::new_raw(did, args));
        }
        let mut fns = vec![];
        while let Some((inst, id)) = d.todo.pop_front() {
            if let Some(b) = d.body(inst, &id) {
                fns.push(b);
            }
        }
        let types: Vec<String> = d.types.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        if let Ok(dir) = std::env::var("VX_OUT") {
            let f = format!("{}/{}.{}.json", dir, name, if is_bin { "bin" } else { "lib" });
            let mut f = std::fs::File::create(f).unwrap();
            write!(f, "{{\"crate\":{},\"fns\":{{\n{}\n}},\"types\":{{\n{}\n}}}}\n", js(&name), fns.join(",\n"), types.join(",\n")).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("VX_OUT").is_err() || args.iter().any(|a| a == "-vV" || a == "--print=cfg" || a.starts_with("--print")) {
        rustc_driver::compiler_entrypoint(&args, &mut rustc_driver::TimePassesCallbacks::default());
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
