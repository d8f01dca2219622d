// MIR dump driver: used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For the crates named in VP_CRATES it writes, after type checking, one JSON document with the
// resolved MIR of every local body and of everything those bodies call (as far as the compiler
// has MIR for it), the type table, evaluated constants, items, impls, linked crates.
#![feature(rustc_private)]
#![allow(rustc::default_hash_types, rustc::potential_query_instability)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::Size;
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::util::IntTypeExt as _;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut o = String::from("[");
    for (n, x) in i.into_iter().enumerate() {
        if n > 0 { o.push(','); }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    work: VecDeque<(Instance<'tcx>, DefId)>,
    seen: HashMap<(Instance<'tcx>, Option<DefId>), String>,
    keys: HashSet<String>,
    stops: Vec<String>,
    env_owner: DefId,
    adt_defs: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn tenv(&self, owner: DefId, has_param: bool) -> TypingEnv<'tcx> {
        if has_param { TypingEnv::post_analysis(self.tcx, owner) } else { TypingEnv::fully_monomorphized() }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn inst_key(&mut self, i: Instance<'tcx>, owner: DefId) -> Option<String> {
        // returns a key if a body will be dumped
        let has_param = i.args.has_param() ;
        let own = if has_param { Some(owner) } else { None };
        if let Some(k) = self.seen.get(&(i, own)) {
            return if k.is_empty() { None } else { Some(k.clone()) };
        }
        let ok = match i.def {
            InstanceKind::Item(d) => {
                let p = self.path(d);
                let local = d.is_local();
                let kind = self.tcx.def_kind(d);
                let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
                fnlike && (local || (!self.stopped(&p) && self.tcx.is_mir_available(d)))
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => !has_param,
            _ => false,
        };
        if !ok {
            self.seen.insert((i, own), String::new());
            return None;
        }
        let mut k = with_no_trimmed_paths!(format!("{}", i));
        if has_param { k.push_str(" @ "); k.push_str(&self.path(owner)); }
        while self.keys.contains(&k) { k.push('\''); }
        self.keys.insert(k.clone());
        self.seen.insert((i, own), k.clone());
        self.work.push_back((i, owner));
        Some(k)
    }

    fn stopped(&self, p: &str) -> bool { self.stops.iter().any(|s| p.starts_with(s.as_str()) || p.starts_with(&format!("<{}", s))) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) { return i; }
        let idx = self.type_json.len();
        self.types.insert(t, idx);
        self.type_json.push(String::new());
        let s = q(&with_no_trimmed_paths!(format!("{}", t)));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Array(e, n) => {
                let ei = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"n\":{}", ei, n)
            }
            ty::Slice(e) => { let ei = self.ty(*e); format!("\"k\":\"slice\",\"elem\":{}", ei) }
            ty::Ref(_, e, m) => { let ei = self.ty(*e); format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", ei, m.is_mut()) }
            ty::RawPtr(e, m) => { let ei = self.ty(*e); format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", ei, m.is_mut()) }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", q(p.name.as_str())),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{}", q(&self.path(*d)), arr(ups))
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", q(&self.path(*d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let has_param = t.has_param();
                let env = self.tenv(self.env_owner, has_param);
                let mut vs = Vec::new();
                let small = !["std::fmt", "std::io", "std::vec", "std::string", "std::boxed", "std::alloc", "alloc::", "std::collections", "std::thread", "std::sync"].iter().any(|x| p.starts_with(x));
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                if small && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = self.tcx.try_normalize_erasing_regions(env, f.ty(self.tcx, args));
                            let fi = match fty { Ok(x) => self.ty(x).to_string(), Err(_) => "null".into() };
                            fs.push(format!("[{},{},{}]", q(f.name.as_str()), fi, f.vis.is_public()));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", q(v.name.as_str()), q(&discr), arr(fs)));
                    }
                }
                let drop = if let Some(d) = self.tcx.adt_destructor(def.did()) {
                    let inst = Instance::new_raw(d.did, *args);
                    let o = self.env_owner;
                    self.inst_key(inst, o).map(|k| q(&k)).unwrap_or(q("?"))
                } else { "null".into() };
                let dk = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let dty = if def.is_enum() { let t = def.repr().discr_type().to_ty(self.tcx); self.ty(t).to_string() } else { "null".into() };
                format!("\"k\":\"adt\",\"adt\":{},\"path\":{},\"local\":{},\"args\":{},\"variants\":{},\"drop\":{},\"dty\":{}", q(dk), q(&p), def.did().is_local(), arr(targs), arr(vs), drop, dty)
            }
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_json[idx] = format!("{{\"s\":{},{}}}", s, body);
        idx
    }

    fn place(&mut self, p: &Place<'tcx>, _b: &Body<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.index()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => "[\"cast\"]".to_string(),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }

    fn alloc_bytes(&self, id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                Some(r.to_vec())
            }
            _ => None,
        }
    }

    // value of a constant as JSON (a value tree)
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let unk = || "{\"opaque\":1}".to_string();
        if depth > 6 { return unk(); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v.try_to_scalar() {
                    Some(s) => s,
                    None => match v {
                        ConstValue::Indirect { alloc_id, offset } => {
                            let n = match t.kind() { ty::Bool => 1, ty::Char => 4, ty::Int(i) => i.bit_width().unwrap_or(64) / 8, ty::Uint(i) => i.bit_width().unwrap_or(64) / 8, ty::Float(f) => f.bit_width() / 8, _ => 0 };
                            match self.alloc_bytes(alloc_id, offset.bytes(), n) {
                                Some(b) => { let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); } return self.scalar_json(x, n as u64, t); }
                                None => return unk(),
                            }
                        }
                        _ => return unk(),
                    },
                };
                match sc {
                    interpret::Scalar::Int(i) => { let sz = i.size(); self.scalar_json(i.to_bits(sz), sz.bytes(), t) }
                    _ => unk(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match inner.kind() {
                ty::Str | ty::Slice(_) => {
                    let (alloc_id, off, meta) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            // fat pointer stored in memory
                            match self.read_ptr(alloc_id, offset.bytes()) {
                                Some((a, o)) => {
                                    let m = self.alloc_bytes(alloc_id, offset.bytes() + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
                                    match m { Some(m) => (a, o, m), None => return unk() }
                                }
                                None => return unk(),
                            }
                        }
                        _ => return unk(),
                    };
                    match inner.kind() {
                        ty::Str => match self.alloc_bytes(alloc_id, off, meta) {
                            Some(b) => format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(&b))),
                            None => unk(),
                        },
                        ty::Slice(e) => {
                            let e = *e;
                            let env = TypingEnv::fully_monomorphized();
                            let lay = match self.tcx.layout_of(env.as_query_input(e)) { Ok(l) => l.size.bytes(), Err(_) => return unk() };
                            let mut out = Vec::new();
                            for i in 0..meta {
                                out.push(self.cval(ConstValue::Indirect { alloc_id, offset: Size::from_bytes(off + i * lay) }, e, depth + 1));
                            }
                            format!("{{\"ref\":{{\"slice\":{}}}}}", arr(out))
                        }
                        _ => unk(),
                    }
                }
                _ => {
                    let (a, o) = match v {
                        ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => { let (prov, off) = p.prov_and_relative_offset(); (prov.alloc_id(), off.bytes()) }
                        ConstValue::Indirect { alloc_id, offset } => match self.read_ptr(alloc_id, offset.bytes()) { Some(x) => x, None => return unk() },
                        _ => return unk(),
                    };
                    match self.tcx.try_get_global_alloc(a) {
                        Some(interpret::GlobalAlloc::Memory(_)) => {
                            let inner = *inner;
                            if inner.has_param() { return unk(); }
                            let x = self.cval(ConstValue::Indirect { alloc_id: a, offset: Size::from_bytes(o) }, inner, depth + 1);
                            format!("{{\"ref\":{}}}", x)
                        }
                        Some(interpret::GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", q(&self.path(d))),
                        _ => unk(),
                    }
                }
            },
            ty::FnDef(..) => "{\"zst\":1}".to_string(),
            ty::Closure(_, a) if a.as_closure().upvar_tys().is_empty() => "{\"zst\":1}".to_string(),
            ty::Adt(def, _) if def.is_union() => unk(),
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Array(_, n) = t.kind() {
                    match n.try_to_target_usize(self.tcx) { Some(n) if n <= 4096 => {}, _ => return unk() }
                }
                if t.has_param() { return unk(); }
                match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        match t.kind() {
                            ty::Array(..) => format!("{{\"arr\":{}}}", arr(fs)),
                            ty::Tuple(..) => format!("{{\"tup\":{}}}", arr(fs)),
                            _ => format!("{{\"adt\":[{},{}]}}", d.variant.map(|x| x.index()).unwrap_or(0), arr(fs)),
                        }
                    }
                    None => unk(),
                }
            }
            _ => unk(),
        }
    }
    fn read_ptr(&self, id: interpret::AllocId, off: u64) -> Option<(interpret::AllocId, u64)> {
        match self.tcx.try_get_global_alloc(id)? {
            interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let prov = a.provenance().ptrs().get(&Size::from_bytes(off))?;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + 8);
                let o = u64::from_le_bytes(b.try_into().ok()?);
                Some((prov.alloc_id(), o))
            }
            _ => None,
        }
    }
    fn scalar_json(&self, x: u128, bytes: u64, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", x != 0),
            ty::Float(_) => {
                if bytes == 4 { format!("{{\"float\":{}}}", q(&format!("{:?}", f32::from_bits(x as u32)))) }
                else if bytes == 8 { format!("{{\"float\":{}}}", q(&format!("{:?}", f64::from_bits(x as u64)))) }
                else { "{\"opaque\":1}".into() }
            }
            ty::Int(_) => {
                let sh = 128 - 8 * bytes as u32;
                format!("{{\"int\":{}}}", ((x << sh) as i128) >> sh)
            }
            _ => format!("{{\"int\":{}}}", x),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            return format!("[\"c\",{},{{\"fn\":{}}}]", ti, self.fnref(*d, args, env, owner));
        }
        let unev = match c.const_ { mir::Const::Unevaluated(u, _) => Some((u.def, u.promoted.is_some())), _ => None };
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => {
                match c.const_ {
                    // a promoted constant that depends on a type parameter: its body, as it stands in this instance
                    mir::Const::Unevaluated(mir::UnevaluatedConst { def, args, promoted: Some(pr), .. }, _)
                        if self.tcx.try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(self.tcx, self.tcx.promoted_mir(def)[pr].clone())).is_ok() => {
                        let b = self.tcx.try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(self.tcx, self.tcx.promoted_mir(def)[pr].clone())).unwrap();
                        format!("{{\"promo\":{{\"id\":{},{}}}}}", q(&format!("{} promoted {}", self.path(def), pr.index())), self.body(&b, env, owner))
                    }
                    mir::Const::Unevaluated(u, _) => { let tr = self.tcx.trait_of_assoc(u.def).is_some(); let st = if tr && !u.args.is_empty() { u.args.types().next().map(|x| self.ty(x).to_string()).unwrap_or("null".into()) } else { "null".into() }; format!("{{\"unev\":{},\"self\":{},\"promoted\":{}}}", q(&self.path(u.def)), st, u.promoted.map(|x| x.index().to_string()).unwrap_or("null".into())) }
                    mir::Const::Ty(_, c) => format!("{{\"param\":{}}}", q(&format!("{}", c))),
                    _ => "{\"opaque\":1}".to_string(),
                }
            }
        };
        let name = match unev { Some((d, false)) => q(&self.path(d)), _ => "null".into() };
        format!("[\"c\",{},{},{}]", ti, v, name)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let path = self.path(d);
        let mut extra = String::new();
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{},\"method\":{}", q(&self.path(tr)), q(self.tcx.item_name(d).as_str()));
        }
        let _ = write!(extra, ",\"krate\":{}", q(self.tcx.crate_name(d.krate).as_str()));
        if self.tcx.intrinsic(d).is_some() { extra.push_str(",\"intrinsic\":true"); }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(_, CtorKind::Fn)) { extra.push_str(",\"ctor\":true"); }
        let mut rpath = String::new();
        let mut key = None;
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, args) {
            match i.def {
                InstanceKind::Item(rd) => { rpath = self.path(rd);
                    let rargs: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
                    let _ = write!(extra, ",\"rargs\":{},\"rkrate\":{}", arr(rargs), q(self.tcx.crate_name(rd.krate).as_str())); }
                InstanceKind::Virtual(..) => extra.push_str(",\"virtual\":true"),
                _ => { let _ = write!(extra, ",\"shim\":{}", q(&with_no_trimmed_paths!(format!("{:?}", i.def)))); }
            }
            key = self.inst_key(i, owner);
        }
        // unsafe?
        let safe = { let sig = self.tcx.fn_sig(d).skip_binder(); sig.safety().is_safe() };
        format!("{{\"path\":{},\"rpath\":{},\"key\":{},\"args\":{},\"safe\":{}{}}}", q(&path), q(&rpath), key.map(|k| q(&k)).unwrap_or("null".into()), arr(targs), safe, extra)
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, b)),
            Operand::Constant(c) => self.constant(c, env, owner),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, b, env, owner)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, b, env, owner), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p, b)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, b)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b, self.tcx);
                let (f, t2) = (self.ty(from), self.ty(*t));
                format!("[\"cast\",{},{},{},{}]", q(&format!("{:?}", k)), self.operand(o, b, env, owner), f, t2)
            }
            Rvalue::BinaryOp(op, bx) => {
                let lt = bx.0.ty(b, self.tcx);
                let lt = self.ty(lt);
                format!("[\"bin\",{},{},{},{}]", q(&format!("{:?}", op)), self.operand(&bx.0, b, env, owner), self.operand(&bx.1, b, env, owner), lt)
            }
            Rvalue::UnaryOp(op, o) => { let t = o.ty(b, self.tcx); let t = self.ty(t); format!("[\"un\",{},{},{}]", q(&format!("{:?}", op)), self.operand(o, b, env, owner), t) }
            Rvalue::Discriminant(p) => { let t = p.ty(b, self.tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{}]", self.place(p, b), t) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, b, env, owner)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let ti = self.ty(t);
                        format!("[\"adt\",{},{},{}]", ti, v.index(), af.map(|x| x.index().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        // a body for the closure itself
                        let inst = Instance::new_raw(*d, args);
                        let k = self.inst_key(inst, owner);
                        format!("[\"closure\",{},{},{}]", ti, q(&self.path(*d)), k.map(|k| q(&k)).unwrap_or("null".into()))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, b)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, b, env, owner)),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.index(), v.name.to_string()); }
            }
        }
        let locals: Vec<String> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            match names.get(&l.index()) { Some(n) => format!("[{},{}]", t, q(n)), None => format!("[{}]", t) }
        }).collect();
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0, b);
                        let r = self.rvalue(&bx.1, b, env, owner);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, q(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        ss.push(format!("[\"setd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => ss.push("[\"copy_nonoverlapping\"]".into()),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b, self.tcx);
                    let dt = self.ty(dt);
                    let o = self.operand(discr, b, env, owner);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", q(&v.to_string()), t.index())).collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(v), targets.otherwise().index(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b, self.tcx).ty;
                    let nd = t.needs_drop(self.tcx, env);
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{},{}]", self.place(place, b), target.index(), nd, ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b, env, owner);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, b, env, owner)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(b, self.tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(b, self.tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), self.place(destination, b), target.map(|x| x.index().to_string()).unwrap_or("null".into()), dt, arr(at))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env, owner);
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, b, env, owner), self.operand(index, b, env, owner)]),
                        AssertKind::Overflow(op, x, y) => (format!("overflow:{:?}", op), vec![self.operand(x, b, env, owner), self.operand(y, b, env, owner)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x, b, env, owner)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(x, b, env, owner)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(x, b, env, owner)]),
                        AssertKind::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertKind::NullPointerDereference => ("null".into(), vec![]),
                        other => (format!("other:{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, q(&k), arr(ops), target.index())
                }
                other => format!("[\"other\",{}]", q(&format!("{:?}", std::mem::discriminant(other)))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", arr(ss), tj, sp, bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{},\"spread\":{}", b.arg_count, arr(locals), arr(blocks), b.spread_arg.map(|x| x.index().to_string()).unwrap_or("null".into()))
    }
}

struct Cb { out: String }
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let stops: Vec<String> = std::env::var("VP_STOPS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let any = tcx.mir_keys(()).iter().next().map(|x| x.to_def_id()).unwrap_or(rustc_hir::def_id::CRATE_DEF_ID.to_def_id());
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], work: VecDeque::new(), seen: HashMap::new(), keys: HashSet::new(), stops, env_owner: any, adt_defs: HashMap::new() };
        let _ = &cx.adt_defs;
        let mut roots = Vec::new();
        let mut consts = Vec::new();
        let mut items = Vec::new();
        let ev = tcx.effective_visibilities(());
        let mut mk: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        mk.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
        for ld in mk {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            cx.env_owner = d;
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
                    let i = Instance::new_raw(d, args);
                    if let Some(k) = cx.inst_key(i, d) { roots.push(q(&k)); }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let gen = tcx.generics_of(d).requires_monomorphization(tcx);
                    if !gen {
                        let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                        let t = tcx.erase_and_anonymize_regions(t);
                        let v = if matches!(kind, DefKind::Static { .. }) { "{\"opaque\":1}".into() } else { match tcx.const_eval_poly(d) { Ok(v) => { let t2 = cx.ty(t); let _ = t2; cx.cval(v, t, 0) } Err(_) => "{\"opaque\":1}".into() } };
                        let ti = cx.ty(t);
                        let st = match kind {
                            DefKind::Static { .. } => format!(",\"static\":true,\"mut\":{},\"freeze\":{},\"tls\":{}", tcx.is_mutable_static(d), t.is_freeze(tcx, cx.tenv(d, false)), tcx.is_thread_local_static(d)),
                            _ => String::new(),
                        };
                        consts.push(format!("{{\"path\":{},\"ty\":{},\"v\":{},\"span\":{}{}}}", q(&cx.path(d)), ti, v, q(&cx.span(tcx.def_span(d))), st));
                    }
                }
                _ => {}
            }
        }
        // items: adts with visibility of fields; impls
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    cx.env_owner = d;
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = cx.ty(t);
                    items.push(format!("{{\"path\":{},\"ty\":{},\"pub\":{},\"reach\":{},\"span\":{}}}", q(&cx.path(d)), ti, tcx.visibility(d).is_public(), ev.is_reachable(id), q(&cx.span(tcx.def_span(d)))));
                }
                DefKind::Impl { of_trait } => {
                    cx.env_owner = d;
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = cx.ty(t);
                    let tr = if of_trait { q(&with_no_trimmed_paths!(format!("{}", tcx.impl_trait_ref(d).instantiate_identity().skip_normalization().print_only_trait_path()))) } else { "null".into() };
                    let ms: Vec<String> = tcx.associated_items(d).in_definition_order().map(|a| format!("[{},{}]", q(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), q(&cx.path(a.def_id)))).collect();
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"items\":{},\"span\":{}}}", ti, tr, arr(ms), q(&cx.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        let mut funs = Vec::new();
        while let Some((i, owner)) = cx.work.pop_front() {
            let has_param = i.args.has_param();
            let own = if has_param { Some(owner) } else { None };
            let key = cx.seen[&(i, own)].clone();
            cx.env_owner = owner;
            let env = cx.tenv(owner, has_param);
            let d = i.def_id();
            let body0: &Body<'tcx> = tcx.instance_mir(i.def);
            let body = match tcx.try_instantiate_and_normalize_erasing_regions(i.args, env, EarlyBinder::bind(tcx, body0.clone())) {
                Ok(b) => b,
                Err(_) => { funs.push(format!("{{\"key\":{},\"error\":\"normalize\"}}", q(&key))); continue; }
            };
            let bj = cx.body(&body, env, owner);
            let kind = tcx.def_kind(d);
            let vis = if matches!(kind, DefKind::Closure) { "closure" } else if tcx.visibility(d).is_public() { "pub" } else { "priv" };
            let reach = d.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or("{closure}".into());
            let (self_ty, of_trait) = match tcx.impl_of_assoc(d) {
                Some(im) => {
                    let t = tcx.type_of(im).instantiate_identity().skip_normalization();
                    let tr = tcx.impl_opt_trait_ref(im).map(|t| with_no_trimmed_paths!(format!("{}", t.instantiate_identity().skip_normalization().print_only_trait_path())));
                    (q(&with_no_trimmed_paths!(format!("{}", t))), tr.map(|s| q(&s)).unwrap_or("null".into()))
                }
                None => ("null".into(), "null".into()),
            };
            let parent = tcx.opt_parent(d).map(|p| cx.path(p)).unwrap_or_default();
            let targs: Vec<String> = i.args.types().map(|x| cx.ty(x).to_string()).collect();
            let constness = if matches!(kind, DefKind::Closure) { false } else { tcx.is_const_fn(d) };
            let unsafe_fn = match kind { DefKind::Fn | DefKind::AssocFn => !tcx.fn_sig(d).skip_binder().safety().is_safe(), _ => false };
            funs.push(format!("{{\"key\":{},\"path\":{},\"name\":{},\"krate\":{},\"local\":{},\"vis\":{},\"reach\":{},\"self\":{},\"trait\":{},\"parent\":{},\"targs\":{},\"generic\":{},\"const\":{},\"unsafe\":{},\"span\":{},{}}}",
                q(&key), q(&cx.path(d)), q(&name), q(tcx.crate_name(d.krate).as_str()), d.is_local(), q(vis), reach, self_ty, of_trait, q(&parent), arr(targs), has_param, constness, unsafe_fn, q(&cx.span(tcx.def_span(d))), bj));
        }
        let crates: Vec<String> = tcx.crates(()).iter().map(|c| q(tcx.crate_name(*c).as_str())).collect();
        let out = format!("{{\"crate\":{},\"crates\":{},\"roots\":{},\n\"consts\":{},\n\"items\":{},\n\"impls\":{},\n\"types\":[{}],\n\"funs\":[\n{}\n]}}\n",
            q(&krate), arr(crates), arr(roots), arr(consts), arr(items), arr(impls), cx.type_json.join(",\n"), funs.join(",\n"));
        std::fs::write(&self.out, out).expect("write dump");
        rustc_driver_impl::Compilation::Continue
    }
}

struct Nop;
impl rustc_driver_impl::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    rustc_driver_impl::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want: Vec<String> = std::env::var("VP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let dir = std::env::var("VP_OUT").unwrap_or_default();
    let probe = args.iter().any(|a| a == "-" || a.starts_with("--print") || a == "-vV");
    if !probe && !dir.is_empty() && want.contains(&name) && !args.iter().any(|a| a == "--test") {
        for x in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Zalways-encode-mir", "-Zinline-mir=no"] { args.push(x.into()); }
        let mut cb = Cb { out: format!("{}/{}.json", dir, name) };
        rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}
