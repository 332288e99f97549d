// mirdump: a rustc driver that compiles a crate exactly as cargo asks for it and, for the crates
// named in MIRDUMP_CRATES, writes the type-checked program as JSON: every local function's MIR with
// resolved callees, the MIR of everything reachable from it that rustc can provide, the types, the
// constant memory, and the crate's items. It never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind,
    TypeVisitableExt, TypingEnv, Unnormalized,
};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    root_env: TypingEnv<'tcx>,
    env_id: usize, // 0 = monomorphic
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<(Ty<'tcx>, TypingEnv<'tcx>)>,
    type_json: Vec<String>,
    fns: HashMap<(Instance<'tcx>, usize), usize>,
    fn_list: Vec<(Option<Instance<'tcx>>, TypingEnv<'tcx>, usize)>,
    fn_json: Vec<String>,
    unresolved: HashMap<String, usize>,
    bodies: Vec<Option<String>>,
    work: VecDeque<usize>,
    allocs: HashMap<u64, usize>,
    alloc_json: Vec<String>,
    statics: HashMap<DefId, String>,
    stop: Vec<String>,
    depth: HashMap<usize, usize>,
    max_depth: usize,
    cur_depth: usize,
    touched: HashSet<(DefId, Ty<'tcx>)>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self
            .tcx
            .def_path_str(d))))
    }

    fn span(&self, s: Span) -> String {
        let one = |s: Span| {
            let sm = self.tcx.sess.source_map();
            if s.is_dummy() {
                return "?".to_string();
            }
            let l = sm.lookup_char_pos(s.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let a = one(s);
        let b = one(s.source_callsite());
        if a == b { js(&a) } else { js(&format!("{b}|{a}")) }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push((t, self.root_env));
        self.type_json.push(String::new());
        let env = self.root_env;
        let j = self.ty_json(t, env);
        self.type_json[i] = j;
        i
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }

    fn args_json(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(js(&c.to_string()));
            }
        }
        arr(v)
    }

    fn norm(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn ty_json(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"s\":{}", js(&self.tystr(t)));
        if !t.has_escaping_bound_vars() {
            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                let _ = write!(
                    o,
                    ",\"size\":{},\"align\":{},\"sized\":{}",
                    l.size.bytes(),
                    l.align.abi.bytes(),
                    l.is_sized()
                );
                if let rustc_abi::FieldsShape::Arbitrary { ref offsets, .. } = l.fields {
                    let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                    let _ = write!(o, ",\"off\":{}", arr(v));
                }
                match &l.variants {
                    rustc_abi::Variants::Empty => {}
                    rustc_abi::Variants::Single { index } => {
                        let _ = write!(o, ",\"single\":{}", index.as_usize());
                    }
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let sz = tag.size(&tcx).bytes();
                        let at = l.fields.offset(tag_field.as_usize()).bytes();
                        let enc = match tag_encoding {
                            rustc_abi::TagEncoding::Direct => "null".to_string(),
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                format!(
                                    "[{},{},{},\"{}\"]",
                                    untagged_variant.as_usize(),
                                    niche_variants.start.as_usize(),
                                    niche_variants.last.as_usize(),
                                    niche_start
                                )
                            }
                        };
                        let vo: Vec<String> = variants
                            .iter()
                            .map(|v| arr(v.field_offsets.iter().map(|x| x.bytes().to_string())))
                            .collect();
                        let _ = write!(o, ",\"tag\":[{at},{sz},{enc}],\"voff\":{}", arr(vo));
                    }
                }
            }
        }
        match t.kind() {
            TyKind::Bool => o.push_str(",\"k\":\"bool\""),
            TyKind::Char => o.push_str(",\"k\":\"char\""),
            TyKind::Int(_) => o.push_str(",\"k\":\"int\""),
            TyKind::Uint(_) => o.push_str(",\"k\":\"uint\""),
            TyKind::Float(_) => o.push_str(",\"k\":\"float\""),
            TyKind::Str => o.push_str(",\"k\":\"str\""),
            TyKind::Never => o.push_str(",\"k\":\"never\""),
            TyKind::Slice(e) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{e}");
            }
            TyKind::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx);
                let _ = write!(
                    o,
                    ",\"k\":\"array\",\"e\":{e},\"n\":{}",
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                );
            }
            TyKind::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{e},\"m\":{}", m.is_mut());
            }
            TyKind::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{e},\"m\":{}", m.is_mut());
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"e\":{}", arr(v));
            }
            TyKind::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.fnref(*d, args);
                let _ = write!(o, ",\"k\":\"fndef\",\"fn\":{f}");
            }
            TyKind::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| {
                        let t = self.norm(env, t);
                        self.ty(t).to_string()
                    })
                    .collect();
                let inst = Instance::new_raw(*d, args);
                let f = self.fn_instance(inst);
                let kind = format!("{:?}", args.as_closure().kind());
                let _ = write!(
                    o,
                    ",\"k\":\"closure\",\"up\":{},\"fn\":{f},\"ck\":{},\"name\":{}",
                    arr(ups),
                    js(&kind),
                    js(&self.path(*d))
                );
            }
            TyKind::Adt(def, args) => {
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"name\":{},\"args\":{},\"enum\":{},\"union\":{},\"local\":{}",
                    js(&self.path(def.did())),
                    self.args_json(args),
                    def.is_enum(),
                    def.is_union(),
                    def.did().is_local()
                );
                let mut vs = vec![];
                let discr: Vec<u128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_normalization();
                        let ft = if ft.has_escaping_bound_vars() { ft } else { self.norm(env, ft) };
                        let ft = self.ty(ft);
                        let vis = f.vis.is_public();
                        fs.push(format!("[{},{},{}]", js(f.name.as_str()), ft, vis));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}",
                        js(v.name.as_str()),
                        discr.get(vi.as_usize()).copied().unwrap_or(0),
                        arr(fs)
                    ));
                }
                let _ = write!(o, ",\"v\":{}", arr(vs));
            }
            TyKind::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"n\":{}", js(p.name.as_str()));
            }
            TyKind::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            TyKind::Alias(..) => o.push_str(",\"k\":\"alias\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        o
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> usize {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            if tcx.opt_item_name(d).map(|n| n.as_str() == "write_fmt").unwrap_or(false) {
                if let Some(s) = args.types().next() {
                    if !matches!(s.kind(), TyKind::Param(_) | TyKind::Dynamic(..)) {
                        self.touch(tr, s);
                    }
                }
            }
        }
        let res = if args.has_escaping_bound_vars() {
            None
        } else {
            Instance::try_resolve(tcx, self.root_env, d, args).ok().flatten()
        };
        match res {
            Some(inst) => self.fn_instance(inst),
            None => {
                let pretty = self.path(d);
                let a: Vec<String> = args.iter().map(|x| format!("{x:?}")).collect();
                let key = format!("{pretty}|{}|{}", a.join(","), self.env_id);
                if let Some(&i) = self.unresolved.get(&key) {
                    return i;
                }
                let i = self.fn_list.len();
                self.unresolved.insert(key, i);
                self.fn_list.push((None, self.root_env, self.env_id));
                self.fn_json.push(String::new());
                self.bodies.push(None);
                let aj = self.args_json(args);
                let tr = tcx.trait_of_assoc(d).map(|t| self.path(t));
                let mut default = "null".to_string();
                if tr.is_some() && tcx.def_kind(d) == DefKind::AssocFn && tcx.defaultness(d).has_value() {
                    let inst = Instance::new_raw(d, args);
                    default = self.fn_instance(inst).to_string();
                }
                self.fn_json[i] = format!(
                    "{{\"kind\":\"unresolved\",\"default\":{default},\"path\":{},\"name\":{},\"args\":{},\"trait\":{},\"crate\":{}}}",
                    js(&pretty),
                    js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
                    aj,
                    tr.map(|t| js(&t)).unwrap_or("null".into()),
                    js(tcx.crate_name(d.krate).as_str())
                );
                i
            }
        }
    }

    fn fn_instance(&mut self, inst: Instance<'tcx>) -> usize {
        let tcx = self.tcx;
        let inst = tcx.erase_and_anonymize_regions(inst);
        let env_id = if inst.has_param() { self.env_id } else { 0 };
        if let Some(&i) = self.fns.get(&(inst, env_id)) {
            return i;
        }
        let i = self.fn_list.len();
        self.fns.insert((inst, env_id), i);
        self.fn_list.push((Some(inst), self.root_env, self.env_id));
        self.fn_json.push(String::new());
        self.bodies.push(None);
        self.depth.insert(i, self.cur_depth + 1);
        let d = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(ref s) => {
                let n = format!("{s:?}");
                format!("shim:{}", n.split(['(', '{', ' ']).next().unwrap_or(""))
            }
        };
        let path = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let aj = self.args_json(inst.args);
        let mut extra = String::new();
        let assoc_parent = tcx.impl_of_assoc(d);
        if let Some(im) = assoc_parent {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let _ = write!(extra, ",\"self\":{}", js(&self.tystr(st)));
            if tcx.trait_impl_of_assoc(d).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_normalization();
                let _ = write!(
                    extra,
                    ",\"trait\":{},\"traitref\":{}",
                    js(&self.path(tr.def_id)),
                    js(&with_no_trimmed_paths!(tr.to_string()))
                );
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{},\"intrait\":true", js(&self.path(t)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(_, CtorKind::Fn)) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization();
            let sig = sig.skip_binder();
            let ins: Vec<String> =
                sig.inputs().iter().map(|t| js(&self.tystr(*t))).collect();
            let _ = write!(
                extra,
                ",\"unsafe\":{},\"ins\":{},\"out\":{}",
                sig.safety().is_unsafe(),
                arr(ins),
                js(&self.tystr(sig.output()))
            );
            let tf: Vec<String> = tcx
                .codegen_fn_attrs(d)
                .target_features
                .iter()
                .map(|f| js(f.name.as_str()))
                .collect();
            let _ = write!(extra, ",\"tf\":{}", arr(tf));
        }
        let avail = match inst.def {
            InstanceKind::Item(d) => {
                tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..))
                    || (matches!(tcx.def_kind(d), DefKind::Ctor(_, CtorKind::Fn)))
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if let InstanceKind::Shim(ShimKind::DropGlue(_, t)) = inst.def {
            let _ = write!(extra, ",\"dropnoop\":{}", t.is_none());
            if let Some(t) = t {
                let t = self.ty(t);
                let _ = write!(extra, ",\"dropty\":{t}");
            }
        }
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if is_ctor {
            let v = tcx.parent(d);
            let _ = write!(extra, ",\"ctor\":{}", js(&self.path(v)));
        }
        let stopped = !d.is_local() && self.stop.iter().any(|p| path.starts_with(p.as_str()));
        let deep = self.cur_depth + 1 > self.max_depth && !d.is_local();
        let dump = avail && !stopped && !deep && !is_ctor;
        self.fn_json[i] = format!(
            "{{\"kind\":{},\"path\":{},\"name\":{},\"args\":{},\"crate\":{},\"local\":{},\"avail\":{},\"span\":{}{}}}",
            js(&kind),
            js(&path),
            js(&name),
            aj,
            js(tcx.crate_name(d.krate).as_str()),
            d.is_local(),
            avail,
            self.span(tcx.def_span(d)),
            extra
        );
        if dump {
            self.work.push_back(i);
        }
        i
    }

    fn alloc(&mut self, id: interpret::AllocId) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let f = self.fn_instance(instance);
                format!("[\"fn\",{f}]")
            }
            GlobalAlloc::VTable(..) => "[\"vt\"]".into(),
            GlobalAlloc::TypeId { .. } => "[\"tid\"]".into(),
            GlobalAlloc::Static(d) => {
                self.static_(d);
                format!("[\"st\",{}]", js(&self.path(d)))
            }
            GlobalAlloc::Memory(a) => {
                let key = id.0.get();
                if let Some(i) = self.allocs.get(&key) {
                    return format!("[\"a\",{i}]");
                }
                let i = self.alloc_json.len();
                self.allocs.insert(key, i);
                self.alloc_json.push(String::new());
                let j = self.memory(a);
                self.alloc_json[i] = j;
                format!("[\"a\",{i}]")
            }
        }
    }

    fn memory(&mut self, a: interpret::ConstAllocation<'tcx>) -> String {
        let a = a.inner();
        let n = a.size().bytes() as usize;
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let mut hex = String::with_capacity(n * 2);
        for b in bytes {
            let _ = write!(hex, "{b:02x}");
        }
        let mut rel = vec![];
        for (off, prov) in a.provenance().ptrs().iter() {
            let target = self.alloc(prov.alloc_id());
            rel.push(format!("[{},{}]", off.bytes(), target));
        }
        format!(
            "{{\"b\":\"{hex}\",\"r\":{},\"m\":{},\"align\":{}}}",
            arr(rel),
            a.mutability.is_mut(),
            a.align.bytes()
        )
    }

    fn static_(&mut self, d: DefId) {
        if self.statics.contains_key(&d) {
            return;
        }
        self.statics.insert(d, String::new());
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_normalization();
        let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
        let ti = self.ty(t);
        let init = if d.is_local() {
            match tcx.eval_static_initializer(d) {
                Ok(a) => self.memory(a),
                Err(_) => "null".into(),
            }
        } else {
            "null".into()
        };
        let j = format!(
            "{{\"path\":{},\"ty\":{ti},\"mut\":{},\"freeze\":{freeze},\"local\":{},\"init\":{init},\"span\":{}}}",
            js(&self.path(d)),
            tcx.is_mutable_static(d),
            d.is_local(),
            self.span(tcx.def_span(d))
        );
        self.statics.insert(d, j);
    }

    fn scalar(&mut self, s: Scalar) -> String {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                format!("[\"i\",\"{}\",{}]", bits, i.size().bytes())
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.alloc(prov.alloc_id());
                format!("[\"ptr\",{a},{}]", off.bytes())
            }
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: Span) -> String {
        let t = c.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            let ti = self.ty(t);
            let f = self.fnref(*d, args.skip_binder());
            return format!("{{\"t\":{ti},\"v\":[\"fn\",{f}]}}");
        }
        let ti = self.ty(t);
        let named = match c {
            Const::Unevaluated(u, _) => match u.promoted {
                None => Some(self.path(u.def)),
                Some(_) => None,
            },
            _ => None,
        };
        let v = match c.eval(self.tcx, env, span) {
            Ok(ConstValue::Scalar(s)) => self.scalar(s),
            Ok(ConstValue::ZeroSized) => "[\"zst\"]".into(),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                let a = self.alloc(alloc_id);
                format!("[\"slice\",{a},{meta}]")
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                let a = self.alloc(alloc_id);
                format!("[\"ind\",{a},{}]", offset.bytes())
            }
            Err(_) => format!("[\"gen\",{}]", js(&format!("{c:?}"))),
        };
        match named {
            Some(n) => format!("{{\"t\":{ti},\"v\":{v},\"n\":{}}}", js(&n)),
            None => format!("{{\"t\":{ti},\"v\":{v}}}"),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                other => format!("[\"?\",{}]", js(&format!("{other:?}"))),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, span: Span) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, env, span)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, env, sp)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o, env, sp),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", js(&format!("{bk:?}")), self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", js(&format!("{k:?}")), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerCoercion(pc, _) => format!("Coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&k), self.op(o, env, sp), t)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{b:?}")),
                self.op(&ops.0, env, sp),
                self.op(&ops.1, env, sp)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", js(&format!("{u:?}")), self.op(o, env, sp))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, env, sp)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.norm(env, t.skip_normalization());
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            vi.as_usize(),
                            fi.map(|f| f.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), m.is_mut())
                    }
                    o => format!("[\"?\",{}]", js(&format!("{o:?}"))),
                };
                format!("[\"agg\",{k},{}]", arr(os))
            }
            other => format!("[\"?\",{}]", js(&format!("{other:?}"))),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }

    /// the methods of an implementation that is reached without a direct call
    fn touch(&mut self, tr: DefId, s: Ty<'tcx>) {
        let tcx = self.tcx;
        if tcx.generics_of(tr).own_params.len() != 1 || !self.touched.insert((tr, s)) {
            return;
        }
        let ms: Vec<DefId> = tcx
            .associated_items(tr)
            .in_definition_order()
            .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
            .map(|a| a.def_id)
            .collect();
        for m in ms {
            let g = tcx.generics_of(m);
            if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, m, |p, _| {
                if p.index == 0 { s.into() } else { tcx.lifetimes.re_erased.into() }
            });
            self.fnref(m, args);
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def).clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => raw,
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        // methods a value can be asked for once it is a trait object
        for bb in body.basic_blocks.iter() {
            for st in &bb.statements {
                let StatementKind::Assign(a) = &st.kind else { continue };
                let Rvalue::Cast(CastKind::PointerCoercion(pc, _), o, t) = &a.1 else { continue };
                if !format!("{pc:?}").starts_with("Unsize") {
                    continue;
                }
                let (Some(s), Some(t)) =
                    (o.ty(&body.local_decls, tcx).builtin_deref(true), t.builtin_deref(true))
                else {
                    continue;
                };
                if let TyKind::Dynamic(preds, _) = t.kind() {
                    if let Some(tr) = preds.principal_def_id() {
                        self.touch(tr, s);
                    }
                }
            }
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                names.push(format!("[{},{}]", js(v.name.as_str()), p));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = s.source_info.span;
                let j = match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env, sp);
                        format!("[\"=\",{p},{r},{}]", self.span(sp))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            format!("[\"assume\",{}]", self.op(o, env, sp))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"cpy\",{},{},{},{}]",
                            self.op(&c.src, env, sp),
                            self.op(&c.dst, env, sp),
                            self.op(&c.count, env, sp),
                            self.span(sp)
                        ),
                    },
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"sx\",{}]", l.as_usize()),
                    _ => continue,
                };
                ss.push(j);
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let sj = self.span(sp);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.op(discr, env, sp),
                        dti,
                        arr(vs),
                        targets.otherwise().as_usize(),
                        sj
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => format!("[\"ret\",{sj}]"),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.norm(env, pt);
                    let d = tcx.require_lang_item(
                        rustc_attr_ir::LangItem::DropGlue,
                        rustc_span::DUMMY_SP,
                    );
                    let args = tcx.mk_args(&[pt.into()]);
                    let glue = Instance::try_resolve(tcx, env, d, args).ok().flatten();
                    let g = match glue {
                        Some(i) => match i.def {
                            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => "null".to_string(),
                            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) if t.has_param() => {
                                "\"param\"".to_string()
                            }
                            _ => self.fn_instance(i).to_string(),
                        },
                        None => "\"param\"".into(),
                    };
                    let ti = self.ty(pt);
                    format!(
                        "[\"drop\",{},{},{},{},{},{}]",
                        self.place(place),
                        target.as_usize(),
                        self.unwind(unwind),
                        g,
                        ti,
                        sj
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, env, sp);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env, sp)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        self.unwind(unwind),
                        sj
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = format!("{msg:?}");
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond, env, sp),
                        expected,
                        js(&m),
                        target.as_usize(),
                        self.unwind(unwind),
                        sj
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{sj}]"),
                o => format!("[\"?\",{}]", js(&format!("{o:?}"))),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"c\":{}}}",
                arr(ss),
                tj,
                bb.is_cleanup
            ));
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}}}",
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(names),
            arr(blocks),
            self.span(body.span)
        )
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let max_depth =
        std::env::var("MIRDUMP_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(10usize);
    let mut cx = Cx {
        tcx,
        root_env: TypingEnv::fully_monomorphized(),
        env_id: 0,
        types: HashMap::new(),
        type_list: vec![],
        type_json: vec![],
        fns: HashMap::new(),
        fn_list: vec![],
        fn_json: vec![],
        unresolved: HashMap::new(),
        bodies: vec![],
        work: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_json: vec![],
        statics: HashMap::new(),
        stop,
        depth: HashMap::new(),
        max_depth,
        touched: HashSet::new(),
            cur_depth: 0,
    };
    let mut roots = vec![];
    let ev = tcx.effective_visibilities(());
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    let mut nenv = 0;
    for ld in keys {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            DefKind::Static { .. } => {
                cx.static_(d);
                continue;
            }
            _ => continue,
        }
        // trait method declarations without a body
        if tcx.trait_of_assoc(d).is_some() && !tcx.is_mir_available(d) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let generic = args.has_param();
        if generic {
            nenv += 1;
            cx.env_id = nenv;
            cx.root_env = TypingEnv::post_analysis(tcx, d);
        } else {
            cx.env_id = 0;
            cx.root_env = TypingEnv::fully_monomorphized();
        }
        cx.cur_depth = 0;
        let i = cx.fn_instance(Instance::new_raw(d, args));
        let public = ev.is_reachable(ld);
        let exported = ev.is_exported(ld);
        roots.push(format!(
            "{{\"fn\":{i},\"public\":{public},\"exported\":{exported},\"generic\":{generic},\"span\":{}}}",
            cx.span(tcx.def_span(d))
        ));
        // drain the work list under this root's environment
        drain(&mut cx);
    }
    cx.root_env = TypingEnv::fully_monomorphized();
    cx.env_id = 0;
    drain(&mut cx);

    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{}", js(tcx.crate_name(LOCAL_CRATE).as_str()));
    let _ = write!(
        o,
        ",\"ptr\":{},\"arch\":{},\"debug_assertions\":{},\"overflow_checks\":{}",
        tcx.data_layout.pointer_size().bytes(),
        js(&tcx.sess.target.arch.to_string()),
        tcx.sess.opts.debug_assertions,
        tcx.sess.overflow_checks()
    );
    let cr: Vec<String> = tcx
        .crates(())
        .iter()
        .map(|c| {
            let direct = tcx
                .extern_crate(*c)
                .map(|e| e.is_direct())
                .unwrap_or(false);
            format!("[{},{}]", js(tcx.crate_name(*c).as_str()), direct)
        })
        .collect();
    let _ = write!(o, ",\"crates\":{}", arr(cr));
    let _ = write!(o, ",\"roots\":{}", arr(roots));
    let st: Vec<String> = cx.statics.values().cloned().collect();
    let _ = write!(o, ",\"statics\":{}", arr(st));
    let _ = write!(o, ",\"types\":[\n{}]", cx.type_json.join(",\n"));
    let fj: Vec<String> = cx
        .fn_json
        .iter()
        .zip(cx.bodies.iter())
        .map(|(f, b)| {
            let mut f = f.clone();
            f.pop();
            format!("{f},\"body\":{}}}", b.as_deref().unwrap_or("null"))
        })
        .collect();
    let _ = write!(o, ",\"fns\":[\n{}]", fj.join(",\n"));
    let _ = write!(o, ",\"allocs\":[\n{}]}}\n", cx.alloc_json.join(",\n"));
    std::fs::write(out, o).expect("write dump");
}

fn drain(cx: &mut Cx<'_>) {
    while let Some(i) = cx.work.pop_front() {
        let (inst, env, eid) = cx.fn_list[i];
        let inst = inst.unwrap();
        let (senv, seid) = (cx.root_env, cx.env_id);
        if inst.has_param() {
            cx.root_env = env;
            cx.env_id = eid;
        } else {
            cx.root_env = TypingEnv::fully_monomorphized();
            cx.env_id = 0;
        }
        cx.cur_depth = if inst.def_id().is_local() { 0 } else { cx.depth.get(&i).copied().unwrap_or(0) };
        let e = cx.root_env;
        let b = cx.body(inst, e);
        cx.bodies[i] = Some(b);
        cx.root_env = senv;
        cx.env_id = seid;
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if want.split(',').any(|w| w == name) {
            if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
                dump(tcx, &format!("{dir}/{name}.json"));
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER calls us as: mirdump /path/to/rustc <args>
    let real = if args.len() > 1 && args[1].contains("rustc") { Some(args.remove(1)) } else { None };
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let wanted = name.as_ref().map(|n| want.split(',').any(|w| w == n.as_str())).unwrap_or(false);
    if let (Some(real), false) = (&real, wanted) {
        // not a crate under analysis: hand over to the compiler itself
        use std::os::unix::process::CommandExt;
        let enc = std::env::var("MIRDUMP_ENCODE").unwrap_or_default();
        let mut extra = vec![];
        if name.map(|n| enc.split(',').any(|w| w == n)).unwrap_or(false) {
            for f in std::env::var("MIRDUMP_FLAGS").unwrap_or_default().split_whitespace() {
                extra.push(f.to_string());
            }
        }
        let e = std::process::Command::new(real).args(&args[1..]).args(&extra).exec();
        eprintln!("mirdump: cannot run {real}: {e}");
        std::process::exit(101);
    }
    for f in std::env::var("MIRDUMP_FLAGS").unwrap_or_default().split_whitespace() {
        args.push(f.to_string());
    }
    let r = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
