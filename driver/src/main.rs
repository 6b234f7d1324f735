#![feature(rustc_private)]
//! rustc driver that dumps the type-checked, resolved MIR of a crate as JSON lines.
//! Used through RUSTC_WORKSPACE_WRAPPER; the analyses live in /verif/engine (Python).

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            Dump::new(tcx).run(dir);
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<String, usize>,
    type_list: Vec<String>,
    names: HashMap<DefId, String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, types: HashMap::new(), type_list: vec![], names: HashMap::new(), adts: HashMap::new(), adt_queue: vec![] }
    }

    /// unique key of a definition
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    /// readable, position-independent name
    fn name(&mut self, d: DefId) -> String {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let n = self.name_uncached(d);
        self.names.insert(d, n.clone());
        n
    }

    fn name_uncached(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        if d.is_crate_root() {
            return tcx.crate_name(d.krate).to_string();
        }
        let parent = tcx.parent(d);
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = self.ty_path(self_ty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let tn = self.name(tr.def_id);
                    let mut args = vec![];
                    for a in tr.args.iter().skip(1) {
                        if let Some(t) = a.as_type() {
                            args.push(self.ty_path(t));
                        }
                    }
                    if args.is_empty() {
                        format!("<{st} as {tn}>")
                    } else {
                        format!("<{st} as {tn}<{}>>", args.join(", "))
                    }
                } else {
                    st
                }
            }
            _ => {
                let p = self.name(parent);
                let data = tcx.def_path(d);
                let last = data.data.last().map(|x| x.as_sym(true).to_string()).unwrap_or_default();
                format!("{p}::{last}")
            }
        }
    }

    /// like ty_str but without generic arguments on the outermost adt
    fn ty_path(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.name(a.did()),
            ty::Ref(_, inner, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_path(*inner)),
            _ => self.ty_str(t),
        }
    }

    fn ty_str(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                self.note_adt(a.did());
                let n = self.name(a.did());
                let v: Vec<String> = args.types().map(|x| self.ty_str(x)).collect();
                if v.is_empty() { n } else { format!("{n}<{}>", v.join(", ")) }
            }
            ty::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_str(*i)),
            ty::RawPtr(i, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.ty_str(*i)),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty_str(x)).collect();
                format!("({})", v.join(", "))
            }
            ty::Slice(i) => format!("[{}]", self.ty_str(*i)),
            ty::Array(i, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or_else(|| format!("{n}"));
                format!("[{}; {}]", self.ty_str(*i), n)
            }
            ty::FnDef(d, args) => {
                let n = self.name(*d);
                let v: Vec<String> = args.skip_binder().types().map(|x| self.ty_str(x)).collect();
                if v.is_empty() { format!("fn:{n}") } else { format!("fn:{n}<{}>", v.join(", ")) }
            }
            ty::Closure(d, _) => format!("closure:{}", self.id(*d)),
            ty::Param(p) => format!("{}", p.name),
            ty::Dynamic(preds, _) => {
                if let Some(p) = preds.principal_def_id() {
                    format!("dyn {}", self.name(p))
                } else {
                    "dyn".into()
                }
            }
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}")),
        }
    }

    fn note_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.ty_str(t);
        if let Some(i) = self.types.get(&s) {
            return *i;
        }
        let i = self.type_list.len();
        self.types.insert(s.clone(), i);
        self.type_list.push(s);
        i
    }

    /// (line, macro tag)
    fn span(&self, sp: Span) -> (u32, Option<String>) {
        let mut tag: Option<String> = None;
        for e in sp.macro_backtrace() {
            if let ExpnKind::Macro(_, name) = e.kind {
                let s = name.as_str();
                let l = s.rsplit("::").next().unwrap_or(s);
                // outermost macro first
                tag = Some(match tag {
                    None => l.to_string(),
                    Some(t) => format!("{l}>{t}"),
                });
            }
        }
        let s = sp.source_callsite();
        let line = self.tcx.sess.source_map().lookup_char_pos(s.lo()).line as u32;
        (line, tag)
    }

    fn file(&self, sp: Span) -> String {
        let s = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(s.lo()).file;
        format!("{}", f.name.prefer_local_unconditionally())
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, fty) => {
                    let (fname, owner) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            self.note_adt(a.did());
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = a.variant(vi);
                            (v.fields[f].name.to_string(), self.name(a.did()))
                        }
                        ty::Closure(d, _) => (format!("{}", f.as_u32()), format!("closure:{}", self.id(*d))),
                        _ => (format!("{}", f.as_u32()), "".to_string()),
                    };
                    let t = self.ty(fty);
                    let _ = write!(o, "[\"f\",{},{},{},{}]", f.as_u32(), esc(&fname), esc(&owner), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(o, "[\"d\",{},{}]", v.as_u32(), esc(n.map(|x| x.to_string()).unwrap_or_default().as_str()));
                }
                _ => o.push_str("[\"o\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let name = self.name(d);
        let id = self.id(d);
        let targs: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
        let mut res = String::from("null");
        let mut kind = "";
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
                match inst.def {
                    InstanceKind::Item(x) => {
                        res = esc(&self.id(x));
                    }
                    InstanceKind::Virtual(..) => kind = "virtual",
                    InstanceKind::Intrinsic(_) => kind = "intrinsic",
                    InstanceKind::Shim(rustc_middle::ty::ShimKind::ClosureOnce { call_once, .. }) => {
                        let _ = call_once;
                        if let Some(t) = args.types().next() {
                            if let ty::Closure(c, _) = t.kind() {
                                res = esc(&self.id(*c));
                            }
                        }
                    }
                    _ => kind = "shim",
                }
            }
        } else {
            kind = "ctor";
        }
        let ctor = if kind == "ctor" {
            // variant / struct constructor used as a function
            let p = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(p) == DefKind::Variant { (tcx.parent(p), tcx.item_name(p).to_string()) } else { (p, tcx.item_name(p).to_string()) };
            self.note_adt(adt);
            format!(",\"ctor\":[{},{}]", esc(&self.name(adt)), esc(&var))
        } else {
            String::new()
        };
        let rname = String::new();
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => format!(",\"tr\":{}", esc(&self.name(t))),
            None => String::new(),
        };
        format!(
            "{{\"fn\":{},\"id\":{},\"res\":{},\"ta\":[{}]{}{}{}{}}}",
            esc(&name),
            esc(&id),
            res,
            targs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            ctor,
            tr,
            if kind.is_empty() { String::new() } else { format!(",\"rk\":{}", esc(kind)) },
            rname
        )
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"k\":{}}}", self.fnref(env, *d, args.skip_binder()));
        }
        let tyi = self.ty(t);
        let mut named = String::new();
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                return format!("{{\"prom\":[{},{}],\"t\":{}}}", esc(&self.id(owner)), p.as_u32(), tyi);
            }
            named = format!(",\"named\":{},\"nid\":{}", esc(&self.name(uv.def)), esc(&self.id(uv.def)));
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"cp\":{},\"t\":{}}}", esc(p.name.as_str()), tyi);
            }
        }
        let generic = rustc_middle::ty::TypeVisitableExt::has_param(&c.const_);
        if !generic {
            if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                let size = s.size();
                let v = match t.kind() {
                    ty::Int(_) => s.to_int(size).to_string(),
                    ty::Bool => (s.to_bits(size) != 0).to_string(),
                    ty::Float(f) => {
                        let b = s.to_bits(size);
                        let x = if f.bit_width() == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                        if x.is_finite() { format!("{x:?}") } else { esc(&format!("{x}")) }
                    }
                    ty::Adt(a, _) => {
                        self.note_adt(a.did());
                        format!("{},\"adtc\":true", s.to_bits(size))
                    }
                    _ => s.to_bits(size).to_string(),
                };
                return format!("{{\"c\":{},\"t\":{}{}}}", v, tyi, named);
            }
            // &str / &[u8]
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"s\":{},\"t\":{}{}}}", esc(&String::from_utf8_lossy(b)), tyi, named);
                        }
                    }
                }
            }
            // small structs (e.g. Tick(0), Duration)
            if let ty::Adt(a, _) = t.kind() {
                self.note_adt(a.did());
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    if let Some(s) = self.val_tree(v, t, 0) {
                        return format!("{{\"v\":{},\"t\":{}{}}}", s, tyi, named);
                    }
                }
            }
        }
        format!("{{\"o\":1,\"t\":{}{}}}", tyi, named)
    }

    /// constant of aggregate type -> {"adt":..,"var":..,"f":[..]}
    fn val_tree(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 4 {
            return None;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let s = v.try_to_scalar_int()?;
                let size = s.size();
                let x = match t.kind() {
                    ty::Int(_) => s.to_int(size).to_string(),
                    ty::Bool => (s.to_bits(size) != 0).to_string(),
                    _ => s.to_bits(size).to_string(),
                };
                Some(x)
            }
            ty::Adt(a, _) if !a.is_union() => {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                let vn = a.variant(vi).name.to_string();
                let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                let mut o = vec![];
                for (cv, ct) in fs {
                    o.push(self.val_tree(cv, ct, depth + 1).unwrap_or("null".into()));
                }
                Some(format!("{{\"adt\":{},\"var\":{},\"f\":[{}]}}", esc(&self.name(a.did())), esc(&vn), o.join(",")))
            }
            ty::Tuple(_) => {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                let mut o = vec![];
                for (cv, ct) in fs {
                    o.push(self.val_tree(cv, ct, depth + 1).unwrap_or("null".into()));
                }
                Some(format!("{{\"tup\":1,\"f\":[{}]}}", o.join(",")))
            }
            _ => None,
        }
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => self.place(body, p),
            Operand::Move(p) => self.place(body, p),
            Operand::Constant(c) => self.konst(env, owner, c),
            #[allow(unreachable_patterns)]
            _ => "{\"o\":1,\"t\":0}".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        macro_rules! op {
            ($o:expr) => {
                self.operand(env, owner, body, $o)
            };
        }
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", op!(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", op!(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(body, p), if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 }),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", self.place(body, p), if format!("{k:?}").contains("Mut") { 1 } else { 0 }),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(from);
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::FloatToInt => "f2i".to_string(),
                    CastKind::IntToFloat => "i2f".to_string(),
                    CastKind::FloatToFloat => "f2f".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce {c:?}"),
                    CastKind::Transmute => "transmute".to_string(),
                    other => format!("{other:?}"),
                };
                format!("[\"cast\",{},{},{},{}]", op!(o), ti, esc(&ks), fi)
            }
            Rvalue::BinaryOp(b, bx) => {
                let t = bx.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{b:?}")), op!(&bx.0), op!(&bx.1), ti)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), op!(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| op!(o)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "\"array\",\"\",\"\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\",\"\",\"\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.note_adt(*d);
                        let a = self.tcx.adt_def(*d);
                        let vn = a.variant(*v).name.to_string();
                        format!("\"adt\",{},{}", esc(&self.name(*d)), esc(&vn))
                    }
                    AggregateKind::Closure(d, _) => format!("\"closure\",{},\"\"", esc(&self.id(*d))),
                    AggregateKind::Coroutine(d, _) => format!("\"coroutine\",{},\"\"", esc(&self.id(*d))),
                    _ => "\"other\",\"\",\"\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", head, fs.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"static\",{}]", esc(&self.id(*d))),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>, id: &str, kind: &str, extra: &str) -> String {
        let tcx = self.tcx;
        let owner = def;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut o = String::new();
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        let mut upv: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_u32(), esc(v.name.as_str())));
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        let (line, _) = self.span(body.span);
        let _ = write!(
            o,
            "{{\"k\":\"fn\",\"id\":{},\"name\":{},\"kind\":{}{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":[{}],\"names\":{{{}}},\"upv\":[{}],\"bb\":[",
            esc(id),
            esc(&self.name(def)),
            esc(kind),
            extra,
            esc(&self.file(body.span)),
            line,
            body.arg_count,
            locals.join(","),
            names.join(","),
            upv.join(",")
        );
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                let (ln, tag) = self.span(s.source_info.span);
                let tg = tag.map(|t| esc(&t)).unwrap_or("0".into());
                let js = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!("[\"=\",{},{},{},{}]", self.place(body, p), self.rvalue(env, owner, body, r), ln, tg)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{},{}]", self.place(body, place), variant_index.as_u32(), ln, tg)
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&js);
            }
            o.push_str("],");
            let t = bb.terminator();
            let (ln, tag) = self.span(t.source_info.span);
            let tg = tag.map(|t| esc(&t)).unwrap_or("0".into());
            let js = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let size = if dt.is_integral() { Some(match dt.kind() { ty::Int(i) => i.bit_width().unwrap_or(64), ty::Uint(u) => u.bit_width().unwrap_or(64), _ => 64 }) } else { None };
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed {
                                let w = size.unwrap_or(64) as u32;
                                let sh = 128 - w;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", vs, b.as_u32())
                        })
                        .collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(env, owner, body, discr), ts.join(","), targets.otherwise().as_u32(), dti)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, owner, body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, owner, body, &x.node)).collect();
                    let tgt = target.map(|x| x.as_u32().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), self.place(body, destination), tgt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(env, owner, body, len), self.operand(env, owner, body, index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow {b:?}"), vec![self.operand(env, owner, body, x), self.operand(env, owner, body, y)]),
                        AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![self.operand(env, owner, body, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(env, owner, body, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(env, owner, body, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},[{}],{}]", self.operand(env, owner, body, cond), expected, esc(&mk), ops.join(","), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unreachable\"]".to_string(),
            };
            let _ = write!(o, "{},{},{}]", js, ln, tg);
        }
        o.push_str("]}");
        o
    }

    fn extra(&mut self, def: DefId) -> String {
        let tcx = self.tcx;
        let mut e = String::new();
        // enclosing impl (skip closures)
        let mut d = def;
        while tcx.is_closure_like(d) {
            d = tcx.parent(d);
        }
        if d != def {
            let _ = write!(e, ",\"encl\":{}", esc(&self.id(d)));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(e, ",\"self\":{}", esc(&self.ty_str(st)));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(e, ",\"trait\":{}", esc(&self.name(tr.def_id)));
                    if tcx.is_automatically_derived(p) {
                        e.push_str(",\"derived\":1");
                    }
                }
            } else if tcx.def_kind(p) == DefKind::Trait {
                let _ = write!(e, ",\"intrait\":{}", esc(&self.name(p)));
            }
        }
        if !tcx.is_closure_like(def) && matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let vis = if tcx.visibility(def).is_public() { "pub" } else { "priv" };
            let _ = write!(e, ",\"vis\":\"{vis}\"");
            let gens = tcx.generics_of(def);
            let mut gp = vec![];
            for i in 0..gens.count() {
                let p = gens.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gp.push(esc(p.name.as_str()));
                }
            }
            let _ = write!(e, ",\"gen\":[{}]", gp.join(","));
        }
        e
    }

    fn run(&mut self, dir: &str) {
        let tcx = self.tcx;
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut lines: Vec<String> = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let ex = self.extra(d);
                    let body = tcx.optimized_mir(d);
                    let id = self.id(d);
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    lines.push(self.body(d, body, &id, k, &ex));
                    let proms = tcx.promoted_mir(d);
                    for (i, p) in proms.iter_enumerated() {
                        let pid = format!("{}::promoted{}", id, i.as_u32());
                        lines.push(self.body(d, p, &pid, "promoted", ""));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let ex = self.extra(d);
                    let id = self.id(d);
                    let body = tcx.mir_for_ctfe(d);
                    lines.push(self.body(d, body, &id, "const", &ex));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        let pid = format!("{}::promoted{}", id, i.as_u32());
                        lines.push(self.body(d, p, &pid, "promoted", ""));
                    }
                }
                _ => {}
            }
        }
        // impls
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            for im in impls {
                let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let sts = self.ty_str(st);
                let items: Vec<String> = tcx
                    .associated_items(im.to_def_id())
                    .in_definition_order()
                    .map(|a| format!("[{},{}]", esc(&a.opt_name().map(|x| x.to_string()).unwrap_or_default()), esc(&self.id(a.def_id))))
                    .collect();
                let trn = self.name(*tr);
                let (line, _) = self.span(tcx.def_span(im.to_def_id()));
                let f = self.file(tcx.def_span(im.to_def_id()));
                let der = tcx.is_automatically_derived(im.to_def_id());
                lines.push(format!(
                    "{{\"k\":\"impl\",\"trait\":{},\"self\":{},\"items\":[{}],\"derived\":{},\"file\":{},\"line\":{}}}",
                    esc(&trn),
                    esc(&sts),
                    items.join(","),
                    der,
                    esc(&f),
                    line
                ));
            }
        }
        // make sure all local adts are listed
        for ld in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(ld), DefKind::Struct | DefKind::Enum) {
                self.note_adt(ld.to_def_id());
            }
        }
        let mut done = 0;
        while done < self.adt_queue.len() {
            let d = self.adt_queue[done];
            done += 1;
            let a = tcx.adt_def(d);
            if a.is_union() {
                continue;
            }
            let mut vs = vec![];
            let big = d.krate != LOCAL_CRATE && a.variants().iter().map(|v| v.fields.len()).sum::<usize>() > 60;
            for (vi, v) in a.variants().iter_enumerated() {
                let disc = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                let fs: Vec<String> = if big {
                    vec![]
                } else {
                    v.fields
                        .iter()
                        .map(|f| {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let fts = if d.krate == LOCAL_CRATE { self.ty(ft).to_string() } else { "-1".into() };
                            format!("[{},{}]", esc(f.name.as_str()), fts)
                        })
                        .collect()
                };
                vs.push(format!("[{},{},[{}]]", esc(v.name.as_str()), disc, fs.join(",")));
            }
            let n = self.name(d);
            lines.push(format!(
                "{{\"k\":\"adt\",\"name\":{},\"enum\":{},\"local\":{},\"vars\":[{}]}}",
                esc(&n),
                a.is_enum(),
                d.krate == LOCAL_CRATE,
                vs.join(",")
            ));
        }
        let tl: Vec<String> = self.type_list.iter().map(|s| esc(s)).collect();
        lines.push(format!("{{\"k\":\"types\",\"t\":[{}]}}", tl.join(",")));
        let kind = if tcx.crate_types().contains(&rustc_structures::CrateType::Executable) { "bin" } else { "lib" };
        let _ = std::fs::create_dir_all(dir);
        let tmp = format!("{dir}/.{krate}.{kind}.{}", std::process::id());
        let fin = format!("{dir}/{krate}.{kind}.jsonl");
        let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        for l in lines {
            let _ = f.write_all(l.as_bytes());
            let _ = f.write_all(b"\n");
        }
        f.flush().unwrap();
        drop(f);
        std::fs::rename(&tmp, &fin).unwrap();
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probe = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    let build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let out = if probe || build_script { None } else { std::env::var("MIRFACTS_OUT").ok() };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
