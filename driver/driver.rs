//! Dumps the type-checked, monomorphised program reachable from the `r_*` functions of the crate
//! being compiled as JSON. Used as RUSTC_WORKSPACE_WRAPPER. Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::crate_def::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

/// A JSON fragment, already rendered.
type J = String;

fn js(s: &str) -> J {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = J>>(it: I) -> J {
    let v: Vec<J> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Dump {
    types: HashMap<Ty, usize>,
    type_out: Vec<J>,
    fns: HashMap<Instance, usize>,
    fn_out: Vec<J>,
    queue: Vec<Instance>,
    stop: Vec<String>,
}

fn ty_rigid(t: Ty) -> Option<RigidTy> {
    match t.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let disp = js(&format!("{}", t));
        let out = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#""k":"bool""#.to_string(),
                RigidTy::Char => r#""k":"char""#.to_string(),
                RigidTy::Int(i) => format!(r#""k":"int","s":1,"b":{}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#""k":"int","s":0,"b":{}"#, i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#""k":"float","n":{}"#, js(&format!("{:?}", f))),
                RigidTy::Str => r#""k":"str""#.to_string(),
                RigidTy::Never => r#""k":"never""#.to_string(),
                RigidTy::Slice(e) => format!(r#""k":"slice","e":{}"#, self.ty(e)),
                RigidTy::Array(e, n) => format!(
                    r#""k":"array","e":{},"n":{}"#,
                    self.ty(e),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::RawPtr(e, m) => {
                    format!(r#""k":"ptr","e":{},"m":{}"#, self.ty(e), (m == Mutability::Mut) as u8)
                }
                RigidTy::Ref(_, e, m) => {
                    format!(r#""k":"ref","e":{},"m":{}"#, self.ty(e), (m == Mutability::Mut) as u8)
                }
                RigidTy::Tuple(ts) => {
                    format!(r#""k":"tuple","f":{}"#, arr(ts.into_iter().map(|t| self.ty(t).to_string())))
                }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve(d, &a).ok();
                    let f = inst.map(|i| self.func(i).to_string()).unwrap_or("null".into());
                    format!(r#""k":"fndef","f":{},"n":{}"#, f, js(&d.name()))
                }
                RigidTy::FnPtr(_) => r#""k":"fnptr""#.to_string(),
                RigidTy::Closure(d, a) => {
                    let n = a.0.len();
                    let up = match &a.0[n - 1] {
                        GenericArgKind::Type(t) => match ty_rigid(*t) {
                            Some(RigidTy::Tuple(ts)) => ts,
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let up = arr(up.into_iter().map(|t| self.ty(t).to_string()));
                    let f = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    let f = f.map(|i| self.func(i).to_string()).unwrap_or("null".into());
                    format!(r#""k":"closure","n":{},"f":{},"call":{}"#, js(&d.name()), up, f)
                }
                RigidTy::Dynamic(p, _) => {
                    let n = p
                        .iter()
                        .map(|b| match b.clone().skip_binder() {
                            ExistentialPredicate::Trait(t) => t.def_id.name().to_string(),
                            _ => String::new(),
                        })
                        .collect::<Vec<_>>()
                        .join("+");
                    format!(r#""k":"dyn","n":{}"#, js(&n))
                }
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = Vec::new();
                    for v in d.variants() {
                        let discr = if kind == "enum" {
                            d.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        let mut fs = Vec::new();
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!(
                            r#"{{"n":{},"d":{},"f":{}}}"#,
                            js(&v.name()),
                            discr,
                            arr(fs)
                        ));
                    }
                    let args = arr(a.0.iter().filter_map(|g| match g {
                        GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                        GenericArgKind::Const(c) => {
                            c.eval_target_usize().ok().map(|n| format!("{{\"c\":{}}}", n))
                        }
                        _ => None,
                    }));
                    let dty = RigidTy::Adt(d, a.clone()).discriminant_ty_safe(kind);
                    let dty = dty.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        r#""k":"adt","a":"{}","tr":{},"n":{},"v":{},"args":{},"dt":{},"crate":{}"#,
                        kind,
                        d.repr().flags.is_transparent as u8,
                        js(&d.name()),
                        arr(vs),
                        args,
                        dty,
                        js(&d.krate().name)
                    )
                }
                RigidTy::Pat(b, _) => format!(r#""k":"pat","e":{}"#, self.ty(b)),
                _ => r#""k":"other""#.to_string(),
            },
            _ => r#""k":"other""#.to_string(),
        };
        let size = t
            .layout()
            .ok()
            .map(|l| l.shape())
            .filter(|s| s.is_sized())
            .map(|s| s.size.bytes().to_string())
            .unwrap_or("null".into());
        self.type_out[id] = format!("{{{},\"size\":{},\"disp\":{}}}", out, size, disp);
        id
    }

    fn func(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let id = self.fn_out.len();
        self.fns.insert(i, id);
        self.fn_out.push(String::new());
        self.queue.push(i);
        id
    }

    fn stopped(&self, def: &str) -> bool {
        self.stop.iter().any(|s| match s.strip_suffix('*') {
            Some(p) => def.starts_with(p),
            None => def == s,
        })
    }

    fn run_fn(&mut self, i: Instance) {
        let id = self.fns[&i];
        let def = i.def.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let is_closure = matches!(ty_rigid(i.ty()), Some(RigidTy::Closure(..)));
        let args = arr(i.args().0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => c.eval_target_usize().ok().map(|n| format!("{{\"c\":{}}}", n)),
            _ => None,
        }));
        let intr = i.intrinsic_name();
        let line = i.def.span().get_lines().start_line;
        let file = i.def.span().get_filename().to_string();
        let stop = self.stopped(&def) || kind == "virtual" || (kind == "intrinsic");
        let drop_ty = if def == "core::ptr::drop_in_place" || def == "std::ptr::drop_in_place" {
            "1"
        } else {
            "0"
        };
        let body = if stop { None } else { i.body() };
        let uns = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => matches!(d.fn_sig().skip_binder().safety, Safety::Unsafe) as u8,
            _ => 0,
        };
        let b = match body {
            Some(b) => self.body(&b),
            None => "null".into(),
        };
        self.fn_out[id] = format!(
            r#"{{"name":{},"def":{},"kind":"{}","closure":{},"args":{},"intr":{},"crate":{},"file":{},"line":{},"drop":{},"unsafe":{},"body":{}}}"#,
            js(&i.name()),
            js(&def),
            kind,
            is_closure as u8,
            args,
            intr.map(|s| js(&s)).unwrap_or("null".into()),
            js(&i.def.krate().name),
            js(&file),
            line,
            drop_ty,
            uns,
            b
        );
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals().to_vec();
        let lt = arr(locals.iter().map(|l| self.ty(l.ty).to_string()));
        let names = {
            let mut v = Vec::new();
            for d in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &d.value {
                    if p.projection.is_empty() {
                        v.push(format!("[{},{}]", p.local, js(&d.name)));
                    }
                }
            }
            arr(v)
        };
        let mut bbs = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                if let Some(x) = self.stmt(&s.kind, &locals) {
                    st.push(format!("[{},{}]", line, x));
                }
            }
            let t = self.term(&bb.terminator, &locals);
            let sp = bb.terminator.source_info.span;
            bbs.push(format!(
                "[{},[{},{},{}]]",
                arr(st),
                sp.get_lines().start_line,
                js(&sp.get_filename()),
                t
            ));
        }
        format!(
            r#"{{"locals":{},"argc":{},"spread":{},"names":{},"bbs":{}}}"#,
            lt,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names,
            arr(bbs)
        )
    }

    fn place(&mut self, p: &Place) -> J {
        let pr = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"c\",{},{},{}]", offset, min_length, *from_end as u8)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"s\",{},{},{}]", from, to, *from_end as u8)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index_()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }));
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::RuntimeChecks(_) => {
                let b = self.ty(Ty::bool_ty());
                format!("[\"k\",{},1]", b)
            }
            Operand::Constant(c) => {
                let t = c.ty();
                let ti = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.value(a, 0, t),
                    ConstantKind::ZeroSized => "\"zst\"".into(),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(t, a) => self.value(a, 0, *t),
                        TyConstKind::ZSTValue(_) => "\"zst\"".into(),
                        _ => tc
                            .eval_target_usize()
                            .map(|x| x.to_string())
                            .unwrap_or("[\"unk\"]".into()),
                    },
                    _ => "[\"unk\"]".into(),
                };
                format!("[\"k\",{},{}]", ti, v)
            }
        }
    }

    fn read(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut r = 0u128;
        for i in 0..n {
            r |= ((*a.bytes.get(off + i)?)? as u128) << (8 * i);
        }
        Some(r)
    }

    fn pointee(&mut self, a: &Allocation, off: usize, t: Ty) -> J {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
        let addr = self.read(a, off, 8).unwrap_or(0) as usize;
        let unsized_len = self.read(a, off + 8, 8).unwrap_or(0) as usize;
        let Some(prov) = prov else {
            return format!("[\"addr\",{}]", addr);
        };
        match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Memory(m) => match ty_rigid(t) {
                Some(RigidTy::Str) => {
                    let v: Vec<String> = (0..unsized_len)
                        .map(|i| self.read(&m, addr + i, 1).unwrap_or(0).to_string())
                        .collect();
                    format!("[\"str\",{}]", arr(v))
                }
                Some(RigidTy::Slice(e)) => {
                    let sz = e.layout().unwrap().shape().size.bytes();
                    let v: Vec<J> = (0..unsized_len).map(|i| self.value(&m, addr + i * sz, e)).collect();
                    format!("[\"slice\",{}]", arr(v))
                }
                Some(RigidTy::Dynamic(..)) => "[\"unk\"]".into(),
                // A transparent wrapper of an unsized type.
                Some(RigidTy::Adt(d, ga)) if t.layout().map(|l| l.shape().is_unsized()).unwrap_or(false) => {
                    let fs = d.variants()[0].fields();
                    if fs.len() == 1 {
                        let inner = self.pointee(a, off, fs[0].ty_with_args(&ga));
                        format!("[\"wrap\",{}]", inner)
                    } else {
                        "[\"unk\"]".into()
                    }
                }
                _ => {
                    let v = self.value(&m, addr, t);
                    format!("[\"ref\",{}]", v)
                }
            },
            GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.func(i)),
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(m) => {
                    let v = self.value(&m, addr, t);
                    format!("[\"static\",{},{}]", js(&s.name()), v)
                }
                Err(_) => "[\"unk\"]".into(),
            },
            _ => "[\"unk\"]".into(),
        }
    }

    fn value(&mut self, a: &Allocation, off: usize, t: Ty) -> J {
        let Ok(layout) = t.layout() else { return "[\"unk\"]".into() };
        let sh = layout.shape();
        let size = sh.size.bytes();
        let Some(r) = ty_rigid(t) else { return "[\"unk\"]".into() };
        let unk: J = "[\"unk\"]".into();
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => {
                self.read(a, off, size).map(|x| x.to_string()).unwrap_or(unk)
            }
            RigidTy::Int(_) => match self.read(a, off, size) {
                Some(x) => {
                    let sh = 128 - 8 * size as u32;
                    (((x << sh) as i128) >> sh).to_string()
                }
                None => unk,
            },
            RigidTy::Float(_) => match self.read(a, off, size) {
                Some(x) => format!("[\"fl\",{}]", x),
                None => unk,
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.pointee(a, off, e),
            RigidTy::FnPtr(_) => self.pointee(a, off, t),
            RigidTy::FnDef(..) => "\"zst\"".into(),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "[\"adt\",0,[]]".into() };
                let v: Vec<J> =
                    ts.iter().zip(offsets).map(|(t, o)| self.value(a, off + o.bytes(), *t)).collect();
                format!("[\"adt\",0,{}]", arr(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().unwrap().shape().size.bytes();
                let v: Vec<J> = (0..n).map(|i| self.value(a, off + i * sz, e)).collect();
                format!("[\"arr\",{}]", arr(v))
            }
            RigidTy::Closure(..) => {
                if size == 0 { "[\"adt\",0,[]]".into() } else { unk }
            }
            RigidTy::Pat(b, _) => self.value(a, off, b),
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union {
                    // MaybeUninit and ManuallyDrop-like unions: keep the last field.
                    let fs = d.variants()[0].fields();
                    let n = fs.len();
                    if a.bytes.get(off..off + size).map(|b| b.iter().all(|x| x.is_none())).unwrap_or(true) {
                        return "[\"uninit\"]".into();
                    }
                    let ft = fs[n - 1].ty_with_args(&ga);
                    let v = self.value(a, off, ft);
                    return format!("[\"union\",{},{}]", n - 1, v);
                }
                let (vi, offsets): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return unk,
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index_(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk };
                        let to = off + offsets[*tag_field].bytes();
                        let (tsz, isptr) = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                Primitive::Int { length, .. } => (length.bits() / 8, false),
                                Primitive::Pointer(_) => (8, true),
                                _ => return unk,
                            },
                        };
                        let has_prov = isptr && a.provenance.ptrs.iter().any(|(o, _)| *o == to);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = self.read(a, to, tsz) else { return unk };
                                let mut found = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & m == tv {
                                        found = Some(v.idx().to_index_());
                                    }
                                }
                                match found {
                                    Some(f) => f,
                                    None => return unk,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index_()
                                } else {
                                    let Some(tv) = self.read(a, to, tsz) else { return unk };
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let s = niche_variants.start().to_index_() as u128;
                                    let e = niche_variants.end().to_index_() as u128;
                                    if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index_() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vdef = &d.variants()[vi];
                let fs = vdef.fields();
                let mut v = Vec::new();
                for (f, o) in fs.iter().zip(offsets.iter()) {
                    let ft = f.ty_with_args(&ga);
                    v.push(self.value(a, off + o, ft));
                }
                format!("[\"adt\",{},{}]", vi, arr(v))
            }
            _ => unk,
        }
    }

    fn pty(&mut self, p: &Place, locals: &[LocalDecl]) -> J {
        match p.ty(locals) {
            Ok(t) => self.ty(t).to_string(),
            Err(_) => "null".into(),
        }
    }
    fn oty(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o.ty(locals) {
            Ok(t) => self.ty(t).to_string(),
            Err(_) => "null".into(),
        }
    }

    fn stmt(&mut self, s: &StatementKind, locals: &[LocalDecl]) -> Option<J> {
        Some(match s {
            StatementKind::Assign(p, r) => {
                let p2 = self.place(p);
                let pt = self.pty(p, locals);
                let r = self.rvalue(r, locals);
                format!("[\"=\",{},{},{}]", p2, pt, r)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index_())
            }
            StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => return None,
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                format!(
                    "[\"copy\",{},{},{}]",
                    self.operand(&c.src),
                    self.operand(&c.dst),
                    self.operand(&c.count)
                )
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!(
                "[\"bin\",\"{:?}\",{},{},{},{}]",
                op,
                self.operand(a),
                self.operand(b),
                self.oty(a, locals),
                self.oty(b, locals)
            ),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(
                "[\"cbin\",\"{:?}\",{},{},{},{}]",
                op,
                self.operand(a),
                self.operand(b),
                self.oty(a, locals),
                self.oty(b, locals)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), self.oty(a, locals))
            }
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(o),
                self.oty(o, locals),
                self.ty(*t)
            ),
            Rvalue::Discriminant(p) => {
                format!("[\"discr\",{},{}]", self.place(p), self.pty(p, locals))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|o| self.operand(o)));
                match k {
                    AggregateKind::Array(_) => format!("[\"arr\",{}]", o),
                    AggregateKind::Tuple => format!("[\"agg\",0,{},null]", o),
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "[\"agg\",{},{},{}]",
                        v.to_index_(),
                        o,
                        f.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => format!("[\"agg\",0,{},null]", o),
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{}]", o),
                    _ => "[\"unk\"]".into(),
                }
            }
            Rvalue::ThreadLocalRef(_) => "[\"unk\"]".into(),
        }
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> J {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "[\"switch\",{},{},{},{}]",
                self.operand(discr),
                arr(targets.branches().map(|(v, b)| format!("[{},{}]", v, b))),
                targets.otherwise(),
                self.oty(discr, locals)
            ),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let f = match place.ty(locals) {
                    Ok(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        if i.is_empty_shim() || !self.droppy(t, 0) {
                            "null".to_string()
                        } else {
                            self.func(i).to_string()
                        }
                    }
                    Err(_) => "null".into(),
                };
                format!("[\"drop\",{},{},{}]", self.place(place), target, f)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::Overflow(op, a, b) => {
                        format!("[\"ovf\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
                    }
                    AssertMessage::BoundsCheck { len, index } => {
                        format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                    }
                    m => format!("[\"{}\"]", format!("{:?}", m).split(|c: char| !c.is_alphanumeric()).next().unwrap()),
                };
                format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(cond),
                    *expected as u8,
                    target,
                    m
                )
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a = arr(args.iter().map(|o| self.operand(o)));
                let d = self.place(destination);
                let dt = self.pty(destination, locals);
                let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                let at = arr(args.iter().map(|o| self.oty(o, locals)));
                let f = match func.ty(locals).ok().and_then(|t| ty_rigid(t)) {
                    Some(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                        Ok(i) => self.func(i).to_string(),
                        Err(_) => format!("[\"unres\",{}]", js(&def.name())),
                    },
                    _ => format!("[\"ptr\",{}]", self.operand(func)),
                };
                let tr = match func.ty(locals).ok().and_then(|t| ty_rigid(t)) {
                    Some(RigidTy::FnDef(def, _)) => js(&def.name()),
                    _ => "null".into(),
                };
                format!("[\"call\",{},{},{},{},{},{},{}]", f, a, d, tg, dt, at, tr)
            }
            TerminatorKind::InlineAsm { .. } => "[\"unk\"]".into(),
        }
    }

    /// Whether dropping a value of this type can run a destructor of the analysed crates.
    fn droppy(&self, t: Ty, d: usize) -> bool {
        if d > 6 {
            return false;
        }
        match ty_rigid(t) {
            Some(RigidTy::Adt(def, a)) => {
                if !is_std(&def.krate().name) {
                    // Has its own Drop impl?
                    let i = Instance::resolve_drop_in_place(t);
                    if i.is_empty_shim() {
                        return false;
                    }
                    if has_drop_impl(i, t) {
                        return true;
                    }
                    return def.variants().iter().any(|v| {
                        v.fields().iter().any(|f| self.droppy(f.ty_with_args(&a), d + 1))
                    });
                }
                a.0.iter().any(|g| match g {
                    GenericArgKind::Type(t) => self.droppy(*t, d + 1),
                    _ => false,
                })
            }
            Some(RigidTy::Tuple(ts)) => ts.iter().any(|t| self.droppy(*t, d + 1)),
            Some(RigidTy::Array(e, _)) | Some(RigidTy::Slice(e)) => self.droppy(e, d + 1),
            Some(RigidTy::Closure(_, a)) => match a.0.last() {
                Some(GenericArgKind::Type(t)) => self.droppy(*t, d + 1),
                _ => false,
            },
            _ => false,
        }
    }
}

fn is_std(n: &str) -> bool {
    matches!(n, "core" | "alloc" | "std" | "hashbrown")
}

/// Whether the drop glue of a type calls a `Drop::drop` implementation for that very type.
fn has_drop_impl(i: Instance, t: Ty) -> bool {
    let Some(b) = i.body() else { return false };
    for bb in &b.blocks {
        if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
            if let Ok(ft) = func.ty(b.locals()) {
                if let Some(RigidTy::FnDef(d, a)) = ty_rigid(ft) {
                    if d.name().ends_with("Drop::drop") {
                        if let Some(GenericArgKind::Type(x)) = a.0.first() {
                            if *x == t {
                                return true;
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

trait ToIndex_ {
    fn to_index_(&self) -> usize;
}
impl ToIndex_ for VariantIdx {
    fn to_index_(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}
trait DiscrSafe {
    fn discriminant_ty_safe(&self, kind: &str) -> Option<Ty>;
}
impl DiscrSafe for RigidTy {
    fn discriminant_ty_safe(&self, kind: &str) -> Option<Ty> {
        if kind == "enum" { Some(self.discriminant_ty()) } else { None }
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let mut d = Dump::default();
    if let Ok(f) = std::env::var("VERIF_STOP") {
        d.stop = std::fs::read_to_string(f).unwrap().lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    }
    let mut roots = Vec::new();
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("r_") && !n.contains('{') && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                let id = d.func(i);
                roots.push(format!("[{},{}]", js(&last), id));
            }
        }
    }
    while let Some(i) = d.queue.pop() {
        d.run_fn(i);
    }
    let s = format!(
        "{{\"roots\":{},\"types\":[{}],\"fns\":[{}]}}",
        arr(roots),
        d.type_out.join(",\n"),
        d.fn_out.join(",\n")
    );
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a workspace wrapper, the first argument is the path of the real compiler.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VERIF_DUMP");
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("VERIF_CRATE").ok();
    if let (Ok(out), true) = (out, krate.is_some() && krate == want) {
        let _ = rustc_public::run!(&args, || dump(&out));
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
