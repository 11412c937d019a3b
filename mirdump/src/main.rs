//! mirdump: a rustc driver that, after type checking the crate it is asked to compile, collects
//! every monomorphic function reachable from the crate's `root_*` functions and writes their MIR
//! (the compiler's own intermediate representation of the real source text) as JSON.
//!
//! Usage: used as RUSTC_WORKSPACE_WRAPPER (argv[1] is the real rustc, dropped).  Environment:
//!   MIRDUMP_CRATE  crate name whose compilation triggers the dump
//!   MIRDUMP_OUT    output file
//!   MIRDUMP_RULES  file of "stop <regex-free prefix>" / "go <prefix>" rules, first match wins
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper {
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    fns: Vec<(String, String)>,
    seen: HashSet<Instance>,
    queue: VecDeque<Instance>,
    rules: Vec<(bool, String)>,
    stopped: HashSet<String>,
}

impl Dumper {
    fn rule_go(&self, name: &str) -> bool {
        for (go, pat) in &self.rules {
            if pat == "*" || name.contains(pat.as_str()) {
                return *go;
            }
        }
        true
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[id] = s;
        id
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{:?}", c.eval_target_usize()))),
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let disp = esc(&format!("{}", t));
        let kind = t.kind();
        let r = match kind {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        };
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":{}", esc(&format!("{:?}", f))),
            RigidTy::Str => "\"k\":\"str\"".to_string(),
            RigidTy::Never => "\"k\":\"never\"".to_string(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(u64::MAX))
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"ty\":{}", e)
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ref\",\"ty\":{},\"mut\":{}", e, m == Mutability::Mut)
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"ty\":{},\"mut\":{}", e, m == Mutability::Mut)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":[{}]", v.join(","))
            }
            RigidTy::FnDef(d, args) => {
                let f = self.fnref(d, &args);
                format!("\"k\":\"fndef\",\"fn\":{}", f)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
            RigidTy::Closure(d, args) => {
                // upvar tuple type is the last generic argument
                let ups = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                    _ => "null".into(),
                };
                let inst = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).ok();
                let _ = inst;
                format!("\"k\":\"closure\",\"name\":{},\"did\":{},\"upvars\":{}", esc(&d.name()), esc(&format!("{:?}", d)), ups)
            }
            RigidTy::Adt(d, args) => {
                let a = self.args_json(&args);
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let ft = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), ft));
                    }
                    let discr = if kind == "enum" {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                        esc(&v.name().to_string()),
                        discr,
                        fs.join(",")
                    ));
                }
                format!(
                    "\"k\":\"adt\",\"name\":{},\"did\":{},\"args\":{},\"kind\":\"{}\",\"box\":{},\"variants\":[{}]",
                    esc(&d.name()),
                    esc(&format!("{:?}", d)),
                    a,
                    kind,
                    d.is_box(),
                    vs.join(",")
                )
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            other => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("{{{},\"s\":{}}}", body, disp)
    }

    /// A reference to a function definition applied to arguments: name of the definition as
    /// written (for trait methods the trait's method), the instance it resolves to, and flags.
    fn fnref(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let a = self.args_json(args);
        let defname = d.name();
        match Instance::resolve(d, args) {
            Ok(inst) => {
                let i = self.inst_json(inst);
                format!("{{\"def\":{},\"args\":{},\"inst\":{}}}", esc(&defname), a, i)
            }
            Err(_) => format!("{{\"def\":{},\"args\":{},\"inst\":null}}", esc(&defname), a),
        }
    }

    fn inst_json(&mut self, inst: Instance) -> String {
        let sym = inst.mangled_name();
        let (kind, extra) = match inst.kind {
            InstanceKind::Item => ("item", String::new()),
            InstanceKind::Intrinsic => ("intrinsic", inst.intrinsic_name().unwrap_or_default().to_string()),
            InstanceKind::LlvmIntrinsic => ("llvm", String::new()),
            InstanceKind::Virtual { .. } => ("virtual", String::new()),
            InstanceKind::Shim => ("shim", String::new()),
        };
        let key = self.key(&inst);
        let name = inst.name();
        let a = self.args_json(&inst.args());
        if self.rule_go(&name) {
            if !self.seen.contains(&inst) {
                self.seen.insert(inst);
                self.queue.push_back(inst);
            }
        } else {
            self.stopped.insert(name.to_string());
        }
        let _ = sym;
        format!(
            "{{\"key\":{},\"name\":{},\"defname\":{},\"args\":{},\"kind\":\"{}\",\"intr\":{}}}",
            esc(&key),
            esc(&name),
            esc(&inst.def.name()),
            a,
            kind,
            esc(&extra)
        )
    }

    fn key(&self, inst: &Instance) -> String {
        // Shims (FnOnce shims, fn-pointer shims, clone/drop shims) share symbol names with items in
        // some cases, so the kind is part of the key.
        format!("{:?}|{}", inst.kind, inst.mangled_name())
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"field\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn decode(&mut self, t: Ty, alloc: &Allocation, off: usize) -> Option<String> {
        let kind = t.kind();
        let r = kind.rigid()?.clone();
        let rd = |a: &Allocation, o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        Some(match r {
            RigidTy::Bool => format!("{{\"bool\":{}}}", rd(alloc, off, 1)? != 0),
            RigidTy::Char => format!("{{\"int\":\"{}\"}}", rd(alloc, off, 4)?),
            RigidTy::Uint(u) => format!("{{\"int\":\"{}\"}}", rd(alloc, off, u.num_bytes())?),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = rd(alloc, off, n)?;
                let bits = n * 8;
                let sv = if bits == 128 { v as i128 } else if v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                format!("{{\"int\":\"{}\"}}", sv)
            }
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, _ => return None };
                format!("{{\"float\":\"{}\",\"bits\":{}}}", rd(alloc, off, n)?, n * 8)
            }
            RigidTy::Tuple(ts) => {
                let shape = t.layout().ok()?.shape();
                let offs = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.clone(),
                    _ if ts.is_empty() => vec![],
                    _ => return None,
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(*ft, alloc, off + offs[i].bytes())?);
                }
                format!("{{\"tuple\":[{}]}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()?;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(e, alloc, off + i * sz)?);
                }
                format!("{{\"array\":[{}]}}", v.join(","))
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let (_, prov) = match alloc.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    Some(x) => x.clone(),
                    None => {
                        let v = rd(alloc, off, 8)?;
                        return Some(format!("{{\"addr\":\"{}\"}}", v));
                    }
                };
                let inner_off = rd(alloc, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match inner.kind().rigid()?.clone() {
                        RigidTy::Str => {
                            let n = rd(alloc, off + 8, 8)? as usize;
                            let bytes = m.raw_bytes().ok()?;
                            let s = String::from_utf8_lossy(&bytes[inner_off..inner_off + n]).to_string();
                            format!("{{\"str\":{}}}", esc(&s))
                        }
                        RigidTy::Slice(e) => {
                            let n = rd(alloc, off + 8, 8)? as usize;
                            let sz = e.layout().ok()?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..n {
                                v.push(self.decode(e, &m, inner_off + i * sz)?);
                            }
                            format!("{{\"ref\":{{\"array\":[{}]}}}}", v.join(","))
                        }
                        _ => {
                            let x = self.decode(inner, &m, inner_off)?;
                            format!("{{\"ref\":{}}}", x)
                        }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name())),
                    GlobalAlloc::Function(i) => {
                        let j = self.inst_json(i);
                        format!("{{\"fnptr\":{}}}", j)
                    }
                    GlobalAlloc::VTable(t, _) => {
                        let t = self.ty(t);
                        format!("{{\"vtable\":{}}}", t)
                    }
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => {
                let (_, prov) = alloc.provenance.ptrs.iter().find(|(o, _)| *o == off)?.clone();
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => {
                        let j = self.inst_json(i);
                        format!("{{\"fnptr\":{}}}", j)
                    }
                    _ => return None,
                }
            }
            RigidTy::FnDef(..) => "{\"zst\":1}".to_string(),
            RigidTy::Closure(_, args) => {
                let ups = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => *t,
                    _ => return None,
                };
                let ts = match ups.kind().rigid()?.clone() { RigidTy::Tuple(ts) => ts, _ => return None };
                if ts.is_empty() { return Some("{\"zst\":1}".into()); }
                return None;
            }
            RigidTy::Adt(d, args) => {
                let shape = t.layout().ok()?.shape();
                if d.kind() == AdtKind::Union {
                    return None;
                }
                let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return None,
                        };
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value,
                            Scalar::Union { value } => value,
                        };
                        let n = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        };
                        // a pointer-valued tag (niche in a reference) is "not the niche value"
                        let has_ptr = alloc.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = rd(alloc, off + tag_off, n)?;
                                let mut found = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    if dv & mask == tv & mask {
                                        found = Some(v.idx().to_index());
                                    }
                                }
                                found?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let tv = rd(alloc, off + tag_off, n)?;
                                    let bits = n as u32 * 8;
                                    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                    }
                };
                let v = &d.variants()[vidx];
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).copied().unwrap_or(0);
                    fs.push(self.decode(ft, alloc, off + o)?);
                }
                format!("{{\"adt\":{},\"fields\":[{}]}}", vidx, fs.join(","))
            }
            _ => return None,
        })
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"zst\":1}".to_string(),
            ConstantKind::Allocated(a) => match self.decode(t, a, 0) {
                Some(s) => s,
                None => format!("{{\"raw\":{}}}", esc(&format!("{:?}", a.bytes.iter().take(32).collect::<Vec<_>>()))),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, alloc) => match self.decode(*ty, alloc, 0) {
                    Some(s) => s,
                    None => "{\"raw\":\"tyconst\"}".into(),
                },
                TyConstKind::ZSTValue(_) => "{\"zst\":1}".to_string(),
                other => format!("{{\"raw\":{}}}", esc(&format!("{:?}", other))),
            },
            other => format!("{{\"raw\":{}}}", esc(&format!("{:?}", other))),
        };
        format!("{{\"const\":{},\"ty\":{}}}", v, tid)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "{\"rtcheck\":1}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"addrof\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let k = match k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(_, v, _, _, active) => match active {
                        Some(a) => format!("\"union\",{},{}", v.to_index(), a),
                        None => format!("\"adt\",{}", v.to_index()),
                    },
                    AggregateKind::Closure(..) => "\"closure\"".to_string(),
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}],[{}]]", t, k, ops.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.operand(x), self.operand(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", b, self.operand(x), self.operand(y), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.operand(x), t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                // closure -> fn pointer coercions need the closure's body
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(ft) = o.ty(locals) {
                        if let TyKind::RigidTy(RigidTy::Closure(d, args)) = ft.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                                let j = self.inst_json(i);
                                return format!("[\"closureptr\",{}]", j);
                            }
                        }
                    }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Ok(ft) = o.ty(locals) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ft.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &args) {
                                let j = self.inst_json(i);
                                return format!("[\"closureptr\",{}]", j);
                            }
                        }
                    }
                }
                let tt = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), from, tt)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(100).collect::<String>())),
        }
    }

    fn body(&mut self, inst: Instance) -> Option<String> {
        let b = inst.body()?;
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let mut s = String::new();
        let lts: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let _ = write!(
            s,
            "{{\"name\":{},\"defname\":{},\"kind\":{},\"closure\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],",
            esc(&inst.name()),
            esc(&inst.def.name()),
            esc(&format!("{:?}", inst.kind)),
            is_closure,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            lts.join(",")
        );
        let args = self.args_json(&inst.args());
        let _ = write!(s, "\"args\":{},", args);
        let sp = b.span;
        let _ = write!(s, "\"file\":{},\"line\":{},", esc(&sp.get_filename().to_string()), sp.get_lines().start_line);
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), l));
            }
        }
        let _ = write!(s, "\"dbg\":[{}],\"blocks\":[", dbg.join(","));
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r, &locals);
                        st.push(format!("[\"assign\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(format!("[\"assume\",{}]", self.operand(o)));
                    }
                    StatementKind::Intrinsic(_) => st.push("[\"unsupported\"]".to_string()),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let dt = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), v.join(","), targets.otherwise(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Resume => "[\"resume\"]".to_string(),
                TerminatorKind::Abort => "[\"abort\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"drop\",{},{},{}]", self.place(place), target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).ok();
                    let f = match fty.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.fnref(d, &a),
                        _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string())
                        .collect();
                    let dt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{}]",
                        f,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg).chars().take(40).collect::<String>();
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unsupported\"]".to_string(),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", st.join(","), t, line));
        }
        s.push_str(&bbs.join(",\n"));
        s.push_str("]}");
        Some(s)
    }
}

fn dump() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if krate.name.to_string() != want {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut rules = vec![];
    if let Ok(f) = std::env::var("MIRDUMP_RULES") {
        for l in std::fs::read_to_string(f).expect("rules").lines() {
            if let Some(x) = l.strip_prefix("stop ") {
                rules.push((false, x.to_string()));
            } else if let Some(x) = l.strip_prefix("go ") {
                rules.push((true, x.to_string()));
            }
        }
    }
    let mut d = Dumper {
        types: vec![],
        type_ids: HashMap::new(),
        fns: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
        rules,
        stopped: HashSet::new(),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let n = item.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") && !item.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(item) {
                roots.push((last, d.key(&i)));
                d.seen.insert(i);
                d.queue.push_back(i);
            }
        }
    }
    let mut nobody = vec![];
    while let Some(i) = d.queue.pop_front() {
        let key = d.key(&i);
        let intrinsic = matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic);
        let body = if matches!(i.kind, InstanceKind::Virtual { .. }) || intrinsic {
            None
        } else {
            d.body(i)
        };
        match body {
            Some(b) => d.fns.push((key, b)),
            None => nobody.push(i.name().to_string()),
        }
    }
    let mut s = String::new();
    s.push_str("{\"roots\":{");
    s.push_str(&roots.iter().map(|(a, b)| format!("{}:{}", esc(a), esc(b))).collect::<Vec<_>>().join(","));
    s.push_str("},\n\"types\":[\n");
    s.push_str(&d.types.join(",\n"));
    s.push_str("],\n\"fns\":{\n");
    s.push_str(&d.fns.iter().map(|(k, b)| format!("{}:{}", esc(k), b)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"nobody\":[");
    nobody.sort();
    nobody.dedup();
    s.push_str(&nobody.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"stopped\":[");
    let mut st: Vec<_> = d.stopped.iter().cloned().collect();
    st.sort();
    s.push_str(&st.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n"));
    s.push_str("]}\n");
    std::fs::write(out, s).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv = [driver, rustc, args...].  Anything but the crate
    // to dump is compiled by the real rustc.
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mine = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if !mine {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(1);
    match rustc_public::run!(&args, dump) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
