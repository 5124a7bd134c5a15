//! Dumps the monomorphised MIR of a crate (and of everything it calls, as far
//! as a body exists and the callee is in scope) as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER:  mirdump <rustc> <rustc args...>
//!   MIRDUMP_OUT    directory for the <crate>.json files
//!   MIRDUMP_CRATES comma separated names of the crates to dump
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate serde_json;

use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self as mty, TyCtxt};
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::Value;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    tymap: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    fns: serde_json::Map<String, Value>,
    local_crate: String,
    /// statics the function being dumped refers to
    statics: HashSet<String>,
}

fn inst_key(i: &Instance) -> String {
    let k = match i.kind {
        InstanceKind::Item => "",
        InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "#intrinsic",
        InstanceKind::Virtual { .. } => "#virtual",
        InstanceKind::Shim => "#shim",
    };
    format!("{}{}", i.mangled_name(), k)
}

/// path of a static, and whether its value can never change
fn static_info(tcx: TyCtxt<'_>, did: rustc_span::def_id::DefId) -> (String, bool) {
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let env = mty::TypingEnv::fully_monomorphized();
    let free = ty.is_freeze(tcx, env) && !tcx.is_mutable_static(did) && !tcx.is_thread_local_static(did);
    (tcx.def_path_str(did), free)
}

impl<'tcx> Cx<'tcx> {
    // ---------------------------------------------------------------- types
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(Value::Null);
        self.tymap.insert(t, i);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(x) => json!({"k":"int","signed":true,"bytes":x.num_bytes()}),
                RigidTy::Uint(x) => json!({"k":"int","signed":false,"bytes":x.num_bytes()}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => {
                    json!({"k":"array","e":self.ty(e),"n":n.eval_target_usize().ok()})
                }
                RigidTy::Slice(e) => json!({"k":"slice","e":self.ty(e)}),
                RigidTy::RawPtr(e, m) => {
                    json!({"k":"raw","e":self.ty(e),"mut":m==Mutability::Mut})
                }
                RigidTy::Ref(_, e, m) => json!({"k":"ref","e":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::Tuple(es) => {
                    json!({"k":"tuple","es":es.iter().map(|e| self.ty(*e)).collect::<Vec<_>>()})
                }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve_for_fn_ptr(d, &a).ok();
                    let key = inst.map(|i| self.want(i));
                    let args = self.args(&a);
                    json!({"k":"fndef","path":d.name(),"args":args,"inst":key})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, a) => {
                    let itcx = self.tcx;
                    let did = rustc_internal::internal(itcx, d.def_id());
                    let iargs = rustc_internal::internal(itcx, a.clone());
                    let mi = mty::Instance::new_raw(did, itcx.erase_and_anonymize_regions(iargs));
                    let inst: Instance = rustc_internal::stable(mi);
                    let ups: Vec<Ty> = {
                        let c = iargs.as_closure();
                        let v: Vec<_> = c.upvar_tys().iter().collect();
                        v.into_iter().map(|t| rustc_internal::stable(t)).collect()
                    };
                    let key = self.want(inst);
                    let ups: Vec<usize> = ups.into_iter().map(|t| self.ty(t)).collect();
                    json!({"k":"closure","path":d.name(),"inst":key,"ups":ups})
                }
                RigidTy::Adt(d, a) => {
                    let is_box = d.is_box();
                    let variants: Vec<Value> = if d.kind() == AdtKind::Union {
                        vec![]
                    } else {
                        d.variants()
                            .iter()
                            .enumerate()
                            .map(|(vi, v)| {
                                let discr = if d.kind() == AdtKind::Enum {
                                    d.discriminant_for_variant(VariantIdx::to_val(vi)).val as i128
                                        as i64
                                } else {
                                    0
                                };
                                let fields: Vec<Value> = v
                                    .fields()
                                    .iter()
                                    .map(|f| {
                                        let t = f.ty_with_args(&a);
                                        let t = self.norm(t);
                                        json!([f.name, self.ty(t)])
                                    })
                                    .collect();
                                json!({"name":v.name(),"discr":discr,"fields":fields})
                            })
                            .collect()
                    };
                    let args = self.args(&a);
                    let has_drop = {
                        let did = rustc_internal::internal(self.tcx, d.def_id());
                        let ad = self.tcx.adt_def(did);
                        ad.destructor(self.tcx).is_some()
                    };
                    json!({"k":"adt","path":d.name(),"krate":d.krate().name,"enum":d.kind()==AdtKind::Enum,
                        "box":is_box,"args":args,"variants":variants,"drop":has_drop})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                other => json!({"k":"other","d":format!("{:?}",other).chars().take(60).collect::<String>()}),
            },
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v["s"] = json!(format!("{}", t));
        self.types[i] = v;
        i
    }
    fn norm(&self, t: Ty) -> Ty {
        let it = rustc_internal::internal(self.tcx, t);
        let it = self.tcx.try_normalize_erasing_regions(
            mty::TypingEnv::fully_monomorphized(),
            mty::Unnormalized::new_wip(it),
        );
        match it {
            Ok(x) => rustc_internal::stable(x),
            Err(_) => t,
        }
    }
    fn args(&mut self, a: &GenericArgs) -> Vec<usize> {
        a.0.iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t)),
                _ => None,
            })
            .collect()
    }

    // ---------------------------------------------------------- instances
    fn want(&mut self, i: Instance) -> String {
        let k = inst_key(&i);
        if !self.seen.contains(&k) {
            self.seen.insert(k.clone());
            self.queue.push_back(i);
        }
        k
    }
    fn in_scope(&self, i: &Instance) -> bool {
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let krate = self.tcx.crate_name(did.krate).to_string();
        if krate == self.local_crate || krate == "idata" || krate == "models" || krate == "dynparser" {
            return true;
        }
        let p = self.tcx.def_path_str(did);
        const OK: &[&str] = &[
            "option::", "result::", "ops::", "cmp::", "convert::", "iter::", "mem::replace",
            "mem::swap", "mem::take", "borrow::", "bool::", "tuple::", "clone::", "default::",
            "Option", "Result", "iter", "any::type_name", "str::traits", "marker::", "peekable",
            "impl bool", "vec::", "slice::", "str::", "string::", "collections::",
        ];
        if p.contains("fmt::") || p.contains("alloc::") || p.contains("ptr::") || p.contains("raw") {
            return false;
        }
        OK.iter().any(|o| p.contains(o))
    }

    // -------------------------------------------------------------- consts
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0, t, 0),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.alloc(a, 0, *t2, 0),
                TyConstKind::ZSTValue(t2) => self.zst(*t2),
                _ => json!(["unk"]),
            },
            _ => json!(["unk"]),
        };
        json!([v, ti])
    }
    fn zst(&mut self, t: Ty) -> Value {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => json!(["fndef"]),
            TyKind::RigidTy(RigidTy::Tuple(_)) => json!(["tuple", []]),
            TyKind::RigidTy(RigidTy::Closure(..)) => json!(["closure"]),
            TyKind::RigidTy(RigidTy::Array(..)) => json!(["arr", []]),
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
                let fs: Vec<Ty> = d.variants()[0].fields().iter().map(|f| f.ty_with_args(&a)).collect();
                let vs: Vec<Value> = fs.into_iter().map(|f| { let f = self.norm(f); self.zst(f) }).collect();
                json!(["adt", 0, vs])
            }
            _ => json!(["zst"]),
        }
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        a.read_partial_uint(off..off + n).ok()
    }
    fn alloc(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 {
            return json!(["unk"]);
        }
        let unk = json!(["unk"]);
        let TyKind::RigidTy(r) = t.kind() else { return unk };
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => 0,
        };
        match r {
            RigidTy::Bool => match self.rd(a, off, 1) {
                Some(x) => json!(["bool", x != 0]),
                None => unk,
            },
            RigidTy::Char => match self.rd(a, off, 4) {
                Some(x) => json!(["char", x as u64]),
                None => unk,
            },
            RigidTy::Int(it) => match self.rd(a, off, it.num_bytes()) {
                Some(x) => {
                    let bits = it.num_bytes() * 8;
                    let s = if bits < 128 && x >> (bits - 1) & 1 == 1 {
                        x as i128 - (1i128 << bits)
                    } else {
                        x as i128
                    };
                    json!(["int", s.to_string()])
                }
                None => unk,
            },
            RigidTy::Uint(it) => match self.rd(a, off, it.num_bytes()) {
                Some(x) => json!(["int", x.to_string()]),
                None => unk,
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = prov else { return unk };
                let po = self.rd(a, off, 8).unwrap_or(0) as usize;
                let target = match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => {
                        let did = rustc_internal::internal(self.tcx, s.def_id());
                        let (path, constant) = static_info(self.tcx, did);
                        self.statics.insert(path.clone());
                        if !constant {
                            return json!(["unk", path]);
                        }
                        match s.eval_initializer() {
                            Ok(m) => m,
                            Err(_) => return unk,
                        }
                    }
                    GlobalAlloc::Function(i) => {
                        let k = self.want(i);
                        return json!(["fn", k]);
                    }
                    _ => return unk,
                };
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let by = &target.bytes[po..po + len];
                        let by: Option<Vec<u8>> = by.iter().cloned().collect();
                        match by.and_then(|b| String::from_utf8(b).ok()) {
                            Some(s) => json!(["str", s]),
                            None => unk,
                        }
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if len > 4096 {
                            return unk;
                        }
                        let vs: Vec<Value> =
                            (0..len).map(|i| self.alloc(&target, po + i * es, el, depth + 1)).collect();
                        json!(["arr", vs])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => unk,
                    _ => self.alloc(&target, po, e, depth + 1),
                }
            }
            RigidTy::Array(el, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 8192 {
                    return unk;
                }
                let vs: Vec<Value> = (0..n).map(|i| self.alloc(a, off + i * es, el, depth + 1)).collect();
                json!(["arr", vs])
            }
            RigidTy::Tuple(es) => {
                let Ok(l) = t.layout() else { return unk };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return json!(["tuple", []]);
                };
                let vs: Vec<Value> = es
                    .iter()
                    .zip(offsets.iter())
                    .map(|(e, o)| self.alloc(a, off + o.bytes(), *e, depth + 1))
                    .collect();
                json!(["tuple", vs])
            }
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union || d.is_box() {
                    return unk;
                }
                let Ok(l) = t.layout() else { return unk };
                let sh = l.shape();
                let fields_of = |me: &mut Self, vi: usize, fs: &FieldsShape| -> Value {
                    let offs = match fs {
                        FieldsShape::Arbitrary { offsets } => offsets.clone(),
                        _ => vec![],
                    };
                    let tys: Vec<Ty> =
                        d.variants()[vi].fields().iter().map(|f| f.ty_with_args(&ga)).collect();
                    let vs: Vec<Value> = tys
                        .iter()
                        .enumerate()
                        .map(|(i, ft)| {
                            let ft = me.norm(*ft);
                            match offs.get(i) {
                                Some(o) => me.alloc(a, off + o.bytes(), ft, depth + 1),
                                None => json!(["unk"]),
                            }
                        })
                        .collect();
                    json!(["adt", vi, vs])
                };
                match sh.variants {
                    VariantsShape::Empty => unk,
                    VariantsShape::Single { index } => {
                        fields_of(self, index.to_index(), &sh.fields)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field: _, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk };
                        let to = offsets[0].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                _ => 8,
                            },
                        };
                        // a relocated pointer in a niche holds the dataful variant
                        let prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let tagv = match self.rd(a, off + to, tsz) {
                            Some(x) => x,
                            None => return unk,
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                for i in 0..d.variants().len() {
                                    let dv = d.discriminant_for_variant(VariantIdx::to_val(i)).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if dv & mask == tagv {
                                        found = Some(i)
                                    }
                                }
                                match found {
                                    Some(i) => i,
                                    None => return unk,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if prov {
                                    untagged_variant.to_index()
                                } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tagv.wrapping_sub(niche_start) & mask;
                                    let s = niche_variants.start().to_index();
                                    let e = niche_variants.end().to_index();
                                    if rel <= (e - s) as u128 {
                                        s + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        let offs = FieldsShape::Arbitrary { offsets: variants[vi].offsets.clone() };
                        fields_of(self, vi, &offs)
                    }
                }
            }
            RigidTy::FnDef(..) => json!(["fndef"]),
            RigidTy::Closure(..) if size == 0 => json!(["closure"]),
            _ if size == 0 => json!(["zst"]),
            _ => unk,
        }
    }

    // ---------------------------------------------------------------- body
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> Value {
        let mut t = locals[p.local].ty;
        let mut out = vec![];
        for pe in &p.projection {
            let v = match pe {
                ProjectionElem::Deref => {
                    let k = match t.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) => "m",
                        TyKind::RigidTy(RigidTy::Ref(..)) => "s",
                        TyKind::RigidTy(RigidTy::RawPtr(..)) => "r",
                        _ => "b",
                    };
                    json!(["D", k])
                }
                ProjectionElem::Field(i, ft) => {
                    let base = self.ty(t);
                    json!(["f", i, self.ty(*ft), base])
                }
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!(["oc"]),
            };
            out.push(v);
            t = pe.ty(t).unwrap_or(t);
        }
        json!([p.local, out])
    }
    fn operand(&mut self, o: &Operand, l: &[LocalDecl]) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p, l)]),
            Operand::Move(p) => json!(["m", self.place(p, l)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(_) => json!(["k", [["bool", false], self.ty(Ty::bool_ty())]]),
        }
    }
    fn operands(&mut self, os: &[Operand], l: &[LocalDecl]) -> Vec<Value> {
        os.iter().map(|o| self.operand(o, l)).collect()
    }
    fn rvalue(&mut self, r: &Rvalue, l: &[LocalDecl]) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.operand(o, l)]),
            Rvalue::AddressOf(k, p) => {
                json!(["ref", if k.to_mutable_lossy()==Mutability::Mut {"m"} else {"s"}, self.place(p, l)])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared | BorrowKind::Fake(_) => "s",
                    BorrowKind::Mut { .. } => "m",
                };
                json!(["ref", m, self.place(p, l)])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p, l)]]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(l).unwrap();
                json!(["discr", self.place(p, l), self.ty(t)])
            }
            Rvalue::Len(p) => json!(["len", self.place(p, l)]),
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(l).unwrap();
                json!(["bin", format!("{:?}", op), self.operand(a, l), self.operand(b, l), self.ty(t)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(l).unwrap();
                json!(["cbin", format!("{:?}", op), self.operand(a, l), self.operand(b, l), self.ty(t)])
            }
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a, l)]),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(l).unwrap();
                json!(["cast", format!("{:?}", k), self.operand(o, l), self.ty(st), self.ty(*t)])
            }
            Rvalue::ThreadLocalRef(d) => {
                let did = rustc_internal::internal(self.tcx, d.def_id());
                let p = self.tcx.def_path_str(did);
                self.statics.insert(p.clone());
                json!(["unk", format!("thread local {}", p)])
            }
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o, l), n.eval_target_usize().ok()]),
            Rvalue::Aggregate(k, os) => {
                let ops = self.operands(os, l);
                match k {
                    AggregateKind::Array(_) => json!(["agg", "arr", ops]),
                    AggregateKind::Tuple => json!(["agg", "tuple", ops]),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(d.clone(), a.clone()));
                        json!(["agg", "adt", ops, self.ty(t), v.to_index()])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(d.clone(), a.clone());
                        json!(["agg", "clo", ops, self.ty(t)])
                    }
                    AggregateKind::RawPtr(..) => json!(["agg", "rawptr", ops]),
                    _ => json!(["agg", "other", ops]),
                }
            }
            other => json!(["unk", format!("{:?}", other).chars().take(80).collect::<String>()]),
        }
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> Value {
        let itcx = self.tcx;
        let did = rustc_internal::internal(itcx, d.def_id());
        let path = itcx.def_path_str(did);
        let targs = self.args(a);
        let inst = Instance::resolve(d, a).ok();
        let trait_name = itcx.trait_of_assoc(did).map(|t| itcx.def_path_str(t));
        let mut rpath = Value::Null;
        let mut rargs = Value::Null;
        let mut key = Value::Null;
        let mut kind = "none";
        if let Some(i) = inst {
            kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let rdid = rustc_internal::internal(itcx, i.def.def_id());
            rpath = json!(itcx.def_path_str(rdid));
            let ra = i.args();
            rargs = json!(self.args(&ra));
            if kind != "virtual" {
                key = json!(self.want(i));
            }
        }
        // default body of an Iterator adaptor or consumer
        let mut raw = Value::Null;
        if let Some(tn) = &trait_name {
            let name = itcx.item_name(did).to_string();
            let iter_ok = tn.ends_with("iter::Iterator") && name != "next" && name != "size_hint";
            if iter_ok && itcx.is_mir_available(did) {
                let iargs = rustc_internal::internal(itcx, a.clone());
                let mi = mty::Instance::new_raw(did, itcx.erase_and_anonymize_regions(iargs));
                let ri: Instance = rustc_internal::stable(mi);
                raw = json!(self.want(ri));
            }
        }
        let name = itcx.item_name(did).to_string();
        // a model of the std function
        let mut model = Value::Null;
        if let Some(i) = inst {
            let rdid = rustc_internal::internal(itcx, i.def.def_id());
            let rp = itcx.def_path_str(rdid);
            if let Some(m) = self.model_for(&rp, &i) {
                model = json!(self.want(m));
            }
        }
        json!({"path":path,"name":name,"trait":trait_name,"targs":targs,"kind":kind,"rpath":rpath,
               "rargs":rargs,"inst":key,"raw":raw,"model":model})
    }
    /// generic function of the models crate that stands for a std function:
    /// its name is the std path with everything but letters and digits as `_`
    fn model_for(&mut self, rpath: &str, i: &Instance) -> Option<Instance> {
        let itcx = self.tcx;
        let mut want = String::new();
        for c in rpath.chars() {
            if c.is_ascii_alphanumeric() {
                want.push(c.to_ascii_lowercase())
            } else if !want.ends_with('_') {
                want.push('_')
            }
        }
        let want = want.trim_matches('_').to_string();
        let did = *MODELS.with(|m| m.borrow().get(&want).cloned()).as_ref()?;
        let iargs = rustc_internal::internal(itcx, i.args());
        // same type arguments in the same order, lifetimes dropped
        let g = itcx.generics_of(did);
        let tys: Vec<_> = iargs.types().collect();
        let need = g.own_params.iter().filter(|p| matches!(p.kind, mty::GenericParamDefKind::Type { .. })).count();
        if need > tys.len() {
            return None;
        }
        let mut k = 0;
        let args = mty::GenericArgs::for_item(itcx, did, |p, _| match p.kind {
            mty::GenericParamDefKind::Lifetime => itcx.lifetimes.re_erased.into(),
            _ => {
                let t = tys[k];
                k += 1;
                t.into()
            }
        });
        let mi = mty::Instance::new_raw(did, args);
        Some(rustc_internal::stable(mi))
    }
    /// the constructor function of a tuple struct or variant of another crate
    fn ctor(&mut self, key: &str, i: Instance) {
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let rustc_hir::def::DefKind::Ctor(of, rustc_hir::def::CtorKind::Fn) = self.tcx.def_kind(did) else { return };
        let Some(sig) = i.ty().kind().fn_sig() else { return };
        let sig = sig.skip_binder();
        let vi = match of {
            rustc_hir::def::CtorOf::Struct => 0,
            rustc_hir::def::CtorOf::Variant => {
                let v = self.tcx.parent(did);
                let ad = self.tcx.adt_def(self.tcx.parent(v));
                ad.variant_index_with_id(v).as_usize()
            }
        };
        let rt = self.ty(sig.output());
        let mut locals = vec![rt];
        let mut ops = vec![];
        for (n, t) in sig.inputs().iter().enumerate() {
            locals.push(self.ty(*t));
            ops.push(json!(["m", [n + 1, []]]));
        }
        let path = self.tcx.def_path_str(did);
        let krate = self.tcx.crate_name(did.krate).to_string();
        self.fns.insert(
            key.to_string(),
            json!({"name":i.name(),"path":path,"krate":krate,"targs":[],"nargs":ops.len(),"locals":locals,"spread":null,
                "blocks":[{"s":[["=",[0,[]],["agg","adt",ops,rt,vi],0]],"t":["return"],"l":0}],
                "names":{},"statics":[],"file":"","line":0}),
        );
    }
    fn dump(&mut self, i: Instance) {
        let key = inst_key(&i);
        if i.kind == InstanceKind::Intrinsic || !self.in_scope(&i) {
            return;
        }
        if !i.has_body() && i.kind == InstanceKind::Item {
            self.ctor(&key, i);
            return;
        }
        if std::env::var("MIRDUMP_TRACE").is_ok() { eprintln!("dump {} {}", key, self.tcx.def_path_str(rustc_internal::internal(self.tcx, i.def.def_id()))); }
        // some bodies of std have constants the compiler cannot evaluate here
        let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body()));
        let Ok(Some(body)) = body else { return };
        let l = body.locals().to_vec();
        self.statics.clear();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut ss = vec![];
            for s in &b.statements {
                let ln = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pv = self.place(p, &l);
                        let rv = self.rvalue(r, &l);
                        ss.push(json!(["=", pv, rv, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pv = self.place(place, &l);
                        ss.push(json!(["setd", pv, variant_index.to_index(), ln]));
                    }
                    _ => {}
                }
            }
            let tl = b.terminator.source_info.span.get_lines().start_line;
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&l).unwrap();
                    let br: Vec<Value> =
                        targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["switch", self.operand(discr, &l), br, targets.otherwise(), self.ty(dt)])
                }
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Resume | TerminatorKind::Abort => json!(["resume"]),
                TerminatorKind::Drop { place, target, .. } => {
                    json!(["drop", self.place(place, &l), target])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&l).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.callee(d, &a),
                        _ => json!({"dyn": self.operand(func, &l)}),
                    };
                    let ar = self.operands(args, &l);
                    let d = self.place(destination, &l);
                    let dty = destination.ty(&l).unwrap();
                    let dty = self.ty(dty);
                    json!(["call", f, ar, d, target, tl, dty])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::DivisionByZero(_) => "div0".to_string(),
                        o => format!("{:?}", o).chars().take(30).collect(),
                    };
                    let c = self.operand(cond, &l);
                    json!(["assert", c, expected, m, target, tl])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s":ss,"t":t,"l":tl}));
        }
        let ltys: Vec<usize> = l.iter().map(|d| self.ty(d.ty)).collect();
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let path = self.tcx.def_path_str(did);
        let mut names = serde_json::Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.to_string()).or_insert(json!(v.name));
                }
            }
        }
        let ga = i.args();
        let targs = self.args(&ga);
        let krate = self.tcx.crate_name(did.krate).to_string();
        let name = i.name();
        let mut statics: Vec<String> = self.statics.drain().collect();
        statics.sort();
        self.fns.insert(
            key,
            json!({"name":name,"path":path,"krate":krate,"targs":targs,"nargs":body.arg_locals().len(),
                "locals":ltys,"spread":body.spread_arg(),"blocks":blocks,"names":names,"statics":statics,
                "file":body.span.get_filename(),"line":body.span.get_lines().start_line}),
        );
    }
}

thread_local! {
    static MODELS: std::cell::RefCell<HashMap<String, rustc_span::def_id::DefId>> = Default::default();
}

fn collect_models(tcx: TyCtxt<'_>) {
    for k in tcx.crates(()) {
        if tcx.crate_name(*k).as_str() == "models" {
            for ch in tcx.module_children(k.as_def_id()) {
                if let rustc_hir::def::Res::Def(rustc_hir::def::DefKind::Fn, did) = ch.res {
                    MODELS.with(|m| m.borrow_mut().insert(ch.ident.name.to_string(), did));
                }
            }
        }
    }
}

/// statics of the crate, and what the compiler knows of its types
fn items(tcx: TyCtxt<'_>) -> (Vec<Value>, Vec<Value>) {
    use rustc_hir::def::DefKind;
    let mut statics = vec![];
    let mut adts = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Static { .. } => {
                let (path, constant) = static_info(tcx, did);
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(json!({"path":path,"constant":constant,"ty":ty.to_string(),
                    "mutable":tcx.is_mutable_static(did),"tls":tcx.is_thread_local_static(did)}));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = mty::TypingEnv::post_analysis(tcx, did);
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                let has = |n: &str| -> Value {
                    match tcx.get_diagnostic_item(rustc_span::Symbol::intern(n)).or_else(|| {
                        if n == "Sync" { tcx.lang_items().sync_trait() } else { None }
                    }) {
                        Some(tr) => json!(infcx.type_implements_trait(tr, [ty], penv).must_apply_modulo_regions()),
                        None => Value::Null,
                    }
                };
                let fields: Vec<Value> = tcx
                    .adt_def(did)
                    .all_fields()
                    .map(|f| json!([f.name.to_string(), tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string(), f.vis.is_public()]))
                    .collect();
                adts.push(json!({"path":tcx.def_path_str(did),"send":has("Send"),"sync":has("Sync"),
                    "freeze":ty.is_freeze(tcx, env),"fields":fields,
                    "lifetimes":tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, mty::GenericParamDefKind::Lifetime)).count(),
                    "reach":tcx.effective_visibilities(()).is_reachable(ldid)}));
            }
            _ => {}
        }
    }
    (statics, adts)
}

fn analyse(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let krate = rustc_public::local_crate().name.to_string();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !wanted.split(',').any(|c| c == krate) {
        return ControlFlow::Continue(());
    }
    collect_models(tcx);
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        fns: serde_json::Map::new(),
        local_crate: krate.clone(),
        statics: HashSet::new(),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    for item in rustc_public::all_local_items() {
        let did = rustc_internal::internal(tcx, item.def_id());
        let path = tcx.def_path_str(did);
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let k = cx.want(i);
            let vis = tcx.visibility(did).is_public();
            let reach = did
                .as_local()
                .map(|l| tcx.effective_visibilities(()).is_reachable(l))
                .unwrap_or(false);
            roots.push(json!({"path":path,"inst":k,"pub":vis,"reach":reach}));
        } else {
            generic.push(json!(path));
        }
    }
    let (statics, adts) = items(tcx);
    while let Some(i) = cx.queue.pop_front() {
        cx.dump(i);
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let v = json!({"crate":krate,"roots":roots,"generic":generic,"types":cx.types,"fns":cx.fns,"statics":statics,"adts":adts});
    std::fs::write(format!("{}/{}.json", out, krate), serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper the first argument is the path of rustc
    args.remove(0);
    // the model crate, for the crates that are dumped
    if let Ok(m) = std::env::var("MIRDUMP_MODELS") {
        let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
        if name.map_or(false, |n| wanted.split(',').any(|c| c == n)) {
            args.push("-Zunstable-options".to_string());
            args.push("--extern".to_string());
            args.push(format!("force:models={}", m));
        }
    }
    if let Err(e) = run_with_tcx!(&args, analyse) {
        match e {
            rustc_public::CompilerError::Interrupted(_) | rustc_public::CompilerError::Skipped => {}
            _ => std::process::exit(1),
        }
    }
}
