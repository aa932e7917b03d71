//! rustc driver used as RUSTC_WORKSPACE_WRAPPER for the harness crate: dumps the monomorphised MIR
//! reachable from the harness' `case_*` functions as JSON.  Nothing is executed or code-generated.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::mir::visit::{MirVisitor, Location};
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value, Map};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    fns: Vec<Value>,
    types: HashMap<usize, Value>,
    ty_queue: Vec<Ty>,
    seen_ty: HashSet<Ty>,
    consts: HashMap<usize, Value>,
    skip: Vec<String>,
    handles: HashMap<String, FnDef>,
    iters: HashMap<usize, Value>,
    intos: HashMap<usize, Value>,
    /// trait object type -> the types that become it
    dyns: HashMap<Ty, Vec<Ty>>,
    virts: Vec<(usize, FnDef, GenericArgs)>,
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.inst_ids.get(&i) { return *n }
        let n = self.inst_ids.len();
        self.inst_ids.insert(i, n);
        self.queue.push_back(i);
        n
    }
    fn ty(&mut self, t: Ty) -> usize {
        if self.seen_ty.insert(t) { self.ty_queue.push(t) }
        ix(&t)
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        Value::Array(a.0.iter().filter_map(|x| match x {
            GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
            GenericArgKind::Const(c) => Some(json!(format!("{:?}", c))),
            GenericArgKind::Lifetime(_) => None,
        }).collect())
    }
    fn dump_ty(&mut self, t: Ty) {
        let k = t.kind();
        let name = format!("{}", t);
        let v = match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":true}),
                RigidTy::Uint(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":false}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let a = self.args(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(json!([f.name.to_string(), self.ty(ft)]));
                        }
                        let d = if kind == "enum" { json!(def.discriminant_for_variant(v.idx()).val.to_string()) } else { Value::Null };
                        vs.push(json!({"name": v.name().to_string(), "fields": fs, "discr": d}));
                    }
                    json!({"k":"adt","adt":kind,"def":def.name().to_string(),"args":a,"variants":vs,"box":def.is_box()})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(t, c) => { let e = self.ty(t); json!({"k":"array","elem":e,"len":c.eval_target_usize().ok()}) }
                RigidTy::Slice(t) => { let e = self.ty(t); json!({"k":"slice","elem":e}) }
                RigidTy::RawPtr(t, m) => { let e = self.ty(t); json!({"k":"ptr","elem":e,"mut":m==Mutability::Mut}) }
                RigidTy::Ref(_, t, m) => { let e = self.ty(t); json!({"k":"ref","elem":e,"mut":m==Mutability::Mut}) }
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let c = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","def":def.name().to_string(),"args":a,"call":c})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let ups: Vec<Value> = match closure_upvars(&args) { Some(u) => u.into_iter().map(|t| json!(self.ty(t))).collect(), None => vec![] };
                    let kind = args.0.iter().rev().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).nth(2);
                    let by_ref = match kind.map(|t| t.kind()) { Some(TyKind::RigidTy(RigidTy::Int(IntTy::I32))) => false, _ => true };
                    let c = Instance::resolve_closure(def, &args, if by_ref { ClosureKind::FnMut } else { ClosureKind::FnOnce }).ok().map(|i| self.inst(i));
                    json!({"k":"closure","def":def.name().to_string(),"upvars":ups,"call":c,"by_ref":by_ref})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => { let e: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","elems":e}) }
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"nonrigid"}),
        };
        let mut v = v;
        v["name"] = json!(name);
        // drop glue
        if !matches!(v["k"].as_str().unwrap(), "bool"|"char"|"int"|"float"|"ptr"|"ref"|"fndef"|"fnptr"|"never"|"str"|"nonrigid") {
            let g = Instance::resolve_drop_in_place(t);
            if !g.is_empty_shim() { v["needs_drop"] = json!(true); }
        }
        self.types.insert(ix(&t), v);
    }
    fn const_val(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => json!({"zst":true}),
            ConstantKind::Allocated(a) => self.decode(t, a, 0).unwrap_or_else(|| json!({"opaque":true})),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => json!({"int":n.to_string()}), _ => json!({"opaque":true}) },
            _ => json!({"opaque":true}),
        }
    }
    fn read(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..len).rev() { v = (v << 8) | (a.bytes.get(off+i).copied()?? as u128); }
        Some(v)
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> Option<Value> {
        let k = t.kind();
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        match k.rigid()? {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => Some(json!({"int": self.read(a, off, size)?.to_string()})),
            RigidTy::Int(_) => {
                let v = self.read(a, off, size)?;
                let sh = 128 - size*8;
                let s = ((v << sh) as i128) >> sh;
                Some(json!({"int": s.to_string()}))
            }
            RigidTy::Float(_) => Some(json!({"opaque":true})),
            RigidTy::Tuple(ts) => {
                let offs = match &shape.fields { rustc_public::abi::FieldsShape::Arbitrary{offsets} => offsets.clone(), _ => vec![] };
                let mut fs = vec![];
                for (i, ft) in ts.iter().enumerate() { fs.push(self.decode(*ft, a, off + offs.get(i).map(|o| o.bytes()).unwrap_or(0))?); }
                Some(json!({"agg":0,"fields":fs}))
            }
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().ok()?;
                if n > 64 { return None }
                let es = et.layout().ok()?.shape().size.bytes();
                let mut fs = vec![];
                for i in 0..n as usize { fs.push(self.decode(*et, a, off + i*es)?); }
                Some(json!({"array":fs}))
            }
            RigidTy::Adt(def, args) => {
                use rustc_public::abi::*;
                let variants = def.variants();
                let (idx, offs) = match &shape.variants {
                    VariantsShape::Single{index} => (ix(index), match &shape.fields { FieldsShape::Arbitrary{offsets} => offsets.clone(), _ => vec![] }),
                    VariantsShape::Multiple{tag, tag_encoding, tag_field, variants: vfs} => {
                        let tag_off = match &shape.fields { FieldsShape::Arbitrary{offsets} => offsets[*tag_field].bytes(), _ => 0 };
                        let prim = match tag { Scalar::Initialized{value,..} => *value, Scalar::Union{value} => *value };
                        let tsize = match prim { Primitive::Int{length,..} => length.bits()/8, _ => 8 };
                        let has_prov = a.provenance.ptrs.iter().any(|(o,_)| *o == off + tag_off);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = self.read(a, off+tag_off, tsize)?;
                                let mut found = None;
                                for v in &variants {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize*8)) - 1 };
                                    if d & mask == raw { found = Some(ix(&v.idx())); }
                                }
                                found?
                            }
                            TagEncoding::Niche{untagged_variant, niche_variants, niche_start} => {
                                if has_prov { ix(untagged_variant) } else {
                                    let raw = self.read(a, off+tag_off, tsize)?;
                                    let lo = ix(niche_variants.start()) as u128; let hi = ix(niche_variants.end()) as u128;
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize*8)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if rel <= hi - lo { (lo + rel) as usize } else { ix(untagged_variant) }
                                }
                            }
                        };
                        (idx, vfs.get(idx).map(|v| v.offsets.clone()).unwrap_or_default())
                    }
                    VariantsShape::Empty => return None,
                };
                let v = variants.get(idx)?;
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(args);
                    fs.push(self.decode(ft, a, off + offs.get(i).map(|o| o.bytes()).unwrap_or(0)).unwrap_or_else(|| json!({"opaque":true})));
                }
                Some(json!({"agg":idx,"fields":fs}))
            }
            RigidTy::Ref(_, t2, _) | RigidTy::RawPtr(t2, _) => {
                // pointer to static memory: decode the pointee if it is sized memory
                let p = a.provenance.ptrs.iter().find(|(o,_)| *o == off);
                match p {
                    Some((_, prov)) => {
                        let ga: rustc_public::mir::alloc::GlobalAlloc = prov.0.into();
                        if let rustc_public::mir::alloc::GlobalAlloc::Memory(m) = ga {
                            if let Some(RigidTy::Str) = t2.kind().rigid() {
                                let len = self.read(a, off+8, 8)? as usize;
                                let b: Vec<u8> = m.bytes.iter().take(len).map(|x| x.unwrap_or(63)).collect();
                                return Some(json!({"str": String::from_utf8_lossy(&b)}));
                            }
                            if let Some(RigidTy::Slice(et)) = t2.kind().rigid() {
                                let len = self.read(a, off+8, 8)? as usize;
                                if len > 16 { return Some(json!({"opaque":true})); }
                                let es = et.layout().ok()?.shape().size.bytes();
                                let mut fs = vec![];
                                for i in 0..len { fs.push(self.decode(*et, &m, i*es)?); }
                                return Some(json!({"refto":{"array":fs},"slice":true}));
                            }
                            let inner = self.decode(*t2, &m, 0)?;
                            return Some(json!({"refto":inner}));
                        }
                        Some(json!({"opaque":true}))
                    }
                    None => Some(json!({"int": self.read(a, off, 8)?.to_string()})),
                }
            }
            RigidTy::FnPtr(_) => {
                let (_, prov) = a.provenance.ptrs.iter().find(|(o,_)| *o == off)?;
                let ga: rustc_public::mir::alloc::GlobalAlloc = prov.0.into();
                if let rustc_public::mir::alloc::GlobalAlloc::Function(i) = ga { let n = self.inst(i); return Some(json!({"fnptr": n})); }
                Some(json!({"opaque":true}))
            }
            _ => if size == 0 { Some(json!({"zst":true})) } else { None },
        }
    }
    fn trait_fn(&self, name: &str, t: Ty) -> Option<Instance> {
        let d = self.handles.get(name)?;
        Instance::resolve(*d, &GenericArgs(vec![GenericArgKind::Type(t)])).ok()
    }
    /// a pointer to `from` becomes a pointer to a trait object
    fn note_unsize(&mut self, from: Ty, to: Ty) {
        let (mut a, mut b) = (from, to);
        loop {
            match (a.kind(), b.kind()) {
                (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => {
                    if !matches!(a.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                        self.ty(a); self.ty(b);
                        let l = self.dyns.entry(b).or_default();
                        if !l.contains(&a) { l.push(a) }
                        let g = Instance::resolve_drop_in_place(a);
                        if !g.is_empty_shim() { self.inst(g); }
                    }
                    return
                }
                (TyKind::RigidTy(RigidTy::Adt(_, x)), TyKind::RigidTy(RigidTy::Adt(_, y))) => {
                    let f = |g: &GenericArgs| g.0.iter().find_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None });
                    match (f(&x), f(&y)) { (Some(x), Some(y)) => { a = x; b = y } _ => return }
                }
                (TyKind::RigidTy(RigidTy::Ref(_, x, _)), TyKind::RigidTy(RigidTy::Ref(_, y, _))) | (TyKind::RigidTy(RigidTy::RawPtr(x, _)), TyKind::RigidTy(RigidTy::RawPtr(y, _))) => { a = x; b = y }
                _ => return
            }
        }
    }
    /// the functions behind a virtual call, for every type that becomes the trait object
    fn virtuals(&mut self) -> HashMap<usize, Vec<usize>> {
        let mut r = HashMap::new();
        for (id, def, args) in self.virts.clone() {
            let Some(GenericArgKind::Type(d)) = args.0.first() else { continue };
            let mut l = vec![];
            for c in self.dyns.get(d).cloned().unwrap_or_default() {
                let mut a = args.0.clone(); a[0] = GenericArgKind::Type(c);
                if let Ok(i) = Instance::resolve(def, &GenericArgs(a)) { l.push(self.inst(i)) }
            }
            r.insert(id, l);
        }
        r
    }
    /// the instances of `next` / `next_back` of a type that is used as an iterator
    fn note_iter(&mut self, t: Ty) {
        let k = self.ty(t);
        if self.iters.contains_key(&k) { return }
        let mut o = Map::new();
        if let Some(i) = self.trait_fn("std::iter::Iterator::next", t) {
            o.insert("next".into(), json!(self.inst(i)));
            if let Some(TyKind::RigidTy(RigidTy::Adt(_, g))) = i.fn_abi().ok().map(|a| a.ret.ty.kind()) {
                if let Some(GenericArgKind::Type(item)) = g.0.first() { let n = self.ty(*item); o.insert("item".into(), json!(n)); self.note_glue(*item); }
            }
            if let Some(i) = self.trait_fn("std::iter::DoubleEndedIterator::next_back", t) { o.insert("next_back".into(), json!(self.inst(i))); }
        }
        self.iters.insert(k, Value::Object(o));
    }
    /// the drop glue of a type whose values are dropped by modelled functions
    fn note_glue(&mut self, t: Ty) {
        let g = Instance::resolve_drop_in_place(t);
        if !g.is_empty_shim() { self.inst(g); }
    }
    /// `into_iter` of a type that is given to collect / extend / sum
    fn note_into(&mut self, t: Ty) {
        let k = self.ty(t);
        if self.intos.contains_key(&k) { return }
        self.intos.insert(k, json!({}));
        if let Some(i) = self.trait_fn("std::iter::IntoIterator::into_iter", t) {
            if let Ok(a) = i.fn_abi() {
                let rt = a.ret.ty;
                let v = json!({"into_iter": self.inst(i), "iter": self.ty(rt)});
                self.intos.insert(k, v);
                self.note_iter(rt);
            }
        }
    }
    fn process(&mut self, i: Instance) {
        let id = self.inst_ids[&i];
        let name = i.name().to_string();
        let def_name = i.def.name().to_string();
        let mut o = Map::new();
        o.insert("id".into(), json!(id));
        o.insert("name".into(), json!(name));
        o.insert("def".into(), json!(def_name));
        o.insert("krate".into(), json!(i.def.krate().name.to_string()));
        let a = self.args(&i.args());
        o.insert("args".into(), a);
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual{..} => "virtual", InstanceKind::Shim => "shim" };
        o.insert("kind".into(), json!(kind));
        if let Some(n) = i.intrinsic_name() { o.insert("intrinsic".into(), json!(n.to_string())); }
        if def_name.contains("std::iter::Iterator") || def_name.contains("std::iter::DoubleEndedIterator") {
            if let Some(GenericArgKind::Type(t)) = i.args().0.iter().find(|x| matches!(x, GenericArgKind::Type(_))) {
                // provided method: the first argument of the trait is Self; an overriding method: take the type of its first parameter
                let t = if def_name.starts_with("std::iter::") { Some(*t) } else { i.fn_abi().ok().and_then(|a| a.args.get(0).map(|x| x.ty)) };
                if let Some(t) = t { self.note_iter(strip_ref(t)); let n = self.ty(strip_ref(t)); o.insert("selfty".into(), json!(n)); }
            }
        }
        if ["std::iter::FromIterator", "std::iter::Extend", "std::iter::Sum", "std::iter::Product", "std::iter::Iterator"].iter().any(|t| def_name.contains(t)) {
            let ts: Vec<Ty> = i.args().0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect();
            for t in ts { self.note_into(t); if def_name.contains("std::iter::Iterator") { self.note_glue(t); } }
        }
        let skip = self.skip.iter().any(|p| matches(p, &def_name));
        let is_virtual = matches!(i.kind, InstanceKind::Virtual{..} | InstanceKind::LlvmIntrinsic);
        if matches!(i.kind, InstanceKind::Virtual{..}) {
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = i.ty().kind() { self.virts.push((id, def, args)); }
        }
        let is_closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        o.insert("closure".into(), json!(is_closure));
        if !skip && !is_virtual && (i.kind == InstanceKind::Shim || i.has_body()) {
            if let Some(b) = i.body() {
                self.body(&b, &mut o);
                let sp = b.span;
                o.insert("file".into(), json!(sp.get_filename()));
                o.insert("line".into(), json!(sp.get_lines().start_line));
            }
        }
        self.fns.push(Value::Object(o));
    }
    fn body(&mut self, b: &Body, o: &mut Map<String, Value>) {
        let locals: Vec<Value> = b.locals().iter().map(|l| json!(self.ty(l.ty))).collect();
        o.insert("locals".into(), json!(locals));
        o.insert("argc".into(), json!(b.arg_locals().len()));
        o.insert("spread".into(), json!(b.spread_arg()));
        let mut col = Col { consts: vec![], tys: vec![] };
        col.visit_body(b);
        for c in col.consts {
            let id = ix(&c.id);
            if !self.consts.contains_key(&id) { let v = self.const_val(&c); let t = ix(&c.ty()); self.consts.insert(id, json!({"ty":t,"v":v})); }
        }
        for t in col.tys { self.ty(t); }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(..) | StatementKind::SetDiscriminant{..} | StatementKind::Intrinsic(..) | StatementKind::StorageDead(..) => {
                        if let StatementKind::Assign(_, Rvalue::Aggregate(AggregateKind::Closure(def, args), _)) = &s.kind {
                            let t = Ty::new_closure(*def, args.clone()); self.ty(t);
                            stmts.push(json!({"s": serde_json::to_value(&s.kind).unwrap(), "cty": ix(&t)}));
                        } else if let StatementKind::Assign(_, Rvalue::Aggregate(AggregateKind::Adt(def, _, args, _, _), _)) = &s.kind {
                            let t = def.ty_with_args(args); self.ty(t);
                            stmts.push(json!({"s": serde_json::to_value(&s.kind).unwrap(), "cty": ix(&t)}));
                        } else {
                            if let StatementKind::Assign(_, Rvalue::Cast(_, op, _)) = &s.kind {
                                if let Ok(t) = op.ty(b.locals()) {
                                    if let StatementKind::Assign(_, Rvalue::Cast(_, _, to)) = &s.kind { self.note_unsize(t, *to); }
                                    // fn item / closure reified to a pointer
                                    let inst = match t.kind() {
                                        TyKind::RigidTy(RigidTy::FnDef(def, args)) => Instance::resolve_for_fn_ptr(def, &args).ok(),
                                        TyKind::RigidTy(RigidTy::Closure(def, args)) => Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok(),
                                        _ => None };
                                    let sty = self.ty(t);
                                    let n = inst.map(|i| self.inst(i));
                                    stmts.push(json!({"s": serde_json::to_value(&s.kind).unwrap(), "sty": sty, "reify": n}));
                                    continue;
                                }
                            }
                            stmts.push(json!({"s": serde_json::to_value(&s.kind).unwrap()}));
                        }
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let mut tj = json!({"t": serde_json::to_value(&t.kind).unwrap(), "line": t.source_info.span.get_lines().start_line});
            match &t.kind {
                TerminatorKind::Call { func, .. } => {
                    if let Ok(ft) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ft.kind() {
                            tj["callee_def"] = json!(def.name().to_string());
                            match Instance::resolve(def, &args) {
                                Ok(inst) => { let n = self.inst(inst); tj["callee"] = json!(n); }
                                Err(_) => {}
                            }
                        }
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    if let Ok(pt) = place.ty(b.locals()) {
                        let n = self.ty(pt);
                        tj["dropty"] = json!(n);
                        let g = Instance::resolve_drop_in_place(pt);
                        if !g.is_empty_shim() { let n = self.inst(g); tj["glue"] = json!(n); }
                    }
                }
                _ => {}
            }
            blocks.push(json!({"stmts": stmts, "term": tj}));
        }
        o.insert("blocks".into(), json!(blocks));
    }
}

fn ix<T: serde::Serialize>(t: &T) -> usize { serde_json::to_value(t).unwrap().as_u64().unwrap() as usize }

fn closure_upvars(args: &GenericArgs) -> Option<Vec<Ty>> {
    let last = args.0.last()?;
    if let GenericArgKind::Type(t) = last {
        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() { return Some(ts) }
    }
    None
}

fn strip_ref(t: Ty) -> Ty {
    if let TyKind::RigidTy(RigidTy::Ref(_, x, _)) = t.kind() { x } else { t }
}

fn matches(pat: &str, name: &str) -> bool {
    if let Some((a, b)) = pat.split_once('%') { return name.starts_with(a) && name.ends_with(b) }
    if let Some(p) = pat.strip_suffix('*') { name.starts_with(p) } else { name == pat }
}

struct Col { consts: Vec<MirConst>, tys: Vec<Ty> }
impl MirVisitor for Col {
    fn visit_mir_const(&mut self, c: &MirConst, _l: Location) { self.consts.push(c.clone()); }
    fn visit_ty(&mut self, t: &Ty, _l: Location) { self.tys.push(*t); }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let roots: Vec<String> = std::env::var("MIRDUMP_ROOTS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = Dump::default();
    if let Ok(f) = std::env::var("MIRDUMP_SKIP") {
        d.skip = std::fs::read_to_string(f).unwrap().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    }
    for item in rustc_public::all_local_items() {
        if item.name().to_string().ends_with("env::handles") {
            let b = item.expect_body();
            for bb in &b.blocks {
                if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                    if let Ok(ft) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = ft.kind() { d.handles.insert(def.name().to_string(), def); }
                    }
                }
            }
        }
    }
    let mut cases = vec![];
    for item in rustc_public::all_local_items() {
        let n = item.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("case_") && !n.contains('{') && (roots.is_empty() || roots.iter().any(|r| matches(r, &last))) {
            if let Ok(i) = Instance::try_from(item) { cases.push(json!({"name": last, "inst": d.inst(i)})); }
        }
    }
    let mut virt;
    loop {
        if let Some(i) = d.queue.pop_front() { d.process(i); }
        else if let Some(t) = d.ty_queue.pop() { d.dump_ty(t); }
        else {
            let n = d.inst_ids.len();
            virt = d.virtuals();
            if d.inst_ids.len() == n { break }
        }
    }
    let virt: Map<String, Value> = virt.into_iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    let dyns: Map<String, Value> = d.dyns.iter().map(|(k, v)| (ix(k).to_string(), json!(v.iter().map(|t| ix(t)).collect::<Vec<_>>()))).collect();
    d.fns.sort_by_key(|f| f["id"].as_u64().unwrap());
    let types: Map<String, Value> = d.types.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let intos: Map<String, Value> = d.intos.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let iters: Map<String, Value> = d.iters.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let consts: Map<String, Value> = d.consts.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let j = json!({"cases": cases, "iters": iters, "virt": virt, "dyns": dyns, "intos": intos, "fns": d.fns, "types": types, "consts": consts});
    std::fs::write(&out, serde_json::to_vec(&j).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    if crate_name.as_deref() == Some("harness") && std::env::var("MIRDUMP_OUT").is_ok() {
        let r = rustc_public::run!(&args, analyze);
        if r.is_err() { std::process::exit(1) }
    } else {
        struct N; impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
