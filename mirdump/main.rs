// mirdump: a rustc driver that writes, as JSON, the monomorphic MIR that the
// compiler itself builds for the crate under verification and for everything
// reachable from it, together with the types, layouts, constants, call
// resolutions and vtable candidates the verifier needs.  Nothing is rewritten:
// bodies are rustc_public's serialisation of rustc's own MIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};

struct Cx {
    tys: BTreeMap<usize, Value>,
    tyq: VecDeque<Ty>,
    seen_ty: HashSet<usize>,
    q: VecDeque<Instance>,
    seen: HashSet<String>,
    fns: BTreeMap<String, Value>,
    bodies: BTreeMap<String, String>,
    layouts: BTreeMap<usize, String>,
    allocs: BTreeMap<usize, Value>,
    seen_alloc: HashSet<usize>,
    stop: Vec<String>,
    // dyn type index -> concrete types coerced to it
    coerce: BTreeMap<usize, Vec<Ty>>,
    // virtual fn defs seen: (fndef ty, self dyn ty)
    virt: Vec<(Ty, usize)>,
    virt_seen: HashSet<usize>,
}

fn tid(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}
fn aid(a: AllocId) -> usize {
    serde_json::to_value(a).unwrap().as_u64().unwrap() as usize
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let i = tid(t);
        if self.seen_ty.insert(i) {
            self.tyq.push_back(t);
        }
        i
    }
    fn inst(&mut self, i: Instance) -> Value {
        let name = i.name();
        let m = i.mangled_name();
        let kind = match i.kind {
            InstanceKind::Item => json!("Item"),
            InstanceKind::Intrinsic => json!("Intrinsic"),
            InstanceKind::Virtual { idx } => json!({ "Virtual": idx }),
            InstanceKind::Shim => json!("Shim"),
            _ => json!("Intrinsic"),
        };
        let stop = self.stop.iter().any(|p| name.starts_with(p.as_str()));
        if !stop
            && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim)
            && self.seen.insert(m.to_string())
        {
            self.q.push_back(i);
        }
        json!({"name": name.to_string(), "sym": m.to_string(), "kind": kind, "empty_shim": i.is_empty_shim()})
    }
    fn alloc(&mut self, id: AllocId) {
        let k = aid(id);
        if !self.seen_alloc.insert(k) {
            return;
        }
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                for (_, p) in a.provenance.ptrs.iter() {
                    self.alloc(p.0);
                }
                json!({ "Memory": a })
            }
            GlobalAlloc::Static(s) => {
                let init = s.eval_initializer();
                let t = self.ty(s.ty());
                match init {
                    Ok(a) => {
                        for (_, p) in a.provenance.ptrs.iter() {
                            self.alloc(p.0);
                        }
                        json!({"Static": s.name().to_string(), "ty": t, "init": a})
                    }
                    Err(_) => json!({"Static": s.name().to_string(), "ty": t}),
                }
            }
            GlobalAlloc::Function(i) => {
                let x = self.inst(i);
                json!({ "Function": x })
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                json!({ "VTable": t })
            }
            GlobalAlloc::TypeId { ty } => {
                let t = self.ty(ty);
                json!({ "TypeId": t })
            }
        };
        self.allocs.insert(k, v);
    }
    fn dump_ty(&mut self, t: Ty) {
        let k = t.kind();
        let mut v = json!({});
        if let TyKind::RigidTy(r) = &k {
            match r {
                RigidTy::Bool => v = json!({"k":"bool"}),
                RigidTy::Char => v = json!({"k":"char"}),
                RigidTy::Int(i) => v = json!({"k":"int","w": i.num_bytes()*8}),
                RigidTy::Uint(i) => v = json!({"k":"uint","w": i.num_bytes()*8}),
                RigidTy::Float(_) => v = json!({"k":"float"}),
                RigidTy::Pat(t, _) => v = json!({"k":"pat","e":self.ty(*t)}),
                RigidTy::Str => v = json!({"k":"str"}),
                RigidTy::Never => v = json!({"k":"never"}),
                RigidTy::Array(e, n) => {
                    v = json!({"k":"array","e":self.ty(*e),"n": n.eval_target_usize().ok()})
                }
                RigidTy::Slice(e) => v = json!({"k":"slice","e":self.ty(*e)}),
                RigidTy::RawPtr(e, m) => {
                    v = json!({"k":"ptr","e":self.ty(*e),"mut":*m==Mutability::Mut})
                }
                RigidTy::Ref(_, e, m) => {
                    v = json!({"k":"ref","e":self.ty(*e),"mut":*m==Mutability::Mut})
                }
                RigidTy::Tuple(ts) => {
                    let f: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    v = json!({"k":"tuple","f":f})
                }
                RigidTy::Adt(d, a) => {
                    let mut vs = vec![];
                    for va in d.variants() {
                        let di = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(va.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in va.fields() {
                            let ft = self.ty(f.ty_with_args(a));
                            fs.push(json!([f.name.to_string(), ft]));
                        }
                        vs.push(json!({"name":va.name().to_string(),"discr":di,"f":fs}));
                    }
                    let mut args = vec![];
                    for g in a.0.iter() {
                        match g {
                            GenericArgKind::Type(t) => args.push(json!(self.ty(*t))),
                            GenericArgKind::Const(c) => {
                                args.push(json!({"const": c.eval_target_usize().ok()}))
                            }
                            _ => {}
                        }
                    }
                    let kk = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    v = json!({"k":kk,"def":d.name().to_string(),"box":d.is_box(),"v":vs,"args":args});
                    if kk == "enum" {
                        if let Some(dt) = k.discriminant_ty() {
                            v["dty"] = json!(self.ty(dt));
                        }
                    }
                }
                RigidTy::FnDef(d, a) => {
                    let mut args = vec![];
                    let mut selfty = None;
                    for g in a.0.iter() {
                        if let GenericArgKind::Type(t) = g {
                            if selfty.is_none() {
                                selfty = Some(*t);
                            }
                            args.push(self.ty(*t));
                        }
                    }
                    v = json!({"k":"fndef","def":d.name().to_string(),"args":args});
                    match Instance::resolve(*d, a) {
                        Ok(i) => {
                            if let InstanceKind::Virtual { .. } = i.kind {
                                if self.virt_seen.insert(tid(t)) {
                                    self.virt.push((t, tid(selfty.unwrap())));
                                }
                            }
                            v["inst"] = self.inst(i);
                            if let InstanceKind::Intrinsic = i.kind {
                                v["intrinsic"] =
                                    json!(i.intrinsic_name().map(|s| s.to_string()));
                            }
                        }
                        Err(e) => v["err"] = json!(format!("{:?}", e)),
                    }
                }
                RigidTy::Closure(d, a) => {
                    let mut ups = vec![];
                    // closure args: [parent.., kind_ty, sig_fn_ptr, upvars_tuple]
                    if let Some(GenericArgKind::Type(u)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                            for x in ts.iter() {
                                ups.push(self.ty(*x));
                            }
                        }
                    }
                    v = json!({"k":"closure","def":d.name().to_string(),"f":ups});
                }
                RigidTy::FnPtr(_) => v = json!({"k":"fnptr"}),
                RigidTy::Dynamic(p, _) => {
                    let tn = match p.first() {
                        Some(Binder { value: ExistentialPredicate::Trait(tr), .. }) => {
                            tr.def_id.name().to_string()
                        }
                        _ => "".into(),
                    };
                    v = json!({"k":"dyn","trait":tn});
                }
                other => v = json!({"k":"other","s":format!("{:?}",other)}),
            }
        } else {
            v = json!({"k":"nonrigid","s":format!("{:?}",k)});
        }
        if let Ok(l) = t.layout() {
            self.layouts.insert(tid(t), serde_json::to_string(&l.shape()).unwrap());
        }
        v["s"] = json!(format!("{}", t));
        self.tys.insert(tid(t), v);
    }
    fn record_unsize(&mut self, src: Ty, dst: Ty) {
        let (mut s, mut d) = (src, dst);
        for _ in 0..6 {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = d.kind() {
                if !matches!(s.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                    let e = self.coerce.entry(tid(d)).or_default();
                    if !e.iter().any(|x| *x == s) {
                        e.push(s);
                    }
                }
                return;
            }
            let peel = |t: Ty| -> Option<Ty> {
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Ref(_, e, _)) => Some(e),
                    TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                    TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| g.ty().copied()),
                    _ => None,
                }
            };
            match (peel(s), peel(d)) {
                (Some(a), Some(b)) => {
                    s = a;
                    d = b;
                }
                _ => return,
            }
        }
    }
}

struct V<'a> {
    cx: &'a mut Cx,
    locals: Vec<LocalDecl>,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.cx.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.cx.ty(c.const_.ty());
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in a.provenance.ptrs.iter() {
                self.cx.alloc(p.0);
            }
        }
        self.super_const_operand(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, dst) = r {
            if let Ok(s) = op.ty(&self.locals) {
                self.cx.record_unsize(s, *dst);
            }
        }
        if let Ok(t) = r.ty(&self.locals) {
            self.cx.ty(t);
        }
        if let Rvalue::Aggregate(AggregateKind::Adt(d, _, a, _, _), _) = r {
            self.cx.ty(d.ty_with_args(a));
        }
        self.super_rvalue(r, l)
    }
}

fn process(cx: &mut Cx, i: Instance, local: bool) {
    let Some(body) = i.body() else {
        cx.fns.insert(
            i.mangled_name().to_string(),
            json!({"name": i.name().to_string(), "def": i.def.name().to_string(), "nobody": true}),
        );
        return;
    };
    let locals = body.locals().to_vec();
    for l in &locals {
        cx.ty(l.ty);
    }
    {
        let mut v = V { cx, locals: locals.clone() };
        v.visit_body(&body);
    }
    // aggregate adt types are recovered from the destination place's type
    let mut dbg = vec![];
    for d in &body.var_debug_info {
        if let Some(l) = d.local() {
            dbg.push(json!([l, d.name.to_string()]));
        }
    }
    let sp = body.span;
    cx.bodies.insert(i.mangled_name().to_string(), serde_json::to_string(&body).unwrap());
    // source lines of each terminator, for diagnostics only
    let mut lines = vec![];
    for bb in &body.blocks {
        lines.push(bb.terminator.source_info.span.get_lines().start_line);
    }
    cx.fns.insert(
        i.mangled_name().to_string(),
        json!({"name": i.name().to_string(), "def": i.def.name().to_string(), "dbg": dbg, "local": local,
               "file": sp.get_filename().to_string(), "line": sp.get_lines().start_line, "lines": lines}),
    );
}

fn dump(out: &str) {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty() && !s.starts_with('#'))
        .collect();
    let mut cx = Cx {
        tys: Default::default(),
        tyq: Default::default(),
        seen_ty: Default::default(),
        q: Default::default(),
        seen: Default::default(),
        fns: Default::default(),
        bodies: Default::default(),
        layouts: Default::default(),
        allocs: Default::default(),
        seen_alloc: Default::default(),
        stop,
        coerce: Default::default(),
        virt: Default::default(),
        virt_seen: Default::default(),
    };
    let mut roots = vec![];
    let mut locals = HashSet::new();
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if item.requires_monomorphization() {
                    continue;
                }
                if let Ok(i) = Instance::try_from(item) {
                    let m = i.mangled_name().to_string();
                    roots.push(json!({"name": i.name().to_string(), "sym": m}));
                    locals.insert(m.clone());
                    if cx.seen.insert(m) {
                        cx.q.push_back(i);
                    }
                }
            }
            _ => {}
        }
    }
    let mut vt: BTreeMap<(usize, usize), Value> = BTreeMap::new();
    let n = std::env::var("MIRDUMP_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(20000usize);
    loop {
        let mut progress = false;
        while let Some(i) = cx.q.pop_front() {
            progress = true;
            let l = locals.contains(&i.mangled_name().to_string());
            process(&mut cx, i, l);
            if cx.fns.len() > n {
                panic!("too many functions");
            }
        }
        while let Some(t) = cx.tyq.pop_front() {
            progress = true;
            cx.dump_ty(t);
        }
        let virt = cx.virt.clone();
        let coerce = cx.coerce.clone();
        for (ft, dynty) in virt {
            if let Some(cands) = coerce.get(&dynty) {
                for c in cands {
                    let key = (tid(ft), tid(*c));
                    if vt.contains_key(&key) {
                        continue;
                    }
                    progress = true;
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
                        let mut a2 = a.clone();
                        for g in a2.0.iter_mut() {
                            if let GenericArgKind::Type(_) = g {
                                *g = GenericArgKind::Type(*c);
                                break;
                            }
                        }
                        if let Ok(i) = Instance::resolve(d, &a2) {
                            let x = cx.inst(i);
                            cx.ty(*c);
                            vt.insert(key, x);
                        } else {
                            vt.insert(key, Value::Null);
                        }
                    }
                }
            }
        }
        if !progress {
            break;
        }
    }
    let vtj: Vec<Value> = vt.into_iter().map(|((f, c), v)| json!([f, c, v])).collect();
    let co: Vec<Value> =
        cx.coerce.iter().map(|(d, ts)| json!([d, ts.iter().map(|t| tid(*t)).collect::<Vec<_>>()])).collect();
    let tys: serde_json::Map<String, Value> =
        cx.tys.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let fns: serde_json::Map<String, Value> = cx.fns.into_iter().collect();
    let mut al: serde_json::Map<String, Value> = Default::default();
    for (k, v) in cx.allocs {
        al.insert(k.to_string(), v);
    }
    let o = json!({"tys": tys, "fns": fns, "allocs": al, "roots": roots, "vtable": vtj, "coerce": co});
    let mut t = serde_json::to_string(&o).unwrap();
    // bodies and layouts may hold 128-bit integers, which serde_json's Value cannot: append them as text
    assert!(t.pop() == Some('}'));
    t.push_str(",\"bodies\":{");
    t.push_str(
        &cx.bodies.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect::<Vec<_>>().join(","),
    );
    t.push_str("},\"layouts\":{");
    t.push_str(
        &cx.layouts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
    );
    t.push_str("}}");
    std::fs::write(out, t).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let r = rustc_public::run!(&args, || -> ControlFlow<(), ()> {
        dump(&out);
        ControlFlow::Continue(())
    });
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1)
        }
    }
}
