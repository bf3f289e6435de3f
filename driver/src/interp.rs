//! Abstract interpreter over MIR bodies.
use crate::mem::*;
use crate::num::*;
use crate::term::*;
use rustc_public::abi::{FieldsShape, LayoutShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub struct Fb {
    pub name: String,
    pub body: Body,
    pub rpo: Vec<usize>,
    /// loop head -> blocks of the natural loop
    pub loops: HashMap<usize, HashSet<usize>>,
    pub sizes: Vec<i128>,
    pub aligns: Vec<u8>,
}

/// value of an operand
#[derive(Clone, Debug)]
pub enum Rv {
    S(Val),
    B(Vec<Seg>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EvK {
    Panic,
    Oob,
    Undef,
    SecretBranch,
    SecretAddr,
    Feature,
    Write,
    VarTime,
    Effect,
}

#[derive(Clone)]
pub struct Ev {
    pub k: EvK,
    pub stack: Vec<String>,
    pub loc: String,
    pub msg: String,
    pub s: Rc<Store>,
    /// the condition was lost track of
    pub vague: bool,
    pub st: Option<St>,
    pub c: Option<Cond>,
    /// properties the operation serves, besides that of the event
    pub also: Vec<String>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    L(L),
    T(T),
}

#[derive(Clone)]
pub struct Place_ {
    pub o: Option<ObjId>,
    pub off: Option<L>,
    pub lo: L,
    pub hi: L,
    pub ty: Ty,
    pub meta: Option<Val>,
    pub variant: Option<usize>,
}

pub struct X {
    pub m: M,
    pub fns: Vec<Instance>,
    fnmap: HashMap<String, FnId>,
    pub fnames: Vec<String>,
    bodies: HashMap<FnId, Option<Rc<Fb>>>,
    layouts: HashMap<Ty, Rc<LayoutShape>>,
    constcache: HashMap<MirConst, Vec<Seg>>,
    alloccache: HashMap<rustc_public::mir::alloc::AllocId, ObjId>,
    pub ev: Vec<Ev>,
    pub stack: Vec<(String, Option<Span>)>,
    pub steps: u64,
    pub limit: u64,
    pub kdims: u32,
    pub kset: Vec<T>,
    in_switch: bool,
    /// program point, for path conditions
    site: u64,
    /// branches decided on iteration numbers
    ksw: usize,
    pub kern: crate::kernel::Kernels,
    pub standalone: u32,
    pub seen_fns: HashSet<String>,
    /// names of functions defined in the crate itself
    pub own: HashSet<String>,
    pub n_blocks: u64,
    pub n_calls: u64,
    pub n_loops: u64,
    pub n_checks: u64,
    pub n_branches: u64,
    pub tfeat: HashMap<FnId, Vec<String>>,
    pub trace: bool,
    pub fmt: Vec<crate::intrin::FmtCall>,
    /// stop on branches that are not decided (summaries)
    pub nofork: bool,
    pub n_feat: u64,
    pub fstack: Vec<FnId>,
}

pub fn span_str(s: &Option<Span>) -> String {
    match s {
        Some(s) => format!("{}:{}", s.get_filename(), s.get_lines().start_line),
        None => String::new(),
    }
}
pub fn cl(l: &Lin) -> String {
    format!("{:?}", l)
}

impl X {
    pub fn new() -> X {
        let mi = rustc_public::target::MachineInfo::target();
        X {
            m: M {
                t: Terms::new(),
                consts: vec![],
                big_endian: matches!(mi.endian, rustc_public::target::Endian::Big),
                ptr: mi.pointer_width.bytes() as i128,
                nest: 0,
            },
            fns: vec![],
            fnmap: HashMap::new(),
            fnames: vec![],
            bodies: HashMap::new(),
            layouts: HashMap::new(),
            constcache: HashMap::new(),
            alloccache: HashMap::new(),
            ev: vec![],
            stack: vec![],
            steps: 0,
            limit: 30_000_000,
            kdims: 0,
            kset: vec![],
            in_switch: false,
            site: 0,
            ksw: 0,
            kern: Default::default(),
            standalone: 0,
            seen_fns: HashSet::new(),
            own: HashSet::new(),
            n_blocks: 0,
            n_calls: 0,
            n_loops: 0,
            n_checks: 0,
            n_branches: 0,
            tfeat: HashMap::new(),
            trace: std::env::var("BSA_TRACE").is_ok(),
            fmt: vec![],
            nofork: false,
            n_feat: 0,
            fstack: vec![],
        }
    }
    pub fn new_st(&self) -> St {
        St { fr: vec![Rc::new(vec![])], s: Rc::new(Store::default()), pc: vec![], imp: false, log: vec![], odd: vec![] }
    }
    pub fn fnid(&mut self, i: Instance) -> FnId {
        let key = i.mangled_name();
        if let Some(&f) = self.fnmap.get(&key) {
            return f;
        }
        let f = self.fns.len() as FnId;
        self.fns.push(i);
        self.fnmap.insert(key, f);
        let name = crate::checks::std_name(&i.name());
        self.fnames.push(name.clone());
        if i.def.krate().is_local {
            self.own.insert(name);
        }
        f
    }
    pub fn layout(&mut self, ty: Ty) -> Rc<LayoutShape> {
        if let Some(l) = self.layouts.get(&ty) {
            return l.clone();
        }
        let l = Rc::new(ty.layout().expect("layout").shape());
        self.layouts.insert(ty, l.clone());
        l
    }
    pub fn size(&mut self, ty: Ty) -> i128 {
        self.layout(ty).size.bytes() as i128
    }
    pub fn fb(&mut self, f: FnId) -> Option<Rc<Fb>> {
        if let Some(b) = self.bodies.get(&f) {
            return b.clone();
        }
        let inst = self.fns[f as usize];
        let r = if inst.has_body() { inst.body().map(|b| Rc::new(self.mkfb(f, b))) } else { None };
        self.bodies.insert(f, r.clone());
        r
    }
    fn mkfb(&mut self, f: FnId, body: Body) -> Fb {
        let n = body.blocks.len();
        let succ: Vec<Vec<usize>> = body
            .blocks
            .iter()
            .map(|b| match &b.terminator.kind {
                TerminatorKind::Goto { target } => vec![*target],
                TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
                TerminatorKind::Drop { target, .. } => vec![*target],
                TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
                TerminatorKind::Assert { target, .. } => vec![*target],
                _ => vec![],
            })
            .collect();
        let mut post = vec![];
        let mut color = vec![0u8; n];
        let mut back: Vec<(usize, usize)> = vec![];
        let mut st: Vec<(usize, usize)> = vec![(0, 0)];
        color[0] = 1;
        while let Some((b, i)) = st.pop() {
            if i < succ[b].len() {
                st.push((b, i + 1));
                let s = succ[b][i];
                if color[s] == 0 {
                    color[s] = 1;
                    st.push((s, 0));
                } else if color[s] == 1 {
                    back.push((b, s));
                }
            } else {
                color[b] = 2;
                post.push(b);
            }
        }
        let mut rpo = vec![usize::MAX; n];
        for (i, b) in post.iter().rev().enumerate() {
            rpo[*b] = i;
        }
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
        for b in 0..n {
            if color[b] == 2 {
                for &s in &succ[b] {
                    preds[s].push(b);
                }
            }
        }
        let mut loops: HashMap<usize, HashSet<usize>> = HashMap::new();
        for (t, h) in back {
            let set = loops.entry(h).or_default();
            set.insert(h);
            let mut w = vec![t];
            while let Some(x) = w.pop() {
                if set.insert(x) {
                    w.extend(preds[x].iter().cloned());
                }
            }
        }
        let sizes = body.locals().iter().map(|l| self.size(l.ty)).collect();
        let aligns = body.locals().iter().map(|l| self.layout(l.ty).abi_align.trailing_zeros() as u8).collect();
        Fb { name: self.fnames[f as usize].clone(), body, rpo, loops, sizes, aligns }
    }

    // ---------- events
    pub fn event(&mut self, k: EvK, st: &St, msg: String, vague: bool) {
        self.event_c(k, st, msg, vague, None)
    }
    pub fn event_c(&mut self, k: EvK, st: &St, msg: String, vague: bool, c: Option<Cond>) {
        let stack: Vec<String> = self.stack.iter().map(|x| x.0.clone()).collect();
        // innermost location inside the crate
        let loc = self
            .stack
            .iter()
            .rev()
            .map(|x| span_str(&x.1))
            .find(|l| l.contains("/repo/") || l.contains("src/") && !l.contains("/library/") && !l.contains("registry"))
            .unwrap_or_default();
        let mut vague = vague || st.imp;
        for (t, _) in st.s.facts.iter() {
            vague |= self.m.t.has_unk(*t);
        }
        if k != EvK::Panic {
            let n = self.ev.iter().filter(|e| e.k == k && e.loc == loc).count();
            if n >= 30 {
                return;
            }
        }
        let keep = Some(st.clone());
        self.ev.push(Ev { k, stack, loc, msg, s: st.s.clone(), vague, st: keep, c, also: vec![] });
    }
    pub fn set_loc(&mut self, sp: &Span) {
        if let Some(x) = self.stack.last_mut() {
            x.1 = Some(*sp);
        }
    }

    // ---------- constants
    pub fn alloc_segs(&mut self, a: &Allocation) -> Vec<Seg> {
        let n = a.bytes.len();
        let p = self.m.ptr as usize;
        let mut segs = vec![];
        let mut i = 0;
        let prov: HashMap<usize, _> = a.provenance.ptrs.iter().map(|x| (x.0, x.1)).collect();
        while i < n {
            let lo = self.m.t.lc(i as i128);
            if let Some(pr) = prov.get(&i) {
                let hi = self.m.t.lc((i + p) as i128);
                let mut o: u64 = 0;
                for j in 0..p {
                    let b = a.bytes[i + j].unwrap_or(0) as u64;
                    let sh = if self.m.big_endian { p - 1 - j } else { j };
                    o |= b << (8 * sh);
                }
                let v = self.global_ptr(pr.0, o as i128);
                segs.push(Seg { lo, hi, k: K::Cell(v) });
                i += p;
                continue;
            }
            let mut j = i;
            while j < n && !prov.contains_key(&j) && a.bytes[j].is_some() == a.bytes[i].is_some() {
                j += 1;
            }
            let hi = self.m.t.lc(j as i128);
            if a.bytes[i].is_none() {
                segs.push(Seg { lo, hi, k: K::Undef });
            } else {
                let v: Vec<u8> = a.bytes[i..j].iter().map(|x| x.unwrap()).collect();
                let k = if v.len() > 1 && v.iter().all(|&x| x == v[0]) {
                    K::Fill(self.m.t.k(8, v[0] as u128))
                } else if v.len() <= 16 {
                    let mut c = 0u128;
                    for (q, b) in v.iter().enumerate() {
                        c |= (*b as u128) << (8 * q);
                    }
                    K::Cell(Val::I(self.m.t.k(8 * v.len() as u32, c)))
                } else {
                    let arr = self.m.t.arr(ArrK::Const(v));
                    let d = self.m.t.lc(-(i as i128));
                    K::Src(arr, d)
                };
                segs.push(Seg { lo, hi, k });
            }
            i = j;
        }
        segs
    }
    fn global_ptr(&mut self, id: rustc_public::mir::alloc::AllocId, off: i128) -> Val {
        if let Some(o) = self.alloccache.get(&id) {
            let o = *o;
            return self.mkptr(o, off);
        }
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => Val::F(self.fnid(i)),
            GlobalAlloc::Memory(a) => {
                let al = a.align.trailing_zeros() as u8;
                let o = ObjId { f: CONSTF, i: self.m.consts.len() as u32 };
                self.alloccache.insert(id, o);
                let size = self.m.t.lc(a.bytes.len() as i128);
                self.m.consts.push(Rc::new(Obj { size, segs: vec![], al }));
                let segs = self.alloc_segs(&a);
                self.m.consts[o.i as usize] = Rc::new(Obj { size, segs, al });
                self.mkptr(o, off)
            }
            GlobalAlloc::Static(d) => {
                let o = ObjId { f: CONSTF, i: self.m.consts.len() as u32 };
                self.alloccache.insert(id, o);
                match d.eval_initializer() {
                    Ok(a) => {
                        let al = a.align.trailing_zeros() as u8;
                        let size = self.m.t.lc(a.bytes.len() as i128);
                        self.m.consts.push(Rc::new(Obj { size, segs: vec![], al }));
                        let segs = self.alloc_segs(&a);
                        self.m.consts[o.i as usize] = Rc::new(Obj { size, segs, al });
                    }
                    Err(_) => {
                        let size = self.m.t.lc(0);
                        self.m.consts.push(Rc::new(Obj { size, segs: vec![], al: 0 }));
                    }
                }
                self.mkptr(o, off)
            }
            _ => Val::Top,
        }
    }
    pub fn mkptr(&mut self, o: ObjId, off: i128) -> Val {
        let size = if o.f == CONSTF { self.m.consts[o.i as usize].size } else { unreachable!() };
        let lo = self.m.t.lc(0);
        let off = self.m.t.lc(off);
        Val::P(Ptr { o, off: Some(off), lo, hi: size })
    }
    fn constant(&mut self, c: &MirConst) -> Rs<Rv> {
        if let Some(s) = self.constcache.get(c) {
            return Ok(Rv::B(s.clone()));
        }
        let segs = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_segs(a),
            ConstantKind::ZeroSized => vec![],
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc_segs(a),
                TyConstKind::ZSTValue(_) => vec![],
                _ => {
                    let n = tc.eval_target_usize().map_err(|e| Er::Unsup(format!("const {:?}", e)))?;
                    let p = self.m.ptr;
                    let t = self.m.t.k(8 * p as u32, n as u128);
                    vec![self.m.scalar_seg(Val::I(t), p)]
                }
            },
            _ => return unsup("constant"),
        };
        self.constcache.insert(c.clone(), segs.clone());
        Ok(Rv::B(segs))
    }

    // ---------- values
    fn swap_be(&mut self, v: Val, n: i128) -> Val {
        if self.m.big_endian && n > 1 {
            if let Val::I(t) = v {
                return Val::I(self.m.bswap(t));
            }
        }
        v
    }
    /// scalar out of an operand value
    pub fn sc(&mut self, v: &Rv, n: i128) -> Val {
        match v {
            Rv::S(v) => *v,
            Rv::B(segs) => {
                if segs.len() == 1 {
                    if let K::Cell(v) = segs[0].k {
                        if matches!(v, Val::P(_) | Val::F(_)) {
                            return v;
                        }
                    }
                }
                if segs.iter().any(|s| self.m.t.lconst(s.lo).is_none() || self.m.t.lconst(s.hi).is_none()) {
                    let z = self.m.t.lc(0);
                    let v = match self.m.snapshot(segs, 0, segs.len(), z) {
                        Some(a) => Val::I(self.m.bytes(a, z, n)),
                        None => Val::Top,
                    };
                    return self.swap_be(v, n);
                }
                let mut ts = vec![];
                for s in segs.clone() {
                    let len = match (self.m.t.lconst(s.lo), self.m.t.lconst(s.hi)) {
                        (Some(a), Some(b)) => b - a,
                        _ => return Val::Top,
                    };
                    match s.k {
                        K::Cell(Val::I(t)) => ts.push(t),
                        K::Fill(t) => ts.extend(vec![t; len as usize]),
                        K::Src(a, d) => {
                            let p = self.m.t.ladd(d, s.lo);
                            ts.push(self.m.bytes(a, p, len));
                        }
                        _ => return Val::Top,
                    }
                }
                let t = self.m.t.concat(&ts);
                if self.m.t.w(t) as i128 != 8 * n {
                    return Val::Top;
                }
                self.swap_be(Val::I(t), n)
            }
        }
    }
    pub fn segs_of(&mut self, v: &Rv, n: i128) -> Vec<Seg> {
        match v {
            Rv::S(v) => {
                if n == 0 {
                    return vec![];
                }
                let v = self.swap_be(*v, n);
                vec![self.m.scalar_seg(v, n)]
            }
            Rv::B(s) => s.clone(),
        }
    }
    pub fn is_scalar_ty(&mut self, ty: Ty) -> bool {
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::FnPtr(_) => true,
                RigidTy::RawPtr(..) | RigidTy::Ref(..) => self.size(ty) == self.m.ptr,
                _ => false,
            },
            _ => false,
        }
    }
    pub fn k(&mut self, w: u32, c: u128) -> Val {
        Val::I(self.m.t.k(w, c))
    }
    pub fn pair(&mut self, a: Val, n1: i128, b: Val, off2: i128, n2: i128, size: i128) -> Rv {
        let a = self.swap_be(a, n1);
        let b = self.swap_be(b, n2);
        let s1 = self.m.scalar_seg(a, n1);
        let s2 = self.m.scalar_seg(b, n2);
        let d = self.m.t.lc(off2);
        let s2 = self.m.shift(s2, d);
        let mut v = vec![s1];
        if off2 > n1 {
            v.push(Seg { lo: s1.hi, hi: s2.lo, k: K::Undef });
        }
        v.push(s2);
        if off2 + n2 < size {
            let e = self.m.t.lc(size);
            v.push(Seg { lo: s2.hi, hi: e, k: K::Undef });
        }
        Rv::B(v)
    }
    pub fn fat(&mut self, a: Val, b: Val) -> Rv {
        let p = self.m.ptr;
        self.pair(a, p, b, p, p, 2 * p)
    }

    // ---------- places
    fn local_place(&mut self, st: &St, fb: &Fb, l: usize) -> Place_ {
        let o = ObjId { f: st.fr.len() as u16 - 1, i: l as u32 };
        let z = self.m.t.lc(0);
        let hi = self.m.t.lc(fb.sizes[l]);
        Place_ { o: Some(o), off: Some(z), lo: z, hi, ty: fb.body.locals()[l].ty, meta: None, variant: None }
    }
    pub fn place_at(&self, o: ObjId, lo: L, hi: L, ty: Ty) -> Place_ {
        Place_ { o: Some(o), off: Some(lo), lo, hi, ty, meta: None, variant: None }
    }
    pub fn deref(&mut self, st: &mut St, p: &Place_, to: Ty) -> Rs<Place_> {
        let ptr = self.m.ptr;
        let v = self.load(st, p, 0, ptr)?;
        let meta = if self.size(p.ty) == 2 * ptr { Some(self.load(st, p, ptr, ptr)?) } else { None };
        self.place_of(st, v, meta, to)
    }
    pub fn place_of(&mut self, _st: &mut St, v: Val, meta: Option<Val>, to: Ty) -> Rs<Place_> {
        let z = self.m.t.lc(0);
        Ok(match v {
            Val::P(p) => Place_ { o: Some(p.o), off: p.off, lo: p.lo, hi: p.hi, ty: to, meta, variant: None },
            _ => Place_ { o: None, off: None, lo: z, hi: z, ty: to, meta, variant: None },
        })
    }
    fn field_off(&mut self, ty: Ty, variant: Option<usize>, i: usize) -> i128 {
        let l = self.layout(ty);
        if let Some(v) = variant {
            if let VariantsShape::Multiple { variants, .. } = &l.variants {
                return variants[v].offsets[i].bytes() as i128;
            }
        }
        match &l.fields {
            FieldsShape::Arbitrary { offsets, .. } => offsets[i].bytes() as i128,
            FieldsShape::Array { stride, .. } => stride.bytes() as i128 * i as i128,
            _ => 0,
        }
    }
    pub fn field(&mut self, p: Place_, i: usize, fty: Ty) -> Place_ {
        let o = self.field_off(p.ty, p.variant, i);
        let off = p.off.map(|x| self.m.t.laddc(x, o));
        let (mut lo, mut hi) = (p.lo, p.hi);
        let unsized_ = self.layout(fty).is_unsized();
        if let (Some(x), false) = (off, unsized_) {
            let n = self.size(fty);
            lo = x;
            hi = self.m.t.laddc(x, n);
        }
        Place_ { o: p.o, off, lo, hi, ty: fty, meta: if unsized_ { p.meta } else { None }, variant: None }
    }
    pub fn elem_ty(ty: Ty) -> Option<Ty> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => Some(e),
            _ => None,
        }
    }
    pub fn int(&mut self, st: &mut St, v: Val) -> Option<L> {
        match v {
            Val::I(t) => {
                self.addr_use(st, t);
                Some(self.m.lift(st, t))
            }
            _ => None,
        }
    }
    fn addr_use(&mut self, st: &mut St, t: T) {
        if self.m.t.as_const(t).is_none() && self.m.t.secret(t) {
            let s = self.m.t.show(t);
            self.event_c(EvK::SecretAddr, st, format!("a memory address depends on {}", s), false, Some(Cond::T(t)));
        }
    }
    pub fn place(&mut self, st: &mut St, fb: &Fb, pl: &Place) -> Rs<Place_> {
        let mut p = self.local_place(st, fb, pl.local);
        for e in &pl.projection {
            p = match e {
                ProjectionElem::Deref => {
                    let to = match p.ty.kind().builtin_deref(true) {
                        Some(t) => t.ty,
                        None => return unsup(format!("deref of {:?}", p.ty)),
                    };
                    self.deref(st, &p, to)?
                }
                ProjectionElem::Field(i, t) => self.field(p, *i, *t),
                ProjectionElem::Index(l) => {
                    let ip = self.local_place(st, fb, *l);
                    let n = self.m.ptr;
                    let v = self.load(st, &ip, 0, n)?;
                    let e = match Self::elem_ty(p.ty) {
                        Some(e) => e,
                        None => return unsup("index"),
                    };
                    let es = self.size(e);
                    let i = self.int(st, v);
                    let off = match (p.off, i) {
                        (Some(o), Some(i)) => {
                            let d = self.m.t.lmul(i, es);
                            Some(self.m.t.ladd(o, d))
                        }
                        _ => None,
                    };
                    Place_ { o: p.o, off, lo: p.lo, hi: p.hi, ty: e, meta: None, variant: None }
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let e = Self::elem_ty(p.ty).unwrap();
                    let es = self.size(e);
                    let off = if *from_end {
                        let n = self.place_len(st, &p);
                        match (p.off, n) {
                            (Some(o), Some(n)) => {
                                let d = self.m.t.lmul(n, es);
                                let x = self.m.t.ladd(o, d);
                                Some(self.m.t.laddc(x, -(*offset as i128) * es))
                            }
                            _ => None,
                        }
                    } else {
                        p.off.map(|o| self.m.t.laddc(o, *offset as i128 * es))
                    };
                    Place_ { o: p.o, off, lo: p.lo, hi: p.hi, ty: e, meta: None, variant: None }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let e = Self::elem_ty(p.ty).unwrap();
                    let es = self.size(e);
                    let off = p.off.map(|o| self.m.t.laddc(o, *from as i128 * es));
                    let (ty, meta) = match p.ty.kind() {
                        TyKind::RigidTy(RigidTy::Array(..)) => {
                            let n = self.array_len(p.ty).unwrap_or(0);
                            let len = if *from_end { n - from - to } else { to - from };
                            (Ty::try_new_array(e, len).unwrap(), None)
                        }
                        _ => {
                            let m = match p.meta {
                                Some(Val::I(t)) => {
                                    let w = self.m.t.w(t);
                                    let c = self.m.t.k(w, (*from + *to) as u128);
                                    Some(Val::I(self.m.t.sub(t, c)))
                                }
                                x => x,
                            };
                            (p.ty, m)
                        }
                    };
                    Place_ { o: p.o, off, lo: p.lo, hi: p.hi, ty, meta, variant: None }
                }
                ProjectionElem::Downcast(v) => Place_ { variant: Some(vidx(v)), ..p },
                ProjectionElem::OpaqueCast(t) => Place_ { ty: *t, ..p },
                #[allow(unreachable_patterns)]
                _ => return unsup("projection"),
            };
        }
        Ok(p)
    }
    fn place_len(&mut self, st: &mut St, p: &Place_) -> Option<L> {
        match p.ty.kind() {
            TyKind::RigidTy(RigidTy::Array(..)) => self.array_len(p.ty).map(|n| self.m.t.lc(n as i128)),
            _ => match p.meta {
                Some(v) => self.int(st, v),
                None => None,
            },
        }
    }
    /// bounds check of an access; false when the path is dead
    pub fn check(&mut self, st: &mut St, o: ObjId, off: L, n: L, what: &str) -> Rs<()> {
        self.n_checks += 1;
        if self.m.t.lconst(n) == Some(0) {
            return Ok(());
        }
        let size = self.m.obj(st, o).size;
        let z = self.m.t.lc(0);
        let end = self.m.t.ladd(off, n);
        for (a, b) in [(z, off), (end, size)] {
            match self.m.le(st, a, b) {
                Some(true) => {}
                r => {
                    let d = self.m.t.lsub(b, a);
                    let l = self.m.t.l(d).clone();
                    let mut bad = st.clone();
                    let mut neg = lin_mul(&l, -1);
                    neg.c -= 1;
                    bad.store().add_ge(&neg);
                    let msg = format!(
                        "{} of {} byte(s) at offset {} of an object of {} byte(s)",
                        what,
                        self.m.t.show_lin(n, 2),
                        self.m.t.show_lin(off, 2),
                        self.m.t.show_lin(size, 2)
                    );
                    self.event(EvK::Oob, &bad, msg, false);
                    if r == Some(false) {
                        return Err(Er::Dead);
                    }
                    st.store().add_ge(&l);
                }
            }
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut St, p: &Place_, d: i128, n: i128) -> Rs<Val> {
        let (o, off) = match (p.o, p.off) {
            (Some(o), Some(off)) => (o, off),
            _ => return Ok(Val::Top),
        };
        let off = self.m.t.laddc(off, d);
        let nl = self.m.t.lc(n);
        self.check(st, o, off, nl, "read")?;
        let v = self.m.read_scalar(st, o, off, n, p.lo, p.hi)?;
        Ok(self.swap_be(v, n))
    }
    pub fn load_range(&mut self, st: &mut St, p: &Place_, n: L) -> Rs<Vec<Seg>> {
        if self.m.t.lconst(n) == Some(0) {
            return Ok(vec![]);
        }
        let (o, off) = match (p.o, p.off) {
            (Some(o), Some(off)) => (o, off),
            _ => {
                let z = self.m.t.lc(0);
                return Ok(vec![Seg { lo: z, hi: n, k: K::Top }]);
            }
        };
        self.check(st, o, off, n, "read")?;
        self.m.read_range(st, o, off, n)
    }
    pub fn store_range(&mut self, st: &mut St, p: &Place_, n: L, segs: &[Seg]) -> Rs<()> {
        if self.m.t.lconst(n) == Some(0) {
            return Ok(());
        }
        let o = match p.o {
            Some(o) => o,
            None => return unsup("write through an untracked pointer"),
        };
        if o.f == CONSTF {
            self.event(EvK::Effect, st, "write to a static".into(), false);
            return Err(Er::Dead);
        }
        match p.off {
            Some(off) => {
                self.check(st, o, off, n, "write")?;
                self.m.write_range(st, o, off, n, segs)
            }
            None => {
                let len = self.m.t.lsub(p.hi, p.lo);
                let z = self.m.t.lc(0);
                self.m.write_range(st, o, p.lo, len, &[Seg { lo: z, hi: len, k: K::Top }])
            }
        }
    }
    pub fn read_place(&mut self, st: &mut St, p: &Place_) -> Rs<Rv> {
        let n = self.size(p.ty);
        if self.is_scalar_ty(p.ty) {
            return Ok(Rv::S(self.load(st, p, 0, n)?));
        }
        let nl = self.m.t.lc(n);
        Ok(Rv::B(self.load_range(st, p, nl)?))
    }
    pub fn write_place(&mut self, st: &mut St, p: &Place_, v: &Rv) -> Rs<()> {
        let n = self.size(p.ty);
        if n == 0 {
            return Ok(());
        }
        let segs = self.segs_of(v, n);
        let nl = self.m.t.lc(n);
        self.store_range(st, p, nl, &segs)
    }
    pub fn operand(&mut self, st: &mut St, fb: &Fb, o: &Operand) -> Rs<Rv> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, fb, p)?;
                self.read_place(st, &pl)
            }
            Operand::Constant(c) => {
                let v = self.constant(&c.const_)?;
                let ty = c.const_.ty();
                if self.is_scalar_ty(ty) {
                    let n = self.size(ty);
                    return Ok(Rv::S(self.sc(&v, n)));
                }
                Ok(v)
            }
            Operand::RuntimeChecks(c) => {
                let b = match c {
                    RuntimeChecks::OverflowChecks => 1,
                    _ => 0,
                };
                Ok(Rv::S(self.k(8, b)))
            }
        }
    }
    pub fn operand_sc(&mut self, st: &mut St, fb: &Fb, o: &Operand) -> Rs<(Val, Ty)> {
        let ty = o.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
        let v = self.operand(st, fb, o)?;
        let n = self.size(ty);
        Ok((self.sc(&v, n), ty))
    }

    // ---------- conditions
    /// decide a one-bit term; Err(SplitT) when it is open
    pub fn decide(&mut self, st: &mut St, c: T) -> Rs<bool> {
        if let Some(k) = self.m.t.as_const(c) {
            return Ok(k & 1 == 1);
        }
        if let Some(&b) = st.s.facts.get(&c) {
            return Ok(b);
        }
        let n = self.m.t.not(c);
        if let Some(&b) = st.s.facts.get(&n) {
            return Ok(!b);
        }
        if let Some((l, neg)) = self.cond(st, c)? {
            // l >= 0 ?
            let l = st.s.apply(&l);
            let sw = self.in_switch && !l.v.is_empty();
            if sw && self.kset.iter().any(|k| st.s.dims.contains(k)) {
                self.ksw += 1;
            }
            if st.s.ge(&l) {
                if sw {
                    self.guard(st, l);
                }
                return Ok(!neg);
            }
            let mut m = lin_mul(&l, -1);
            m.c -= 1;
            if st.s.ge(&m) {
                if sw {
                    self.guard(st, m);
                }
                return Ok(neg);
            }
            return Err(Er::Split(l));
        }
        Err(Er::SplitT(c))
    }
    /// remember a branch condition that already holds
    fn guard(&mut self, st: &mut St, l: Lin) {
        let q = self.m.t.lin(l);
        if st.pc.last() != Some(&(self.site, q)) {
            st.pc.push((self.site, q));
        }
    }
    /// the condition as a sign test, possibly negated; equality may ask for a split first
    fn cond(&mut self, st: &mut St, c: T) -> Rs<Option<(Lin, bool)>> {
        let tt = self.m.t.terms[c as usize].clone();
        if tt.ps.len() != 1 || tt.ps[0].xs.len() != 1 {
            return Ok(None);
        }
        let neg = tt.ps[0].c == 1;
        let (a, off) = tt.ps[0].xs[0];
        match self.m.t.atoms[a as usize].clone() {
            Atom::Op { op: Op::Eq, args, .. } => {
                let (x, y) = (self.m.lift(st, args[0]), self.m.lift(st, args[1]));
                let d = self.m.t.lsub(x, y);
                let d = st.s.apply(self.m.t.l(d));
                if d.v.is_empty() {
                    let r = Lin { v: vec![], c: if d.c == 0 { 0 } else { -1 } };
                    return Ok(Some((r, neg)));
                }
                // both signs possible: ask which one first
                let md = lin_mul(&d, -1);
                if st.s.ge(&d) {
                    return Ok(Some((md, neg)));
                }
                if st.s.ge(&md) {
                    return Ok(Some((d, neg)));
                }
                let mut dm1 = md.clone();
                dm1.c -= 1;
                Err(Er::Split(dm1))
            }
            Atom::Op { op: Op::Ult, args, .. } => {
                let (x, y) = (self.m.lift(st, args[0]), self.m.lift(st, args[1]));
                let d = self.m.t.lsub(y, x);
                let mut d = self.m.t.l(d).clone();
                d.c -= 1;
                Ok(Some((d, neg)))
            }
            Atom::Op { op: Op::Slt, args, .. } => {
                let (x, y) = (self.slift(st, args[0])?, self.slift(st, args[1])?);
                let d = self.m.t.lsub(y, x);
                let mut d = self.m.t.l(d).clone();
                d.c -= 1;
                Ok(Some((d, neg)))
            }
            Atom::Op { op: Op::Feature, .. } | Atom::Op { op: Op::CtEq, .. } => Ok(None),
            _ => {
                // a single bit of a number
                if self.m.t.aw(a) == 1 {
                    return Ok(None);
                }
                let bit = self.m.t.slice(self.m.t.atom_term[a as usize], off, 1);
                let l = self.m.lift(st, bit);
                let mut d = self.m.t.l(l).clone();
                d.c -= 1;
                Ok(Some((d, neg)))
            }
        }
    }
    /// signed integer value
    pub fn slift(&mut self, st: &mut St, t: T) -> Rs<L> {
        let w = self.m.t.w(t);
        if let Some(c) = self.m.t.as_const(t) {
            return Ok(self.m.t.lc(sgn(c, w)));
        }
        let l = self.m.lift(st, t);
        let mut h = lin_mul(self.m.t.l(l), -1);
        h.c += (1i128 << (w - 1)) - 1;
        if st.s.ge(&h) {
            return Ok(l);
        }
        let mut g = lin_mul(&h, -1);
        g.c -= 1;
        if st.s.ge(&g) {
            return Ok(self.m.t.laddc(l, -(1i128 << w)));
        }
        Err(Er::Split(h))
    }

    // ---------- rvalues
    pub fn bool_val(&mut self, c: T) -> Val {
        Val::I(self.m.t.zext(c, 8))
    }
    fn signed(ty: Ty) -> bool {
        matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)))
    }
    pub fn ptr_addr(&mut self, st: &mut St, v: Val) -> Option<T> {
        match v {
            Val::I(t) => Some(t),
            Val::P(p) => {
                let off = p.off?;
                let w = 8 * self.m.ptr as u32;
                let base = self.m.t.sym(&format!("addr{}_{}", p.o.f, p.o.i), w);
                // objects live in the lower half of the address space, away from its ends
                if !st.s.dims.contains(&base) {
                    let s = st.store();
                    s.dims.insert(base);
                    s.add_ge(&Lin { v: vec![(base, 1)], c: -4096 });
                    s.add_ge(&Lin { v: vec![(base, -1)], c: (1i128 << (w - 2)) });
                }
                let e = self.m.t.l(off).clone();
                let o = self.m.t.mk_sum(w, e);
                Some(self.m.t.add(base, o))
            }
            _ => None,
        }
    }
    pub fn ptr_add(&mut self, st: &mut St, v: Val, delta: Val, es: i128, neg: bool) -> Rs<Val> {
        if es == 0 {
            return Ok(v);
        }
        match v {
            Val::P(mut p) => {
                let d = match delta {
                    Val::I(t) => {
                        self.addr_use(st, t);
                        Some(self.slift(st, t)?)
                    }
                    _ => None,
                };
                p.off = match (p.off, d) {
                    (Some(o), Some(d)) => {
                        let d = self.m.t.lmul(d, if neg { -es } else { es });
                        let r = self.m.t.ladd(o, d);
                        let e = st.s.apply(self.m.t.l(r));
                        Some(self.m.t.lin(e))
                    }
                    _ => None,
                };
                Ok(Val::P(p))
            }
            Val::I(t) => match delta {
                Val::I(d) => {
                    let w = self.m.t.w(t);
                    let c = self.m.t.k(w, es as u128);
                    let d = self.m.t.mul(d, c);
                    Ok(Val::I(if neg { self.m.t.sub(t, d) } else { self.m.t.add(t, d) }))
                }
                _ => Ok(Val::Top),
            },
            _ => Ok(Val::Top),
        }
    }
    pub fn cmp_vals(&mut self, st: &mut St, a: Val, b: Val, signed: bool) -> Option<(T, T)> {
        // (a < b, a == b)
        if let (Val::P(p), Val::P(q)) = (a, b) {
            if p.o == q.o {
                if let (Some(x), Some(y)) = (p.off, q.off) {
                    let w = 64;
                    let (ex, ey) = (self.m.t.l(x).clone(), self.m.t.l(y).clone());
                    let (tx, ty) = (self.m.t.mk_sum(w, ex), self.m.t.mk_sum(w, ey));
                    let lt = self.m.t.op(Op::Slt, 1, vec![tx, ty]);
                    let eq = self.m.t.op(Op::Eq, 1, vec![tx, ty]);
                    return Some((lt, eq));
                }
                return None;
            }
        }
        if let (Val::F(f), Val::F(g)) = (a, b) {
            let z = self.m.t.k(1, 0);
            let e = self.m.t.k(1, (f == g) as u128);
            return Some((z, e));
        }
        let (x, y) = (self.ptr_addr(st, a)?, self.ptr_addr(st, b)?);
        if self.m.t.w(x) != self.m.t.w(y) {
            return None;
        }
        let lt = self.m.t.op(if signed { Op::Slt } else { Op::Ult }, 1, vec![x, y]);
        let eq = self.m.t.op(Op::Eq, 1, vec![x, y]);
        Some((lt, eq))
    }
    pub fn binop(&mut self, st: &mut St, op: BinOp, a: Val, b: Val, ty: Ty, rty: Ty) -> Rs<Val> {
        use BinOp::*;
        let signed = Self::signed(ty);
        match op {
            Eq | Ne | Lt | Le | Gt | Ge => {
                let (a, b) = match op {
                    Gt | Le => (b, a),
                    _ => (a, b),
                };
                let (lt, eq) = match self.cmp_vals(st, a, b, signed) {
                    Some(x) => x,
                    None => return Ok(Val::Top),
                };
                let r = match op {
                    Eq => eq,
                    Ne => self.m.t.not(eq),
                    Lt | Gt => lt,
                    _ => self.m.t.not(lt),
                };
                return Ok(self.bool_val(r));
            }
            Cmp => {
                let (lt, eq) = match self.cmp_vals(st, a, b, signed) {
                    Some(x) => x,
                    None => return Ok(Val::Top),
                };
                let r = if self.decide(st, lt)? {
                    0xff
                } else if self.decide(st, eq)? {
                    0
                } else {
                    1
                };
                return Ok(self.k(8, r));
            }
            Offset => {
                let e = match ty.kind().builtin_deref(true) {
                    Some(t) => t.ty,
                    None => return unsup("offset"),
                };
                let es = self.size(e);
                return self.ptr_add(st, a, b, es, false);
            }
            _ => {}
        }
        let (x, y) = match (a, b) {
            (Val::I(x), Val::I(y)) => (x, y),
            (Val::P(_), Val::I(_)) | (Val::P(_), Val::P(_)) | (Val::I(_), Val::P(_)) => {
                match (self.ptr_addr(st, a), self.ptr_addr(st, b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Val::Top),
                }
            }
            _ => return Ok(Val::Top),
        };
        let w = self.m.t.w(x);
        let t = &mut self.m.t;
        Ok(Val::I(match op {
            Add | AddUnchecked => t.add(x, y),
            Sub | SubUnchecked => t.sub(x, y),
            Mul | MulUnchecked => t.mul(x, y),
            BitXor => t.xor(x, y),
            BitAnd => t.and(x, y),
            BitOr => t.or(x, y),
            Div | Rem => {
                let sec = self.standalone == 0 && (t.secret(x) || t.secret(y));
                let yc = t.as_const(y);
                let o = match (op, signed) {
                    (Div, false) => Op::Udiv,
                    (Rem, false) => Op::Urem,
                    (Div, true) => Op::Sdiv,
                    _ => Op::Srem,
                };
                let r = t.op(o, w, vec![x, y]);
                if sec && yc.map_or(true, |c| !c.is_power_of_two()) {
                    self.event_c(EvK::VarTime, st, "division of secret data".into(), false, Some(Cond::T(x)));
                }
                if let (Some(c), false) = (yc, signed) {
                    if !c.is_power_of_two() && c != 0 {
                        // x = c*q + r
                        let q = self.m.t.op(Op::Udiv, w, vec![x, y]);
                        let rr = self.m.t.op(Op::Urem, w, vec![x, y]);
                        let (lx, lq, lr) = (self.m.lift(st, x), self.m.lift(st, q), self.m.lift(st, rr));
                        let mut e = lin_mul(self.m.t.l(lq), c as i128);
                        e = lin_add(&e, self.m.t.l(lr), 1);
                        e = lin_add(&e, self.m.t.l(lx), -1);
                        let mut h = lin_mul(self.m.t.l(lr), -1);
                        h.c += c as i128 - 1;
                        let s = st.store();
                        s.add_eq(&e);
                        s.add_ge(&h);
                    }
                }
                r
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let sh = if let Some(c) = t.as_const(y) { Some((c as u32) & (w - 1)) } else { None };
                let _ = rty;
                match (op, sh) {
                    (Shl | ShlUnchecked, Some(n)) => t.shl(x, n),
                    (_, Some(n)) => {
                        if signed {
                            let s = t.slice(x, n, w - n);
                            t.sext(s, w)
                        } else {
                            t.shr(x, n)
                        }
                    }
                    (Shl | ShlUnchecked, None) => {
                        let y = t.zext(y, w);
                        t.op(Op::Shl, w, vec![x, y])
                    }
                    _ => {
                        let y = t.zext(y, w);
                        t.op(if signed { Op::Sar } else { Op::Shr }, w, vec![x, y])
                    }
                }
            }
            _ => return unsup(format!("binop {:?}", op)),
        }))
    }
    /// does the exact result of an unsigned/signed operation fit? Splits when open.
    pub fn overflow(&mut self, st: &mut St, op: BinOp, x: T, y: T, signed: bool) -> Rs<bool> {
        use BinOp::*;
        let w = self.m.t.w(x);
        if matches!(op, Shl | ShlUnchecked | Shr | ShrUnchecked) {
            let ly = if let Some(c) = self.m.t.as_const(y) { self.m.t.lc(c as i128) } else { self.m.lift(st, y) };
            let c = self.m.t.lc(w as i128);
            return match self.m.le(st, c, ly) {
                Some(b) => Ok(b),
                None => {
                    let d = self.m.t.lsub(ly, c);
                    Err(Er::Split(self.m.t.l(d).clone()))
                }
            };
        }
        let (lx, ly) = if signed { (self.slift(st, x)?, self.slift(st, y)?) } else { (self.m.lift(st, x), self.m.lift(st, y)) };
        let r = match op {
            Add | AddUnchecked => self.m.t.ladd(lx, ly),
            Sub | SubUnchecked => self.m.t.lsub(lx, ly),
            Mul | MulUnchecked => match (self.m.t.lconst(lx), self.m.t.lconst(ly)) {
                (Some(c), _) => self.m.t.lmul(ly, c),
                (_, Some(c)) => self.m.t.lmul(lx, c),
                _ => return unsup("nonlinear overflow check"),
            },
            _ => return unsup("overflow"),
        };
        let (min, max) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
        let (min, max) = (self.m.t.lc(min), self.m.t.lc(max));
        match self.m.le(st, min, r) {
            Some(true) => {}
            Some(false) => return Ok(true),
            None => {
                let d = self.m.t.lsub(r, min);
                return Err(Er::Split(self.m.t.l(d).clone()));
            }
        }
        match self.m.le(st, r, max) {
            Some(b) => Ok(!b),
            None => {
                let d = self.m.t.lsub(max, r);
                Err(Er::Split(self.m.t.l(d).clone()))
            }
        }
    }
    fn scalar_size(s: &Scalar) -> i128 {
        match s {
            Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                Primitive::Int { length, .. } => match format!("{:?}", length).as_str() {
                    "I8" => 1,
                    "I16" => 2,
                    "I32" => 4,
                    "I64" => 8,
                    _ => 16,
                },
                Primitive::Pointer(_) => rustc_public::target::MachineInfo::target_pointer_width().bytes() as i128,
                _ => 8,
            },
        }
    }
    pub fn discriminant(&mut self, st: &mut St, p: &Place_, ow: u32) -> Rs<Val> {
        let l = self.layout(p.ty);
        match &l.variants {
            VariantsShape::Single { index } => {
                let d = self.discr_of(p.ty, vidx(index));
                Ok(self.k(ow, d))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = match &l.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes() as i128,
                    _ => 0,
                };
                let n = Self::scalar_size(tag);
                let v = self.load(st, p, off, n)?;
                match tag_encoding {
                    TagEncoding::Direct => match v {
                        Val::I(t) => Ok(Val::I(if ow < 8 * n as u32 { self.m.t.slice(t, 0, ow) } else { self.m.t.sext(t, ow) })),
                        _ => Ok(Val::Top),
                    },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let (vs, ve) = (vidx(niche_variants.start()), vidx(niche_variants.end()));
                        let t = match v {
                            Val::P(_) | Val::F(_) => {
                                // never a small integer
                                let d = self.discr_of(p.ty, vidx(untagged_variant));
                                return Ok(self.k(ow, d));
                            }
                            Val::I(t) => t,
                            Val::Top => return Ok(Val::Top),
                        };
                        let w = self.m.t.w(t);
                        for i in vs..=ve {
                            let c = self.m.t.k(w, niche_start.wrapping_add((i - vs) as u128));
                            let e = self.m.t.op(Op::Eq, 1, vec![t, c]);
                            if self.decide(st, e)? {
                                let d = self.discr_of(p.ty, i);
                                return Ok(self.k(ow, d));
                            }
                        }
                        let d = self.discr_of(p.ty, vidx(untagged_variant));
                        Ok(self.k(ow, d))
                    }
                }
            }
            VariantsShape::Empty => Err(Er::Dead),
        }
    }
    fn discr_of(&mut self, ty: Ty, i: usize) -> u128 {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            if d.kind() == AdtKind::Enum {
                return d.discriminant_for_variant(VariantIdx::to_val(i)).val;
            }
        }
        0
    }
    pub fn set_discr(&mut self, st: &mut St, p: &Place_, i: usize) -> Rs<()> {
        let l = self.layout(p.ty);
        if let VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
            let off = match &l.fields {
                FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes() as i128,
                _ => 0,
            };
            let n = Self::scalar_size(tag);
            let v = match tag_encoding {
                TagEncoding::Direct => self.discr_of(p.ty, i),
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if i == vidx(untagged_variant) {
                        return Ok(());
                    }
                    niche_start.wrapping_add((i - vidx(niche_variants.start())) as u128)
                }
            };
            let v = self.k(8 * n as u32, v);
            let v = self.swap_be(v, n);
            let s = self.m.scalar_seg(v, n);
            let q = Place_ { o: p.o, off: p.off.map(|x| self.m.t.laddc(x, off)), lo: p.lo, hi: p.hi, ty: p.ty, meta: None, variant: None };
            let nl = self.m.t.lc(n);
            self.store_range(st, &q, nl, &[s])?;
        }
        Ok(())
    }
    fn make_ref(&mut self, st: &mut St, p: &Place_) -> Rs<Rv> {
        let unsz = self.layout(p.ty).is_unsized();
        let v = match p.o {
            Some(o) => {
                let (mut lo, mut hi) = (p.lo, p.hi);
                if let Some(off) = p.off {
                    if !unsz {
                        let n = self.size(p.ty);
                        lo = off;
                        hi = self.m.t.laddc(off, n);
                    }
                }
                Val::P(Ptr { o, off: p.off, lo, hi })
            }
            None => {
                // reference to nothing tracked: some non-null address
                let w = 8 * self.m.ptr as u32;
                self.k(w, 16)
            }
        };
        let _ = st;
        if unsz {
            Ok(self.fat(v, p.meta.unwrap_or(Val::Top)))
        } else {
            Ok(Rv::S(v))
        }
    }
    fn aggregate(&mut self, st: &mut St, fb: &Fb, dst: &Place_, kind: &AggregateKind, ops: &[Operand]) -> Rs<()> {
        let mut vals = vec![];
        for o in ops {
            let ty = o.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
            vals.push((self.operand(st, fb, o)?, ty));
        }
        match kind {
            AggregateKind::RawPtr(..) => {
                let n = self.size(vals[0].1);
                let a = self.sc(&vals[0].0.clone(), n);
                let mn = self.size(vals[1].1);
                if mn == 0 {
                    return self.write_place(st, dst, &Rv::S(a));
                }
                let m = self.sc(&vals[1].0.clone(), mn);
                let f = self.fat(a, m);
                return self.write_place(st, dst, &f);
            }
            AggregateKind::Array(_) => {
                for (i, (v, ty)) in vals.iter().enumerate() {
                    let n = self.size(*ty);
                    let q = Place_ {
                        o: dst.o,
                        off: dst.off.map(|x| self.m.t.laddc(x, n * i as i128)),
                        lo: dst.lo,
                        hi: dst.hi,
                        ty: *ty,
                        meta: None,
                        variant: None,
                    };
                    self.write_place(st, &q, v)?;
                }
                return Ok(());
            }
            AggregateKind::Adt(def, vi, _, _, uf) => {
                let vi = vidx(vi);
                let isenum = def.kind() == AdtKind::Enum;
                for (i, (v, ty)) in vals.iter().enumerate() {
                    let i = uf.unwrap_or(i);
                    let base = Place_ { o: dst.o, off: dst.off, lo: dst.lo, hi: dst.hi, ty: dst.ty, meta: None, variant: if isenum { Some(vi) } else { None } };
                    let q = self.field(base, i, *ty);
                    self.write_place(st, &q, v)?;
                }
                if isenum {
                    self.set_discr(st, dst, vi)?;
                }
                return Ok(());
            }
            AggregateKind::Tuple | AggregateKind::Closure(..) => {
                for (i, (v, ty)) in vals.iter().enumerate() {
                    let base = Place_ { o: dst.o, off: dst.off, lo: dst.lo, hi: dst.hi, ty: dst.ty, meta: None, variant: None };
                    let q = self.field(base, i, *ty);
                    self.write_place(st, &q, v)?;
                }
                return Ok(());
            }
            _ => {}
        }
        unsup("aggregate")
    }
    fn int_cast(&mut self, v: Val, from: Ty, to: Ty) -> Val {
        match v {
            Val::I(t) => {
                let w = 8 * self.size(to) as u32;
                let fw = self.m.t.w(t);
                Val::I(if w <= fw {
                    self.m.t.slice(t, 0, w)
                } else if Self::signed(from) {
                    self.m.t.sext(t, w)
                } else {
                    self.m.t.zext(t, w)
                })
            }
            _ => Val::Top,
        }
    }
    pub fn array_len(&mut self, ty: Ty) -> Option<u64> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Array(e, n)) => match n.eval_target_usize() {
                Ok(n) => Some(n),
                // a constant that is not normalised: the layout knows
                Err(_) => {
                    let es = self.size(e);
                    if es > 0 {
                        Some((self.size(ty) / es) as u64)
                    } else {
                        None
                    }
                }
            },
            _ => None,
        }
    }
    fn unsize(&mut self, v: &Rv, from: Ty, to: Ty) -> Rs<Rv> {
        let p = self.m.ptr;
        let (Some(a), Some(b)) = (from.kind().builtin_deref(true), to.kind().builtin_deref(true)) else {
            return unsup("unsize of a struct");
        };
        let a0 = self.sc(v, p);
        if let (Some(n), TyKind::RigidTy(RigidTy::Slice(_))) = (self.array_len(a.ty), b.ty.kind()) {
            let m = self.k(8 * p as u32, n as u128);
            return Ok(self.fat(a0, m));
        }
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = b.ty.kind() {
            if self.size(from) == 2 * p {
                return Ok(v.clone());
            }
            let tr = format!("{:?}", b.ty.kind());
            let mut vt = Val::Top;
            for n in ["Debug", "Display", "LowerHex", "UpperHex"] {
                if tr.contains(&format!("fmt::{}\"", n)) || tr.contains(&format!("fmt::{}", n)) {
                    if let Some(f) = self.dyn_fmt(a.ty, n) {
                        vt = Val::F(f);
                    }
                }
            }
            return Ok(self.fat(a0, vt));
        }
        unsup("unsize")
    }
    fn assign(&mut self, st: &mut St, fb: &Fb, pl: &Place, rv: &Rvalue) -> Rs<()> {
        let dst = self.place(st, fb, pl)?;
        let v: Rv = match rv {
            Rvalue::Use(o, ..) => self.operand(st, fb, o)?,
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let p = self.place(st, fb, p)?;
                self.read_place(st, &p)?
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let p = self.place(st, fb, p)?;
                self.make_ref(st, &p)?
            }
            Rvalue::Len(p) => {
                let p = self.place(st, fb, p)?;
                match p.ty.kind() {
                    TyKind::RigidTy(RigidTy::Array(..)) => {
                        let n = self.array_len(p.ty).unwrap_or(0);
                        let w = 8 * self.m.ptr as u32;
                        Rv::S(self.k(w, n as u128))
                    }
                    _ => Rv::S(p.meta.unwrap_or(Val::Top)),
                }
            }
            Rvalue::Repeat(o, n) => {
                let ty = o.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                let n = n.eval_target_usize().map_err(|e| Er::Unsup(format!("{:?}", e)))? as i128;
                let v = self.operand(st, fb, o)?;
                let es = self.size(ty);
                if es == 0 || n == 0 {
                    return Ok(());
                }
                let segs = self.segs_of(&v, es);
                Rv::B(self.repeat(&segs, es, n))
            }
            Rvalue::Aggregate(k, ops) => return self.aggregate(st, fb, &dst, k, ops),
            Rvalue::BinaryOp(op, a, b) => {
                let (x, ty) = self.operand_sc(st, fb, a)?;
                let (y, rty) = self.operand_sc(st, fb, b)?;
                if self.size(ty) == 2 * self.m.ptr && ty.kind().is_any_ptr() {
                    return unsup("comparison of wide pointers");
                }
                Rv::S(self.binop(st, *op, x, y, ty, rty)?)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, ty) = self.operand_sc(st, fb, a)?;
                let (y, rty) = self.operand_sc(st, fb, b)?;
                let n = self.size(ty);
                let r = self.binop(st, *op, x, y, ty, rty)?;
                let o = match (x, y) {
                    (Val::I(p), Val::I(q)) => {
                        let b = self.overflow(st, *op, p, q, Self::signed(ty))?;
                        self.k(8, b as u128)
                    }
                    _ => Val::Top,
                };
                let size = self.size(dst.ty);
                let l = self.layout(dst.ty);
                let off2 = match &l.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[1].bytes() as i128,
                    _ => n,
                };
                self.pair(r, n, o, off2, 1, size)
            }
            Rvalue::UnaryOp(op, a) => match op {
                UnOp::PtrMetadata => {
                    let ty = a.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                    let v = self.operand(st, fb, a)?;
                    let p = self.m.ptr;
                    if self.size(ty) == 2 * p {
                        let (_, m) = self.split_fat(&v)?;
                        Rv::S(m)
                    } else {
                        return Ok(());
                    }
                }
                _ => {
                    let (x, ty) = self.operand_sc(st, fb, a)?;
                    match x {
                        Val::I(t) => {
                            let isb = ty.kind().is_bool();
                            Rv::S(Val::I(match op {
                                UnOp::Not => {
                                    if isb {
                                        let one = self.m.t.k(8, 1);
                                        self.m.t.xor(t, one)
                                    } else {
                                        self.m.t.not(t)
                                    }
                                }
                                _ => {
                                    let w = self.m.t.w(t);
                                    let z = self.m.t.k(w, 0);
                                    self.m.t.sub(z, t)
                                }
                            }))
                        }
                        _ => Rv::S(Val::Top),
                    }
                }
            },
            Rvalue::Discriminant(p) => {
                let p = self.place(st, fb, p)?;
                let w = 8 * self.size(dst.ty) as u32;
                Rv::S(self.discriminant(st, &p, w)?)
            }
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                let v = self.operand(st, fb, o)?;
                let (fs, ts) = (self.size(from), self.size(*to));
                let p = self.m.ptr;
                match k {
                    CastKind::IntToInt => {
                        let x = self.sc(&v, fs);
                        Rv::S(self.int_cast(x, from, *to))
                    }
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => {
                        if fs == 2 * p && ts == p {
                            let (a, _) = self.split_fat(&v)?;
                            Rv::S(a)
                        } else {
                            v
                        }
                    }
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                let i = Instance::resolve_for_fn_ptr(d, &a).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                                Rv::S(Val::F(self.fnid(i)))
                            }
                            _ => return unsup("reify"),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                                let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                                Rv::S(Val::F(self.fnid(i)))
                            }
                            _ => return unsup("closure fn pointer"),
                        },
                        PointerCoercion::Unsize => self.unsize(&v, from, *to)?,
                        _ => v,
                    },
                    CastKind::PointerExposeAddress => {
                        let x = self.sc(&v, fs);
                        match self.ptr_addr(st, x) {
                            Some(t) => Rv::S(Val::I(t)),
                            None => Rv::S(Val::Top),
                        }
                    }
                    CastKind::PointerWithExposedProvenance => v,
                    CastKind::Transmute | CastKind::BoxDerefTransmute => {
                        if fs != ts {
                            return unsup("transmute sizes");
                        }
                        if self.is_scalar_ty(*to) {
                            Rv::S(match v {
                                Rv::S(x) => x,
                                Rv::B(_) => self.sc(&v, ts),
                            })
                        } else {
                            Rv::B(self.segs_of(&v, fs))
                        }
                    }
                    _ => Rv::S(Val::Top),
                }
            }
            Rvalue::ThreadLocalRef(_) => {
                self.event(EvK::Effect, st, "thread-local access".into(), false);
                return unsup("thread local");
            }
        };
        self.write_place(st, &dst, &v)
    }
    pub fn repeat(&mut self, segs: &[Seg], es: i128, n: i128) -> Vec<Seg> {
        // all bytes equal: fill
        let end = self.m.t.lc(es * n);
        let z = self.m.t.lc(0);
        if segs.len() == 1 {
            match segs[0].k {
                K::Cell(Val::I(t)) => {
                    let b = self.m.t.slice(t, 0, 8);
                    let all = (1..es as u32).all(|i| self.m.t.slice(t, 8 * i, 8) == b);
                    if all {
                        return vec![Seg { lo: z, hi: end, k: K::Fill(b) }];
                    }
                }
                K::Fill(_) | K::Undef | K::Top => return vec![Seg { lo: z, hi: end, k: segs[0].k }],
                _ => {}
            }
        }
        let mut out = vec![];
        for i in 0..n {
            let d = self.m.t.lc(i * es);
            for s in segs {
                out.push(self.m.shift(*s, d));
            }
        }
        out
    }
    pub fn split_fat(&mut self, v: &Rv) -> Rs<(Val, Val)> {
        let p = self.m.ptr;
        match v {
            Rv::B(s) => {
                let pl = self.m.t.lc(p);
                let mut a = vec![];
                let mut b = vec![];
                for x in s {
                    if self.m.t.lconst(x.lo).unwrap_or(0) < p {
                        a.push(*x);
                    } else {
                        let d = self.m.t.lmul(pl, -1);
                        b.push(self.m.shift(*x, d));
                    }
                }
                // one segment may span both words
                if a.len() == 1 && b.is_empty() {
                    if let K::Cell(Val::I(t)) = a[0].k {
                        let (x, y) = (self.m.t.slice(t, 0, 8 * p as u32), self.m.t.slice(t, 8 * p as u32, 8 * p as u32));
                        let (x, y) = (self.swap_be(Val::I(x), p), self.swap_be(Val::I(y), p));
                        return Ok((x, y));
                    }
                    return Ok((Val::Top, Val::Top));
                }
                let x = self.sc(&Rv::B(a), p);
                let y = self.sc(&Rv::B(b), p);
                Ok((x, y))
            }
            Rv::S(_) => unsup("split_fat"),
        }
    }
    fn stmt(&mut self, st: &mut St, fb: &Fb, s: &Statement) -> Rs<()> {
        match &s.kind {
            StatementKind::Assign(p, r) => self.assign(st, fb, p, r),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, fb, place)?;
                self.set_discr(st, &p, vidx(variant_index))
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                // fresh contents each time
                if matches!(s.kind, StatementKind::StorageLive(_)) && fb.sizes[*l] > 0 {
                    let size = self.m.t.lc(fb.sizes[*l]);
                    let ob = self.m.new_obj(size, K::Undef);
                    let o = ObjId { f: st.fr.len() as u16 - 1, i: *l as u32 };
                    st.set_obj(o, ob);
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let (src, ty) = self.operand_sc(st, fb, &c.src)?;
                let (dst, _) = self.operand_sc(st, fb, &c.dst)?;
                let (n, _) = self.operand_sc(st, fb, &c.count)?;
                let e = ty.kind().builtin_deref(true).unwrap().ty;
                let es = self.size(e);
                self.memcpy(st, src, dst, n, es)
            }
            _ => Ok(()),
        }
    }
    pub fn memcpy(&mut self, st: &mut St, src: Val, dst: Val, n: Val, es: i128) -> Rs<()> {
        if es == 0 {
            return Ok(());
        }
        let nl = self.int(st, n);
        let (Val::P(mut s), Val::P(mut d)) = (src, dst) else {
            if let Some(l) = nl {
                let z = self.m.t.lc(0);
                match self.m.le(st, l, z) {
                    Some(true) => return Ok(()),
                    Some(false) => {}
                    None => {
                        let mut e = self.m.t.l(l).clone();
                        e.c -= 1;
                        return Err(Er::Split(e));
                    }
                }
            }
            if let Val::P(d) = dst {
                // unknown source
                let p = Place_ { o: Some(d.o), off: None, lo: d.lo, hi: d.hi, ty: Ty::bool_ty(), meta: None, variant: None };
                let one = self.m.t.lc(1);
                return self.store_range(st, &p, one, &[]);
            }
            return unsup("copy through untracked pointers");
        };
        let len = match nl {
            Some(l) => self.m.t.lmul(l, es),
            None => {
                s.off = None;
                d.off = None;
                self.m.t.lc(1)
            }
        };
        let sp = Place_ { o: Some(s.o), off: s.off, lo: s.lo, hi: s.hi, ty: Ty::bool_ty(), meta: None, variant: None };
        let dp = Place_ { o: Some(d.o), off: d.off, lo: d.lo, hi: d.hi, ty: Ty::bool_ty(), meta: None, variant: None };
        if s.off.is_none() && d.off.is_some() && nl.is_some() {
            let z = self.m.t.lc(0);
            return self.store_range(st, &dp, len, &[Seg { lo: z, hi: len, k: K::Top }]);
        }
        if d.off.is_none() {
            return self.store_range(st, &dp, len, &[]);
        }
        let segs = self.load_range(st, &sp, len)?;
        self.store_range(st, &dp, len, &segs)
    }

    // ---------- control
    pub fn split(&mut self, st: St, e: Er) -> Rs<Vec<St>> {
        match e {
            Er::Split(l) => {
                if self.trace {
                    let li = self.m.t.lin(l.clone());
                    eprintln!("SPLIT {} in {}", self.m.t.show_lin(li, 4), self.stack.last().map_or("", |x| &x.0));
                }
                if self.nofork {
                    return unsup("undecided branch in a summary");
                }
                self.n_branches += 1;
                let l = st.s.apply(&l);
                let sec = self.standalone == 0 && l.v.iter().any(|x| self.m.t.secret(x.0));
                if sec {
                    let q = self.m.t.lin(l.clone());
                    let s = self.m.t.show_lin(q, 2);
                    self.event_c(EvK::SecretBranch, &st, format!("control flow depends on {} >= 0", s), false, Some(Cond::L(q)));
                }
                let mut out = vec![];
                let mut a = st.clone();
                a.store().add_ge(&l);
                let q = self.m.t.lin(l.clone());
                a.pc.push((self.site, q));
                if !a.s.empty() {
                    out.push(a);
                }
                let mut n = lin_mul(&l, -1);
                n.c -= 1;
                let mut b = st;
                b.store().add_ge(&n);
                let q = self.m.t.lin(n);
                b.pc.push((self.site, q));
                if !b.s.empty() {
                    out.push(b);
                }
                Ok(out)
            }
            Er::SplitT(c) => {
                if self.nofork {
                    return unsup("undecided branch in a summary");
                }
                self.n_branches += 1;
                if self.standalone == 0 && self.m.t.secret(c) && !self.is_cteq(c) {
                    let s = self.m.t.show(c);
                    self.event_c(EvK::SecretBranch, &st, format!("control flow depends on {}", s), false, Some(Cond::T(c)));
                }
                let mut a = st.clone();
                a.store().facts.insert(c, true);
                let mut b = st;
                b.store().facts.insert(c, false);
                Ok(vec![a, b])
            }
            Er::Dead => Ok(vec![]),
            e => Err(e),
        }
    }
    fn is_cteq(&self, c: T) -> bool {
        let mut at = vec![];
        self.m.t.atoms_of(c, &mut at);
        at.iter().all(|a| matches!(self.m.t.atoms[*a as usize], Atom::Op { op: Op::CtEq, .. }))
    }
    /// execute one block; successors with their states (usize::MAX = return)
    fn block(&mut self, fb: &Rc<Fb>, bb: usize, st: St) -> Rs<Vec<(usize, St)>> {
        self.n_blocks += 1;
        let blk = &fb.body.blocks[bb];
        let mut out = vec![];
        let mut work: Vec<(usize, St)> = vec![(0, st)];
        while let Some((mut i, mut st)) = work.pop() {
            let mut dead = false;
            while i < blk.statements.len() {
                self.steps += 1;
                if self.steps > self.limit {
                    return unsup("step budget");
                }
                self.set_loc(&blk.statements[i].source_info.span);
                self.set_site(bb, i);
                match self.stmt(&mut st, fb, &blk.statements[i]) {
                    Ok(()) => i += 1,
                    Err(e @ (Er::Split(_) | Er::SplitT(_))) => {
                        for s in self.split(st.clone(), e)? {
                            work.push((i, s));
                        }
                        dead = true;
                        break;
                    }
                    Err(Er::Dead) => {
                        dead = true;
                        break;
                    }
                    Err(Er::Unsup(m)) => {
                        self.set_loc(&blk.statements[i].source_info.span);
                        return Err(Er::Unsup(self.where_(m)));
                    }
                }
            }
            if dead {
                continue;
            }
            self.steps += 1;
            self.set_loc(&blk.terminator.source_info.span);
            self.set_site(bb, i);
            match self.term(fb, &blk.terminator, &mut st) {
                Ok(v) => out.extend(v),
                Err(e @ (Er::Split(_) | Er::SplitT(_))) => {
                    for s in self.split(st, e)? {
                        work.push((i, s));
                    }
                }
                Err(Er::Dead) => {}
                Err(Er::Unsup(m)) => return Err(Er::Unsup(self.where_(m))),
            }
        }
        Ok(out)
    }
    fn set_site(&mut self, bb: usize, i: usize) {
        let f = self.fstack.last().map_or(0, |f| *f as u64);
        self.site = ((self.fstack.len() as u64) << 52) | (f << 32) | ((bb as u64) << 12) | (i as u64 & 0xfff);
    }
    fn where_(&self, m: String) -> String {
        if m.contains(" @ ") {
            return m;
        }
        let s: Vec<String> = self.stack.iter().rev().take(6).map(|x| format!("{} ({})", x.0, span_str(&x.1))).collect();
        format!("{} @ {}", m, s.join(" < "))
    }
    fn term(&mut self, fb: &Rc<Fb>, t: &Terminator, st: &mut St) -> Rs<Vec<(usize, St)>> {
        match &t.kind {
            TerminatorKind::Goto { target } => Ok(vec![(*target, st.clone())]),
            TerminatorKind::Return => Ok(vec![(usize::MAX, st.clone())]),
            TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => Ok(vec![]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (v, _) = self.operand_sc(st, fb, discr)?;
                match v {
                    Val::I(x) => {
                        let w = self.m.t.w(x);
                        if let Some(c) = self.m.t.as_const(x) {
                            for (val, b) in targets.branches() {
                                if val & mask(w) == c {
                                    return Ok(vec![(b, st.clone())]);
                                }
                            }
                            return Ok(vec![(targets.otherwise(), st.clone())]);
                        }
                        let s = self.m.t.strip(x);
                        let sw = self.m.t.w(s);
                        for (val, b) in targets.branches() {
                            if val & mask(w) > mask(sw) {
                                continue;
                            }
                            let c = if sw == 1 {
                                if val == 1 {
                                    s
                                } else {
                                    self.m.t.not(s)
                                }
                            } else {
                                let c = self.m.t.k(sw, val);
                                self.m.t.op(Op::Eq, 1, vec![s, c])
                            };
                            self.in_switch = true;
                            let d = self.decide(st, c);
                            self.in_switch = false;
                            if d? {
                                return Ok(vec![(b, st.clone())]);
                            }
                        }
                        Ok(vec![(targets.otherwise(), st.clone())])
                    }
                    Val::Top => {
                        if self.nofork {
                            return unsup("branch on untracked value");
                        }
                        let mut v: Vec<usize> = targets.all_targets();
                        v.sort();
                        v.dedup();
                        let mut st = st.clone();
                        if self.standalone == 0 && v.len() > 1 {
                            self.event(EvK::SecretBranch, &st, "control flow depends on a value that is not tracked".into(), true);
                        }
                        if self.trace { eprintln!("loop imp: branch on Top"); }
                        st.imp = true;
                        Ok(v.into_iter().map(|b| (b, st.clone())).collect())
                    }
                    _ => unsup("switch on pointer"),
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(st, fb, place)?;
                let inst = Instance::resolve_drop_in_place(p.ty);
                if inst.is_empty_shim() {
                    return Ok(vec![(*target, st.clone())]);
                }
                let r = self.make_ref(st, &p)?;
                let f = self.fnid(inst);
                let outs = self.call(st.clone(), f, vec![r])?;
                Ok(outs.into_iter().map(|x| (*target, x.0)).collect())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (v, _) = self.operand_sc(st, fb, cond)?;
                match v {
                    Val::I(x) => {
                        let b = self.m.t.slice(x, 0, 1);
                        if self.decide(st, b)? == *expected {
                            Ok(vec![(*target, st.clone())])
                        } else {
                            let m = msg.description().unwrap_or("assertion");
                            let m = match msg {
                                AssertMessage::BoundsCheck { .. } => "index out of bounds",
                                _ => m,
                            };
                            self.event(EvK::Panic, st, m.to_string(), false);
                            Ok(vec![])
                        }
                    }
                    _ => {
                        let m = msg.description().unwrap_or("index out of bounds");
                        self.event(EvK::Panic, st, m.to_string(), true);
                        Ok(vec![(*target, st.clone())])
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(fb.body.locals()).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                let mut vals = vec![];
                for a in args {
                    vals.push(self.operand(st, fb, a)?);
                }
                let f = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve(d, &a).map_err(|e| Er::Unsup(format!("resolve {:?}", e)))?;
                        self.fnid(i)
                    }
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                        let v = self.operand(st, fb, func)?;
                        let n = self.m.ptr;
                        match self.sc(&v, n) {
                            Val::F(f) => f,
                            x => return unsup(format!("call through untracked function pointer {:?}", x)),
                        }
                    }
                    _ => return unsup("call"),
                };
                if target.is_none() {
                    let name = self.fnames[f as usize].clone();
                    self.event(EvK::Panic, st, format!("call of {}", name), false);
                    return Ok(vec![]);
                }
                let dst_check = self.place(st, fb, destination)?;
                drop(dst_check);
                let outs = self.call(st.clone(), f, vals)?;
                let mut res = vec![];
                for (mut s, v) in outs {
                    let p = self.place(&mut s, fb, destination)?;
                    self.write_place(&mut s, &p, &v)?;
                    res.push((target.unwrap(), s));
                }
                Ok(res)
            }
            TerminatorKind::InlineAsm { .. } => unsup("inline assembly"),
        }
    }
    pub fn call(&mut self, st: St, f: FnId, args: Vec<Rv>) -> Rs<Vec<(St, Rv)>> {
        self.n_calls += 1;
        let name = self.fnames[f as usize].clone();
        if self.stack.len() > 90 {
            return unsup("recursion");
        }
        self.check_features(&st, f);
        if let Some(r) = self.builtin(&st, f, &name, &args)? {
            return Ok(r);
        }
        if let Some(r) = self.kernel_call(&st, f, &args)? {
            return Ok(r);
        }
        self.call_body(st, f, args)
    }
    pub fn call_body(&mut self, mut st: St, f: FnId, args: Vec<Rv>) -> Rs<Vec<(St, Rv)>> {
        let name = self.fnames[f as usize].clone();
        let fb = match self.fb(f) {
            Some(b) => b,
            None => return unsup(format!("no body for {}", name)),
        };
        if self.trace {
            eprintln!("{}call {}", " ".repeat(self.stack.len()), name);
        }
        self.seen_fns.insert(name.clone());
        let locals = fb.body.locals();
        let mut frame: Frame = Vec::with_capacity(locals.len());
        for i in 0..locals.len() {
            let size = self.m.t.lc(fb.sizes[i]);
            let mut ob = self.m.new_obj(size, K::Undef);
            ob.al = fb.aligns[i];
            frame.push(Rc::new(ob));
        }
        let nargs = fb.body.arg_locals().len();
        let mut vals: Vec<Vec<Seg>> = vec![];
        if args.len() == nargs && fb.body.spread_arg().is_none() {
            for (i, a) in args.iter().enumerate() {
                let n = fb.sizes[i + 1];
                vals.push(self.segs_of(a, n));
            }
        } else if let Some(_sp) = fb.body.spread_arg() {
            for (i, a) in args.iter().enumerate() {
                let n = fb.sizes[i + 1];
                vals.push(self.segs_of(a, n));
            }
        } else {
            // rust-call: the last argument is a tuple to be spread
            for a in &args[..args.len() - 1] {
                let n = fb.sizes[vals.len() + 1];
                vals.push(self.segs_of(a, n));
            }
            let tys: Vec<Ty> = (vals.len() + 1..=nargs).map(|i| locals[i].ty).collect();
            let tt = Ty::new_tuple(&tys);
            let last = args.last().unwrap();
            let total = self.size(tt);
            let segs = self.segs_of(last, total);
            let tmp = Obj { size: self.m.t.lc(total), segs, al: 0 };
            let o = st.new_root(tmp);
            for (i, ty) in tys.iter().enumerate() {
                let off = self.field_off(tt, None, i);
                let n = self.size(*ty);
                let (off, n) = (self.m.t.lc(off), self.m.t.lc(n));
                let r = self.m.read_range(&st, o, off, n)?;
                vals.push(r);
            }
            let fr = Rc::make_mut(&mut st.fr[0]);
            fr.pop();
        }
        for (i, v) in vals.into_iter().enumerate() {
            if fb.sizes[i + 1] > 0 {
                let size = self.m.t.lc(fb.sizes[i + 1]);
                frame[i + 1] = Rc::new(Obj { size, segs: v, al: fb.aligns[i + 1] });
            }
        }
        st.fr.push(Rc::new(frame));
        self.stack.push((name, None));
        self.fstack.push(f);
        let r = self.region(&fb, 0, st, None);
        self.fstack.pop();
        let (_, exits) = match r {
            Ok(x) => x,
            Err(e) => {
                // keep the stack for the message
                let e = match e {
                    Er::Unsup(m) => Er::Unsup(self.where_(m)),
                    e => e,
                };
                self.stack.pop();
                return Err(e);
            }
        };
        self.stack.pop();
        let mut out: Vec<(St, Rv)> = vec![];
        let rty = locals[0].ty;
        for (_, mut s) in exits {
            let p = self.local_place(&s, &fb, 0);
            let n = self.size(rty);
            let nl = self.m.t.lc(n);
            let v = if n == 0 {
                Rv::B(vec![])
            } else if self.is_scalar_ty(rty) {
                Rv::S(self.load(&mut s, &p, 0, n)?)
            } else {
                Rv::B(self.m.read_range(&s, p.o.unwrap(), p.off.unwrap(), nl)?)
            };
            s.fr.pop();
            out.push((s, v));
        }
        if out.len() > 1 {
            out = self.dedupe_ret(out, self.ret_size(rty));
            if self.trace && out.len() > 1 {
                eprintln!("RET {} from {}", out.len(), self.fnames[f as usize]);
                for (s, _) in &out {
                    eprintln!("   {:?} {:?}", s.s.cons.iter().filter(|c| c.v.len() > 1 || c.v[0].0 > 305).map(|c| (&c.v, c.c)).collect::<Vec<_>>(), s.s.sub);
                }
            }
        }
        Ok(out)
    }
    fn ret_size(&self, ty: Ty) -> i128 {
        ty.layout().map(|l| l.shape().size.bytes() as i128).unwrap_or(0)
    }
    fn dedupe_ret(&mut self, v: Vec<(St, Rv)>, n: i128) -> Vec<(St, Rv)> {
        // carry the return value as an extra root object, so that joins cover it
        let mut sts = vec![];
        for (mut s, r) in v {
            let segs = self.segs_of(&r, n);
            let size = self.m.t.lc(n);
            s.new_root(Obj { size, segs, al: 0 });
            sts.push(s);
        }
        let sts = self.dedupe(sts);
        sts.into_iter()
            .map(|mut s| {
                let fr = Rc::make_mut(&mut s.fr[0]);
                let o = fr.pop().unwrap();
                (s, Rv::B(o.segs.clone()))
            })
            .collect()
    }
    /// merge states that can be merged without losing anything that matters
    pub fn dedupe(&mut self, v: Vec<St>) -> Vec<St> {
        let mut out: Vec<St> = vec![];
        'next: for s in v {
            for o in out.iter_mut() {
                if (o.s == s.s || *o.s == *s.s) && o.log == s.log {
                    // no numeric distinction: they differ in don't-care data only
                    *o = self.join(o, &s);
                    continue 'next;
                }
            }
            out.push(s);
        }
        out
    }
    pub fn join(&mut self, a: &St, b: &St) -> St {
        let mut r = a.clone();
        r.imp |= b.imp;
        for x in &b.odd {
            if !r.odd.contains(x) {
                r.odd.push(*x);
            }
        }
        if a.log != b.log {
            r.log = vec![u32::MAX];
        }
        let n = a.pc.iter().zip(&b.pc).take_while(|x| x.0 == x.1).count();
        r.pc.truncate(n);
        for f in 0..a.fr.len() {
            if Rc::ptr_eq(&a.fr[f], &b.fr[f]) {
                continue;
            }
            for i in 0..a.fr[f].len().min(b.fr[f].len()) {
                let (x, y) = (a.fr[f][i].clone(), b.fr[f][i].clone());
                if Rc::ptr_eq(&x, &y) || x == y {
                    continue;
                }
                let j = self.join_obj(a, &x, &y);
                r.set_obj(ObjId { f: f as u16, i: i as u32 }, j);
            }
        }
        r
    }
    fn join_obj(&mut self, st: &St, x: &Obj, y: &Obj) -> Obj {
        // walk both segment lists; agree where equal, Top elsewhere
        let mut out: Vec<Seg> = vec![];
        let (mut i, mut j) = (0, 0);
        let z = self.m.t.lc(0);
        let mut pos = z;
        while i < x.segs.len() || j < y.segs.len() {
            if i < x.segs.len() && j < y.segs.len() && x.segs[i].lo == y.segs[j].lo && x.segs[i].hi == y.segs[j].hi {
                let (a, b) = (x.segs[i], y.segs[j]);
                let k = if a.k == b.k {
                    a.k
                } else if matches!(a.k, K::Undef) || matches!(b.k, K::Undef) {
                    K::Undef
                } else if let (K::Cell(Val::P(p)), K::Cell(Val::P(q))) = (a.k, b.k) {
                    if p.o == q.o {
                        let off = if p.off == q.off { p.off } else { None };
                        let (lo, hi) = if p.lo == q.lo && p.hi == q.hi { (p.lo, p.hi) } else { (z, self.m.obj(st, p.o).size) };
                        K::Cell(Val::P(Ptr { o: p.o, off, lo, hi }))
                    } else {
                        K::Top
                    }
                } else {
                    K::Top
                };
                out.push(Seg { lo: a.lo, hi: a.hi, k });
                pos = a.hi;
                i += 1;
                j += 1;
                continue;
            }
            // resynchronise at the next common boundary
            let mut found = None;
            'o: for a in i..x.segs.len() {
                for b in j..y.segs.len() {
                    if x.segs[a].hi == y.segs[b].hi && (a > i || b > j || true) {
                        found = Some((a, b));
                        break 'o;
                    }
                }
            }
            match found {
                Some((a, b)) => {
                    let hi = x.segs[a].hi;
                    out.push(Seg { lo: pos, hi, k: K::Top });
                    pos = hi;
                    i = a + 1;
                    j = b + 1;
                }
                None => {
                    out.push(Seg { lo: pos, hi: x.size, k: K::Top });
                    break;
                }
            }
        }
        let mut m: Vec<Seg> = vec![];
        for s in out {
            if let Some(l) = m.last_mut() {
                if l.k == s.k && matches!(s.k, K::Top | K::Undef) {
                    l.hi = s.hi;
                    continue;
                }
            }
            m.push(s);
        }
        Obj { size: x.size, segs: m, al: x.al.min(y.al) }
    }

    fn region(&mut self, fb: &Rc<Fb>, start: usize, st: St, lp: Option<(usize, &HashSet<usize>)>) -> Rs<(Vec<St>, Vec<(usize, St)>)> {
        let mut work: BTreeMap<usize, (usize, Vec<St>)> = BTreeMap::new();
        let mut backs = vec![];
        let mut exits: Vec<(usize, St)> = vec![];
        let mut first = true;
        work.insert(fb.rpo[start], (start, vec![st]));
        while let Some((&r, _)) = work.iter().next() {
            let (bb, sts) = work.remove(&r).unwrap();
            let sts = if sts.len() > 1 { self.dedupe(sts) } else { sts };
            if self.trace && sts.len() > 20 {
                eprintln!("DISJ {} at bb{} of {}", sts.len(), bb, self.stack.last().unwrap().0);
            }
            if sts.len() > 600 {
                return unsup("too many disjuncts");
            }
            for st in sts {
                let outs = if fb.loops.contains_key(&bb) && !(first && lp.map_or(false, |l| l.0 == bb)) {
                    self.do_loop(fb, bb, st)?
                } else {
                    self.block(fb, bb, st)?
                };
                for (s, o) in outs {
                    if s == usize::MAX {
                        exits.push((s, o));
                    } else if let Some((h, set)) = lp {
                        if s == h {
                            backs.push(o);
                        } else if !set.contains(&s) {
                            exits.push((s, o));
                        } else {
                            work.entry(fb.rpo[s]).or_insert((s, vec![])).1.push(o);
                        }
                    } else {
                        work.entry(fb.rpo[s]).or_insert((s, vec![])).1.push(o);
                    }
                }
            }
            first = false;
        }
        if backs.len() > 1 {
            backs = self.dedupe(backs);
        }
        if exits.len() > 1 {
            let mut by: BTreeMap<usize, Vec<St>> = BTreeMap::new();
            for (b, s) in exits {
                by.entry(b).or_default().push(s);
            }
            exits = vec![];
            for (b, v) in by {
                for s in self.dedupe(v) {
                    exits.push((b, s));
                }
            }
        }
        Ok((backs, exits))
    }

    fn do_loop(&mut self, fb: &Rc<Fb>, head: usize, st: St) -> Rs<Vec<(usize, St)>> {
        self.do_loop_from(fb, head, st, 0)
    }
    fn do_loop_from(&mut self, fb: &Rc<Fb>, head: usize, st: St, depth: u32) -> Rs<Vec<(usize, St)>> {
        self.n_loops += 1;
        let set = fb.loops[&head].clone();
        let mut out: Vec<(usize, St)> = vec![];
        let mut curs = vec![st];
        let mut iters = 0;
        let mut open = 0;
        let mut early = true;
        loop {
            iters += 1;
            if iters > 40000 {
                return unsup("loop bound");
            }
            let mut next: Vec<St> = vec![];
            let single = curs.len() == 1;
            let mut any_exit = false;
            for c in std::mem::take(&mut curs) {
                let ksw = self.ksw;
                let (b, e) = self.region(fb, head, c.clone(), Some((head, &set)))?;
                let early_now = early && e.is_empty() && self.ksw > ksw;
                if single && b.len() == 1 && *b[0].s == *c.s && !e.is_empty() {
                    // only don't-care data changes: iterate to the fixpoint
                    let j = self.join(&c, &b[0]);
                    if self.same_mem(&c, &j) {
                        out.extend(e);
                        return Ok(out);
                    }
                    if iters > 40 {
                        return unsup("untracked loop");
                    }
                    next.push(j);
                    continue;
                }
                if single && b.len() == 1 && (!e.is_empty() || early_now) {
                    any_exit = !e.is_empty();
                    early = early && !early_now;
                    // try to accelerate
                    let s1 = b[0].clone();
                    let r = self.accelerate(fb, head, &set, &c, &s1, early_now)?;
                    if !early_now && !matches!(r, Some((_, true))) {
                        // once more with what is overwritten as one piece
                        let n_ev = self.ev.len();
                        if let Some(c2) = self.collapse(&c, &s1) {
                            let ok = match self.region(fb, head, c2.clone(), Some((head, &set))) {
                                Ok((b2, e2)) if b2.len() == 1 && !e2.is_empty() => match self.accelerate(fb, head, &set, &c2, &b2[0], false) {
                                    Ok(Some((ex, all))) if all || r.is_none() => Some((e2, ex, all)),
                                    Err(Er::Unsup(_)) | Ok(_) => None,
                                    Err(e) => return Err(e),
                                },
                                Err(Er::Unsup(_)) | Ok(_) => None,
                                Err(e) => return Err(e),
                            };
                            if let Some((e2, ex, all)) = ok {
                                if !all {
                                    out.extend(e2);
                                }
                                out.extend(ex);
                                return Ok(out);
                            }
                            // nothing came of it
                            self.ev.truncate(n_ev);
                        }
                    }
                    if let Some((ex, all)) = r {
                        // the family may start before the first iteration
                        if !all {
                            out.extend(e);
                        }
                        out.extend(ex);
                        return Ok(out);
                    }
                }
                if !e.is_empty() {
                    any_exit = true;
                }
                out.extend(e);
                next.extend(b);
            }
            if any_exit {
                if self.trace {
                    eprintln!("loop in {}: {} states go on, single {}", self.stack.last().unwrap().0, next.len(), single);
                }
                open += 1;
                if open > 70 {
                    return unsup("loop not accelerated");
                }
            }
            if next.is_empty() {
                return Ok(out);
            }
            curs = if next.len() > 1 { self.dedupe(next) } else { next };
            // cases decided during an iteration: one by one
            if single && any_exit && curs.len() > 1 && curs.len() <= 4 && depth < 4 {
                for c in curs {
                    out.extend(self.do_loop_from(fb, head, c, depth + 1)?);
                }
                return Ok(out);
            }
            if curs.len() > 200 {
                if std::env::var("BSA_FACTS").is_ok() {
                    for c in curs.iter().take(6) {
                        let f: Vec<String> = c.s.facts.iter().map(|(t, b)| format!("{}={}", self.m.t.show_d(*t, 5), b)).collect();
                        eprintln!("facts: {:?}", f);
                        eprintln!("facts cons: {:?}", c.s.cons.iter().map(|l| { let l = self.m.t.lin(l.clone()); self.m.t.show_lin(l, 3) }).collect::<Vec<_>>());
                    }
                }
                return unsup("too many loop disjuncts");
            }
        }
    }
    fn same_mem(&self, a: &St, b: &St) -> bool {
        a.fr.len() == b.fr.len()
            && a.fr.iter().zip(&b.fr).all(|(x, y)| Rc::ptr_eq(x, y) || x.iter().zip(y.iter()).all(|(p, q)| Rc::ptr_eq(p, q) || p == q))
    }

    // ---------- loop acceleration
    /// the family G(k) with G(0)=a, G(1)=b, if the two states differ affinely
    fn accelerate(&mut self, fb: &Rc<Fb>, head: usize, set: &HashSet<usize>, s0: &St, s1: &St, early: bool) -> Rs<Option<(Vec<(usize, St)>, bool)>> {
        let (b2, e2) = self.region(fb, head, s1.clone(), Some((head, set)))?;
        if b2.is_empty() {
            return Ok(Some((e2, false)));
        }
        if b2.len() != 1 {
            if self.trace {
                eprintln!("loop in {}: {} ways to go on", self.stack.last().unwrap().0, b2.len());
            }
            return Ok(None);
        }
        let s2 = &b2[0];
        self.kdims += 1;
        let k = self.m.t.sym(&format!("k{}", self.kdims), 64);
        self.kset.push(k);
        let mut lost: HashSet<(ObjId, usize)> = HashSet::new();
        // guard of the last iteration as a function of k
        let n0 = s0.pc.len();
        let n1 = s1.pc.len();
        let mut guards: Vec<Lin> = vec![];
        let mut dropped = s1.pc.len() < n0 || s2.pc.len() < n1;
        if !dropped {
            let mut by: BTreeMap<u64, (Vec<L>, Vec<L>)> = BTreeMap::new();
            for x in &s1.pc[n0..] {
                by.entry(x.0).or_default().0.push(x.1);
            }
            for x in &s2.pc[n1..] {
                by.entry(x.0).or_default().1.push(x.1);
            }
            for (_, (mut p, mut q)) in by {
                p.dedup();
                q.dedup();
                if p.len() != q.len() {
                    dropped = true;
                    if self.trace {
                        eprintln!("loop in {}: guards cannot be paired: {:?} {:?}", self.stack.last().unwrap().0, p.iter().map(|l| self.m.t.show_lin(*l, 3)).collect::<Vec<_>>(), q.iter().map(|l| self.m.t.show_lin(*l, 3)).collect::<Vec<_>>());
                    }
                    continue;
                }
                for (p, q) in p.into_iter().zip(q) {
                    match self.m.diff(s2, q, p) {
                        Some(d) => {
                            let mut g = self.m.t.l(p).clone();
                            g = lin_add(&g, &Lin { v: vec![(k, 1)], c: 0 }, d);
                            guards.push(g);
                        }
                        None => dropped = true,
                    }
                }
            }
        }
        for _attempt in 0..6 {
            let mut g = s1.clone();
            {
                let s = g.store();
                s.dims.insert(k);
                s.add_ge(&Lin { v: vec![(k, 1)], c: 0 });
                s.add_ge(&Lin { v: vec![(k, -1)], c: 1 << 60 });
                for x in &guards {
                    s.add_ge(x);
                }
            }
            let mut s1c = s1.clone();
            let mut s2c = s2.clone();
            // build the family
            for f in 0..s1.fr.len() {
                if Rc::ptr_eq(&s1.fr[f], &s2.fr[f]) && !lost.iter().any(|l| l.0.f as usize == f) {
                    continue;
                }
                for i in 0..s1.fr[f].len() {
                    let (x, y) = (s1.fr[f][i].clone(), s2.fr[f][i].clone());
                    let id = ObjId { f: f as u16, i: i as u32 };
                    if (Rc::ptr_eq(&x, &y) || x == y) && !lost.iter().any(|l| l.0 == id) {
                        continue;
                    }
                    let o = self.gen_obj(&mut s1c, &mut s2c, id, &x, &y, k, &mut lost);
                    g.set_obj(id, o);
                }
            }
            // facts learned while lifting
            // verify
            let (b3, e3) = self.region(fb, head, g.clone(), Some((head, set)))?;
            if early && (dropped || b3.is_empty()) {
                return Ok(None);
            }
            if b3.is_empty() {
                return Ok(Some((e3, false)));
            }
            if b3.len() != 1 {
                if self.trace {
                    eprintln!("loop in {}: {} ways to go on from the general state", self.stack.last().unwrap().0, b3.len());
                }
                return Ok(None);
            }
            let mut n = b3[0].clone();
            // guards must hold again
            let bad_guard: Vec<usize> = guards
                .iter()
                .enumerate()
                .filter(|(_, x)| {
                    let coef = x.v.iter().find(|q| q.0 == k).map_or(0, |q| q.1);
                    let mut y = (*x).clone();
                    y.c += coef;
                    !n.s.ge(&y)
                })
                .map(|x| x.0)
                .collect();
            if !bad_guard.is_empty() {
                if self.trace {
                    eprintln!("loop in {}: guards {:?} dropped", self.stack.last().unwrap().0, bad_guard);
                }
                dropped = true;
                if early {
                    return Ok(None);
                }
                let mut i = 0;
                guards.retain(|_| {
                    i += 1;
                    !bad_guard.contains(&(i - 1))
                });
                continue;
            }
            // compare with G(k+1)
            let mut ok = true;
            for f in 0..g.fr.len() {
                for i in 0..g.fr[f].len() {
                    let (x, y) = (g.fr[f][i].clone(), n.fr[f][i].clone());
                    let id = ObjId { f: f as u16, i: i as u32 };
                    if (Rc::ptr_eq(&x, &y) || x == y) && !self.obj_has(&x, k) {
                        continue;
                    }
                    let x1 = self.succ_obj(&x, k);
                    ok &= self.cmp_obj(&mut n, id, &x1, &y, &mut lost);
                }
            }
            if ok {
                if self.trace {
                    eprintln!("loop in {}: accelerated", self.stack.last().unwrap().0);
                }
                // values that were lost are unknown atoms and never make a witness;
                // a lost guard lets impossible iteration numbers through
                if !early && !dropped && lost.is_empty() && s0.log == s1.log && s1.log == s2.log {
                    let n_ev = self.ev.len();
                    let from = self.from_start(fb, head, set, s0, s1, &g, &guards, k, &lost)?;
                    if from.is_none() {
                        self.ev.truncate(n_ev);
                    }
                    if let Some(mut e) = from {
                        for x in e.iter_mut() {
                            for o in &n.odd {
                                if !x.1.odd.contains(o) {
                                    x.1.odd.push(*o);
                                }
                            }
                            self.unify_iterations(&mut x.1, k);
                        }
                        return Ok(Some((e, true)));
                    }
                }
                let mut e3 = e3;
                if s1.log != s2.log || s0.log != s1.log {
                    for e in e3.iter_mut() {
                        e.1.log.push(u32::MAX);
                    }
                }
                if dropped {
                    if self.trace { eprintln!("loop in {}: imprecise: {} {} {}", self.stack.last().unwrap().0, n0, n1, s2.pc.len()); }
                    for e in e3.iter_mut() {
                        e.1.imp = true;
                    }
                }
                for e in e3.iter_mut() {
                    for x in &n.odd {
                        if !e.1.odd.contains(x) {
                            e.1.odd.push(*x);
                        }
                    }
                    self.unify_iterations(&mut e.1, k);
                }
                return Ok(Some((e3, false)));
            }
        }
        Ok(None)
    }
    /// the byte strings that an iteration changes, as snapshots
    fn collapse(&mut self, a: &St, b: &St) -> Option<St> {
        let mut out = a.clone();
        let mut any = false;
        for f in 0..a.fr.len() {
            if Rc::ptr_eq(&a.fr[f], &b.fr[f]) {
                continue;
            }
            for i in 0..a.fr[f].len() {
                let (x, y) = (&a.fr[f][i], &b.fr[f][i]);
                if Rc::ptr_eq(x, y) || x == y {
                    continue;
                }
                let t = &self.m.t;
                let bytes = |s: &Seg| match s.k {
                    K::Src(..) | K::Fill(_) => true,
                    K::Cell(Val::I(c)) => t.w(c) == 8,
                    _ => false,
                };
                let mut segs = x.segs.clone();
                let mut runs = vec![];
                let mut j = 0;
                while j < segs.len() {
                    let mut e = j;
                    while e < segs.len() && bytes(&segs[e]) {
                        e += 1;
                    }
                    if e >= j + 2 && segs[j..e].iter().any(|s| !matches!(s.k, K::Cell(_))) && segs[j..e].iter().any(|s| !y.segs.contains(s)) {
                        runs.push((j, e));
                    }
                    j = e.max(j + 1);
                }
                for (j, e) in runs.into_iter().rev() {
                    let (lo, hi) = (segs[j].lo, segs[e - 1].hi);
                    if let Some(arr) = self.m.snapshot(&segs, j, e, lo) {
                        let d = self.m.t.lmul(lo, -1);
                        segs.splice(j..e, [Seg { lo, hi, k: K::Src(arr, d) }]);
                        any = true;
                    }
                }
                if any {
                    out.set_obj(ObjId { f: f as u16, i: i as u32 }, Obj { size: x.size, segs, al: x.al });
                }
            }
        }
        if any {
            Some(out)
        } else {
            None
        }
    }
    /// the family G(k) with G(0) = s0, if G (which starts after the first iteration) goes back that far
    fn from_start(&mut self, fb: &Rc<Fb>, head: usize, set: &HashSet<usize>, s0: &St, s1: &St, g: &St, guards: &[Lin], k: T, lost: &HashSet<(ObjId, usize)>) -> Rs<Option<Vec<(usize, St)>>> {
        let mut base = s0.clone();
        for x in &s1.pc[s0.pc.len()..] {
            let l = self.m.t.l(x.1).clone();
            base.store().add_ge(&l);
        }
        if *base.s != *s1.s {
            if self.trace {
                eprintln!("loop in {}: the first iteration assumes more", self.stack.last().unwrap().0);
            }
            return Ok(None);
        }
        let coef = |x: &Lin| x.v.iter().find(|q| q.0 == k).map_or(0, |q| q.1);
        let mut h = s0.clone();
        h.odd = g.odd.clone();
        {
            let s = h.store();
            s.dims.insert(k);
            s.add_ge(&Lin { v: vec![(k, 1)], c: 0 });
            s.add_ge(&Lin { v: vec![(k, -1)], c: 1 << 60 });
        }
        for x in guards {
            let mut y = x.clone();
            let c = coef(x);
            y.c -= c;
            let mut at0 = y.clone();
            at0.v.retain(|q| q.0 != k);
            if !s0.s.ge(&at0) {
                if self.trace {
                    eprintln!("loop in {}: a guard need not hold before the first iteration", self.stack.last().unwrap().0);
                }
                return Ok(None);
            }
            h.store().add_ge(&y);
        }
        let mut lost = lost.clone();
        for f in 0..g.fr.len() {
            for i in 0..g.fr[f].len() {
                let id = ObjId { f: f as u16, i: i as u32 };
                let (x, a) = (g.fr[f][i].clone(), s0.fr[f][i].clone());
                if x == a {
                    continue;
                }
                if a.segs.iter().all(|s| matches!(s.k, K::Undef)) {
                    // a temporary
                    let z = self.m.t.lc(0);
                    h.set_obj(id, Obj { size: x.size, segs: vec![Seg { lo: z, hi: x.size, k: K::Top }], al: x.al });
                    continue;
                }
                let y = self.shift_obj(&x, k, Some(-1));
                let y0 = self.shift_obj(&y, k, None);
                let mut t = s0.clone();
                if !self.cmp_obj(&mut t, id, &y0, &a, &mut lost) {
                    if self.trace {
                        eprintln!("loop in {}: not the state before the first iteration", self.stack.last().unwrap().0);
                    }
                    return Ok(None);
                }
                h.set_obj(id, y);
            }
        }
        let (b, e) = match self.region(fb, head, h.clone(), Some((head, set))) {
            Err(Er::Unsup(_)) => return Ok(None),
            r => r?,
        };
        if b.len() > 1 {
            return Ok(None);
        }
        if let Some(n) = b.first() {
            let mut n = n.clone();
            for x in guards {
                // as x.c - coef + coef
                if !n.s.ge(x) {
                    return Ok(None);
                }
            }
            for f in 0..h.fr.len() {
                for i in 0..h.fr[f].len() {
                    let (x, y) = (h.fr[f][i].clone(), n.fr[f][i].clone());
                    let id = ObjId { f: f as u16, i: i as u32 };
                    if (Rc::ptr_eq(&x, &y) || x == y) && !self.obj_has(&x, k) {
                        continue;
                    }
                    let x1 = self.succ_obj(&x, k);
                    if !self.cmp_obj(&mut n, id, &x1, &y, &mut lost) {
                        return Ok(None);
                    }
                }
            }
        }
        if self.trace {
            eprintln!("loop in {}: accelerated from the start", self.stack.last().unwrap().0);
        }
        Ok(Some(e))
    }
    /// loops over the same length end after the same number of iterations (up to one)
    fn unify_iterations(&mut self, st: &mut St, k: T) {
        const S: i128 = 1 << 20;
        for j in self.kset.clone() {
            if j == k || !st.s.dims.contains(&j) {
                continue;
            }
            for c in [0, -1, 1] {
                let d = Lin { v: if j < k { vec![(j, -1), (k, 1)] } else { vec![(k, 1), (j, -1)] }, c: -c };
                let mut up = Lin { v: d.v.iter().map(|q| (q.0, -S * q.1)).collect(), c: S * c + S - 1 };
                let mut dn = Lin { v: d.v.iter().map(|q| (q.0, S * q.1)).collect(), c: -S * c + S - 1 };
                up.v.sort();
                dn.v.sort();
                if st.s.ge(&up) && st.s.ge(&dn) {
                    st.store().add_eq(&d);
                    if self.trace {
                        eprintln!("iterations unified: {:?} {:?} {:?}", d, st.s.cons.iter().filter(|c| c.v.len() > 1 || c.v[0].0 > 305).map(|c| (&c.v, c.c)).collect::<Vec<_>>(), st.s.sub);
                    }
                    break;
                }
            }
        }
    }
    fn gen_lin(&mut self, st: &St, a: L, b: L, k: T) -> Option<L> {
        if a == b {
            return Some(a);
        }
        let d = self.m.diff(st, b, a)?;
        let mut e = self.m.t.l(a).clone();
        e = lin_add(&e, &Lin { v: vec![(k, 1)], c: 0 }, d);
        Some(self.m.t.lin(e))
    }
    fn gen_term(&mut self, s1: &mut St, s2: &mut St, a: T, b: T, k: T) -> Option<T> {
        if a == b {
            return Some(a);
        }
        if self.m.t.w(a) != self.m.t.w(b) {
            return None;
        }
        let (ta, tb) = (self.m.t.terms[a as usize].clone(), self.m.t.terms[b as usize].clone());
        // structural first: same shape, atoms that differ affinely
        if let (Some(x), Some(y)) = (self.m.t.as_atom(a), self.m.t.as_atom(b)) {
            match (self.m.t.atoms[x as usize].clone(), self.m.t.atoms[y as usize].clone()) {
                (Atom::Chain { s, i, n }, Atom::Chain { s: s_, i: i_, n: n_ }) => {
                    if s == s_ && i == i_ {
                        let n = self.gen_lin(s2, n, n_, k)?;
                        return Some(self.m.t.chain(s, i, n));
                    }
                    return None;
                }
                (Atom::Byte { arr, idx }, Atom::Byte { arr: a2, idx: i2 }) => {
                    let arr = self.gen_arr(s1, s2, arr, a2, k)?;
                    let n = self.gen_lin(s2, idx, i2, k)?;
                    return Some(self.m.t.byte(arr, n));
                }
                _ => {}
            }
        }
        if ta.ps.len() == tb.ps.len() && ta.ps.len() > 1 && ta.ps.iter().zip(&tb.ps).all(|(p, q)| p.w == q.w) {
            let mut parts = vec![];
            let mut pos = 0;
            let mut good = true;
            for p in &ta.ps {
                let (x, y) = (self.m.t.slice(a, pos, p.w), self.m.t.slice(b, pos, p.w));
                pos += p.w;
                match self.gen_term(s1, s2, x, y, k) {
                    Some(t) => parts.push(t),
                    None => {
                        good = false;
                        break;
                    }
                }
            }
            if good {
                return Some(self.m.t.concat(&parts));
            }
        }
        let (la, lb) = (self.m.lift(s1, a), self.m.lift(s2, b));
        let l = self.gen_lin(s2, la, lb, k)?;
        let w = self.m.t.w(a);
        let e = self.m.t.l(l).clone();
        Some(self.m.t.mk_sum(w, e))
    }
    fn gen_arr(&mut self, s1: &mut St, s2: &mut St, a: Arr, b: Arr, k: T) -> Option<Arr> {
        if a == b {
            return Some(a);
        }
        match (self.m.t.arrs[a as usize].clone(), self.m.t.arrs[b as usize].clone()) {
            (ArrK::Segs(x), ArrK::Segs(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(&y) {
                    let (lo, hi) = (self.gen_lin(s2, p.0, q.0, k)?, self.gen_lin(s2, p.1, q.1, k)?);
                    let kk = match (&p.2, &q.2) {
                        (SegV::Src(a, d), SegV::Src(b, e)) => SegV::Src(self.gen_arr(s1, s2, *a, *b, k)?, self.gen_lin(s2, *d, *e, k)?),
                        (SegV::Fill(a), SegV::Fill(b)) => SegV::Fill(self.gen_term(s1, s2, *a, *b, k)?),
                        (SegV::Cell(a), SegV::Cell(b)) => SegV::Cell(self.gen_term(s1, s2, *a, *b, k)?),
                        (SegV::Top, SegV::Top) => SegV::Top,
                        _ => return None,
                    };
                    v.push((lo, hi, kk));
                }
                Some(self.m.t.arr(ArrK::Segs(v)))
            }
            _ => None,
        }
    }
    fn gen_obj(&mut self, s1: &mut St, s2: &mut St, id: ObjId, x: &Obj, y: &Obj, k: T, lost: &mut HashSet<(ObjId, usize)>) -> Obj {
        let mut out = vec![];
        if x.segs.len() == y.segs.len() && !lost.contains(&(id, usize::MAX)) {
            let mut good = true;
            for (i, (a, b)) in x.segs.iter().zip(&y.segs).enumerate() {
                let (a, b) = match (a.k, b.k) {
                    (K::Cell(_), K::Src(..) | K::Fill(_)) => (self.m.byte_seg(*a, b), *b),
                    (K::Src(..) | K::Fill(_), K::Cell(_)) => (*a, self.m.byte_seg(*b, a)),
                    _ => (*a, *b),
                };
                let (a, b) = (&a, &b);
                let (lo, hi) = match (self.gen_lin(s2, a.lo, b.lo, k), self.gen_lin(s2, a.hi, b.hi, k)) {
                    (Some(l), Some(h)) => (l, h),
                    _ => {
                        good = false;
                        break;
                    }
                };
                let kk = if lost.contains(&(id, i)) {
                    None
                } else if a.k == b.k {
                    Some(a.k)
                } else {
                    match (a.k, b.k) {
                        (K::Cell(Val::I(p)), K::Cell(Val::I(q))) => {
                            let be = self.m.big_endian && self.m.t.w(p) == self.m.t.w(q) && self.m.t.w(p) > 8;
                            let (p, q) = if be { (self.m.bswap(p), self.m.bswap(q)) } else { (p, q) };
                            let g = self.gen_term(s1, s2, p, q, k);
                            g.map(|t| K::Cell(Val::I(if be { self.m.bswap(t) } else { t })))
                        }
                        (K::Cell(Val::P(p)), K::Cell(Val::P(q))) if p.o == q.o => {
                            let off = match (p.off, q.off) {
                                (Some(u), Some(v)) => self.gen_lin(s2, u, v, k),
                                _ => None,
                            };
                            let lo = self.gen_lin(s2, p.lo, q.lo, k);
                            let hi = self.gen_lin(s2, p.hi, q.hi, k);
                            let (lo, hi) = match (lo, hi) {
                                (Some(l), Some(h)) => (l, h),
                                _ => (self.m.t.lc(0), self.m.obj(s1, p.o).size),
                            };
                            Some(K::Cell(Val::P(Ptr { o: p.o, off, lo, hi })))
                        }
                        (K::Src(p, d), K::Src(q, e)) => match (self.gen_arr(s1, s2, p, q, k), self.gen_lin(s2, d, e, k)) {
                            (Some(a), Some(d)) => Some(K::Src(a, d)),
                            _ => None,
                        },
                        (K::Fill(p), K::Fill(q)) => self.gen_term(s1, s2, p, q, k).map(K::Fill),
                        _ => None,
                    }
                };
                let kk = match kk {
                    Some(k) => k,
                    None => {
                        lost.insert((id, i));
                        self.lost_val(a)
                    }
                };
                out.push(Seg { lo, hi, k: kk });
            }
            if good {
                return Obj { size: x.size, segs: out, al: x.al };
            }
        }
        if self.trace {
            eprintln!("shape of {:?} {} differs:\n{:?}\n{:?}", id, self.stack.last().unwrap().0, x.segs, y.segs);
        }
        // different shape: only what is there unchanged is kept
        lost.insert((id, usize::MAX));
        let z = self.m.t.lc(0);
        if !lost.contains(&(id, usize::MAX - 1)) {
            let mut segs: Vec<Seg> = vec![];
            let mut at = z;
            let same: Vec<Seg> = x.segs.iter().filter(|a| self.m.t.lconst(a.lo).is_some() && self.m.t.lconst(a.hi).is_some() && y.segs.contains(a)).cloned().collect();
            for a in same {
                if at != a.lo {
                    segs.push(Seg { lo: at, hi: a.lo, k: K::Top });
                }
                segs.push(a);
                at = a.hi;
            }
            if at != x.size {
                segs.push(Seg { lo: at, hi: x.size, k: K::Top });
            }
            return Obj { size: x.size, segs, al: x.al };
        }
        Obj { size: x.size, segs: vec![Seg { lo: z, hi: x.size, k: K::Top }], al: x.al }
    }
    fn lost_val(&mut self, a: &Seg) -> K {
        match a.k {
            K::Cell(Val::I(t)) => {
                let w = self.m.t.w(t);
                K::Cell(Val::I(self.m.t.fresh_unk(w)))
            }
            _ => K::Top,
        }
    }
    fn obj_has(&mut self, x: &Obj, k: T) -> bool {
        let y = self.succ_obj(x, k);
        y != *x
    }
    /// G(k) -> G(k+1)
    fn succ_obj(&mut self, x: &Obj, k: T) -> Obj {
        self.shift_obj(x, k, Some(1))
    }
    /// G(k) -> G(k + by), or G(0)
    fn shift_obj(&mut self, x: &Obj, k: T, by: Option<i128>) -> Obj {
        let mut memo = HashMap::new();
        let katom = self.m.t.as_atom(k).unwrap();
        let mut fl = move |tm: &mut Terms, l: L| -> L {
            let c = tm.l(l).v.iter().find(|q| q.0 == k).map_or(0, |q| q.1);
            match by {
                Some(d) => tm.laddc(l, c * d),
                None if c == 0 => l,
                None => {
                    let mut e = tm.l(l).clone();
                    e.v.retain(|q| q.0 != k);
                    tm.lin(e)
                }
            }
        };
        let mut fa = move |tm: &mut Terms, a: A| -> Option<T> {
            if a == katom {
                Some(match by {
                    Some(d) => tm.mk_sum(64, Lin { v: vec![(k, 1)], c: d }),
                    None => tm.k(64, 0),
                })
            } else {
                None
            }
        };
        let mut out = vec![];
        for s in &x.segs {
            let kk = match s.k {
                K::Cell(Val::I(t)) => K::Cell(Val::I(self.m.t.rebuild(t, &mut memo, &mut fa, &mut fl))),
                K::Cell(Val::P(p)) => {
                    let off = p.off.map(|o| fl(&mut self.m.t, o));
                    let (lo, hi) = (fl(&mut self.m.t, p.lo), fl(&mut self.m.t, p.hi));
                    K::Cell(Val::P(Ptr { o: p.o, off, lo, hi }))
                }
                K::Src(a, d) => {
                    let a = self.m.t.rebuild_arr(a, &mut memo, &mut fa, &mut fl);
                    K::Src(a, fl(&mut self.m.t, d))
                }
                K::Fill(t) => K::Fill(self.m.t.rebuild(t, &mut memo, &mut fa, &mut fl)),
                k => k,
            };
            out.push(Seg { lo: fl(&mut self.m.t, s.lo), hi: fl(&mut self.m.t, s.hi), k: kk });
        }
        Obj { size: x.size, segs: out, al: x.al }
    }
    fn cmp_obj(&mut self, st: &mut St, id: ObjId, want: &Obj, got: &Obj, lost: &mut HashSet<(ObjId, usize)>) -> bool {
        if want == got {
            return true;
        }
        let mut ok = true;
        if want.segs.len() == got.segs.len() {
            let mut shape = true;
            for (a, b) in want.segs.iter().zip(&got.segs) {
                shape &= self.m.eq(st, a.lo, b.lo) && self.m.eq(st, a.hi, b.hi);
            }
            if shape {
                for (i, (a, b)) in want.segs.iter().zip(&got.segs).enumerate() {
                    if lost.contains(&(id, i)) || matches!(a.k, K::Top) {
                        continue;
                    }
                    if a.k == b.k {
                        continue;
                    }
                    let e = match (a.k, b.k) {
                        // an untracked offset covers every offset
                        (K::Cell(Val::P(p)), K::Cell(Val::P(q))) => {
                            p.o == q.o
                                && match (p.off, q.off) {
                                    (None, _) => true,
                                    (Some(x), Some(y)) => self.m.eq(st, x, y),
                                    _ => false,
                                }
                        }
                        _ => self.m.segs_eq(st, &[*a], &[*b]),
                    };
                    if !e {
                        if self.trace {
                            eprintln!("loop value {:?} seg {} of {} differs: {:?} {:?}", id, i, self.stack.last().unwrap().0, a, b);
                        }
                        lost.insert((id, i));
                        if lost.contains(&(id, usize::MAX)) {
                            lost.insert((id, usize::MAX - 1));
                        }
                        ok = false;
                    }
                }
                return ok;
            }
        }
        if want.segs.len() == 1 && matches!(want.segs[0].k, K::Top) {
            return true;
        }
        if self.m.segs_eq(st, &want.segs, &got.segs) {
            return true;
        }
        if lost.contains(&(id, usize::MAX)) {
            if want.segs.iter().all(|a| matches!(a.k, K::Top) || got.segs.contains(a)) {
                return true;
            }
            lost.insert((id, usize::MAX - 1));
        }
        if self.trace {
            eprintln!("loop value {:?} of {} has another shape: {:?} {:?}", id, self.stack.last().unwrap().0, want.segs, got.segs);
        }
        lost.insert((id, usize::MAX));
        false
    }
}

pub fn vidx(v: &VariantIdx) -> usize {
    v.to_index()
}
