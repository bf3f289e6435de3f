//! Compression kernels: recognition by value numbering, function summaries, folding into chains.
use crate::interp::*;
use crate::mem::*;
use crate::term::*;
use rustc_public::mir::Mutability;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
pub const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

/// RFC 7693 section 3.2 on concrete words (used by the random interpretation only)
pub fn f_concrete(h: &[u32; 8], m: &[u32; 16], t0: u32, t1: u32, f0: u32, f1: u32) -> [u32; 8] {
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t0;
    v[13] ^= t1;
    v[14] ^= f0;
    v[15] ^= f1;
    for s in SIGMA.iter() {
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        for i in 0..4 {
            g(i, 4 + i, 8 + i, 12 + i, m[s[2 * i]], m[s[2 * i + 1]]);
        }
        for i in 0..4 {
            g(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[s[8 + 2 * i]], m[s[9 + 2 * i]]);
        }
    }
    let mut o = [0; 8];
    for i in 0..8 {
        o[i] = h[i] ^ v[i] ^ v[i + 8];
    }
    o
}

impl Terms {
    /// RFC 7693 section 3.2 as terms
    pub fn f_spec(&mut self, f: &FArgs) -> [T; 8] {
        let mut v = [0 as T; 16];
        v[..8].copy_from_slice(&f.h);
        for i in 0..8 {
            v[8 + i] = self.k(32, IV[i] as u128);
        }
        v[12] = self.xor(v[12], f.t0);
        v[13] = self.xor(v[13], f.t1);
        v[14] = self.xor(v[14], f.f0);
        v[15] = self.xor(v[15], f.f1);
        let mut g = |tm: &mut Terms, a: usize, b: usize, c: usize, d: usize, x: T, y: T| {
            let s = tm.add(v[a], v[b]);
            v[a] = tm.add(s, x);
            let s = tm.xor(v[d], v[a]);
            v[d] = tm.rotr(s, 16);
            v[c] = tm.add(v[c], v[d]);
            let s = tm.xor(v[b], v[c]);
            v[b] = tm.rotr(s, 12);
            let s = tm.add(v[a], v[b]);
            v[a] = tm.add(s, y);
            let s = tm.xor(v[d], v[a]);
            v[d] = tm.rotr(s, 8);
            v[c] = tm.add(v[c], v[d]);
            let s = tm.xor(v[b], v[c]);
            v[b] = tm.rotr(s, 7);
        };
        for s in SIGMA.iter() {
            for i in 0..4 {
                g(self, i, 4 + i, 8 + i, 12 + i, f.m[s[2 * i]], f.m[s[2 * i + 1]]);
            }
            for i in 0..4 {
                g(self, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, f.m[s[8 + 2 * i]], f.m[s[9 + 2 * i]]);
            }
        }
        let mut o = [0; 8];
        for i in 0..8 {
            let x = self.xor(v[i], v[i + 8]);
            o[i] = self.xor(f.h[i], x);
        }
        o
    }

    /// Find the applications of the compression function inside a set of fully expanded terms, by
    /// inverting its first round.
    pub fn invert(&mut self, outs: &[T]) -> Vec<FArgs> {
        let mut seen = HashSet::new();
        let mut by: HashMap<T, Vec<A>> = HashMap::new();
        let mut vars: HashMap<A, Vec<T>> = HashMap::new();
        let mut single: Vec<(A, T, usize)> = vec![];
        for &o in outs {
            self.visit(o, &mut seen, &mut |a, at| {
                if let Atom::Sum { w: 32, l } = at {
                    let l = self.l(*l);
                    if l.v.iter().any(|x| x.1 != 1) {
                        return;
                    }
                    if l.c == 0 && l.v.len() <= 9 {
                        let v: Vec<T> = l.v.iter().map(|x| x.0).collect();
                        for t in &v {
                            by.entry(*t).or_default().push(a);
                        }
                        vars.insert(a, v);
                    } else if l.v.len() == 1 {
                        for i in 0..4 {
                            if l.c as u32 == IV[i] {
                                single.push((a, l.v[0].0, i));
                            }
                        }
                    }
                }
            });
        }
        let mut outx: HashSet<A> = HashSet::new();
        for &o in outs {
            for p in &self.terms[o as usize].ps {
                for x in &p.xs {
                    outx.insert(x.0);
                }
            }
        }
        let find = |n: usize, has: &[T], b: T| -> Vec<(A, T)> {
            let mut r = vec![];
            for a in by.get(&b).map(|v| v.as_slice()).unwrap_or(&[]) {
                let v = &vars[a];
                if v.len() == n && has.iter().all(|x| v.contains(x)) {
                    let rest: Vec<T> = v.iter().filter(|x| **x != b && !has.contains(x)).cloned().collect();
                    if rest.len() == 1 {
                        r.push((*a, rest[0]));
                    }
                }
            }
            r
        };
        struct Col {
            i: usize,
            hi: T,
            h4: T,
            m0: T,
            m1: T,
            t: T,
            a2: A,
            b2: T,
            c2: T,
            d2: T,
        }
        let tm = self;
        let mut cols: Vec<Col> = vec![];
        for (ca, d1, i) in single {
            let c1 = tm.atom_term[ca as usize];
            let u = tm.rotl(d1, 16);
            let mut at = vec![];
            tm.atoms_of(u, &mut at);
            for a in at {
                let Some(av) = vars.get(&a) else { continue };
                if av.len() != 3 {
                    continue;
                }
                let a1 = tm.atom_term[a as usize];
                let iv = tm.k(32, IV[4 + i] as u128);
                let t = tm.xor(u, a1);
                let t = tm.xor(t, iv);
                for &x in av {
                    let b1 = tm.xor(x, c1);
                    let b1 = tm.rotr(b1, 12);
                    for (a2, m1) in find(5, av, b1) {
                        let rest: Vec<T> = av.iter().filter(|y| **y != x).cloned().collect();
                        for (hi, m0) in [(rest[0], rest[1]), (rest[1], rest[0])] {
                            let mut ha = vec![];
                            tm.atoms_of(hi, &mut ha);
                            if !ha.iter().all(|q| outx.contains(q)) {
                                continue;
                            }
                            let a2t = tm.atom_term[a2 as usize];
                            let d = tm.xor(d1, a2t);
                            let d2 = tm.rotr(d, 8);
                            let c2 = tm.add(c1, d2);
                            let b = tm.xor(b1, c2);
                            let b2 = tm.rotr(b, 7);
                            cols.push(Col { i, hi, h4: x, m0, m1, t, a2, b2, c2, d2 });
                        }
                    }
                }
            }
        }
        // diagonal i: a from column i, b from i+1, c from i+2, d from i+3
        let mut res = vec![];
        for s in 0..cols.len() {
            if cols[s].i != 0 {
                continue;
            }
            // chains of linked columns 0 -> 1 -> 2 -> 3
            let mut parts: Vec<Vec<(usize, T)>> = vec![vec![(s, 0)]];
            for i in 0..4 {
                let mut next = vec![];
                for p in &parts {
                    let c = &cols[p[i].0];
                    let cand: Vec<usize> = if i == 3 { vec![s] } else { (0..cols.len()).filter(|&k| cols[k].i == i + 1).collect() };
                    for k in cand {
                        for (_, m) in find(7, &vars[&c.a2], cols[k].b2) {
                            let mut q = p.clone();
                            q[i].1 = m;
                            if i < 3 {
                                q.push((k, 0));
                            }
                            next.push(q);
                        }
                    }
                }
                parts = next;
            }
            'p: for p in parts {
                let mut m = [0 as T; 16];
                let mut h = [0 as T; 8];
                for i in 0..4 {
                    let c = &cols[p[i].0];
                    h[i] = c.hi;
                    h[4 + i] = c.h4;
                    m[2 * i] = c.m0;
                    m[2 * i + 1] = c.m1;
                    m[8 + 2 * i] = p[i].1;
                }
                for i in 0..4 {
                    let (ca, cb, cc, cd) = (&cols[p[i].0], &cols[p[(i + 1) % 4].0], &cols[p[(i + 2) % 4].0], &cols[p[(i + 3) % 4].0]);
                    let mut a3v = vars[&ca.a2].clone();
                    a3v.push(cb.b2);
                    a3v.push(p[i].1);
                    let l = Lin { v: a3v.iter().map(|t| (*t, 1)).collect(), c: 0 };
                    let l = Lin { v: { let mut v = l.v; v.sort(); v }, c: 0 };
                    let a3 = tm.mk_sum(32, l);
                    let d = tm.xor(cd.d2, a3);
                    let d3 = tm.rotr(d, 16);
                    let c3 = tm.add(cc.c2, d3);
                    let b = tm.xor(cb.b2, c3);
                    let b3 = tm.rotr(b, 12);
                    let f = find(9, &a3v, b3);
                    if f.is_empty() {
                        continue 'p;
                    }
                    m[9 + 2 * i] = f[0].1;
                }
                let t: Vec<T> = (0..4).map(|i| cols[p[i].0].t).collect();
                let f = FArgs { h, m, t0: t[0], t1: t[1], f0: t[2], f1: t[3] };
                if !res.contains(&f) {
                    res.push(f);
                }
            }
        }
        res
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leaf {
    /// bytes, or vector registers: little-endian words of the bytes
    Bytes,
    /// native integers
    Int(u8),
}

#[derive(Clone, Debug)]
pub struct KArg {
    pub by_ref: bool,
    pub mutable: bool,
    pub size: i128,
    /// (offset, width in bytes, native integer?)
    pub words: Vec<(i128, i128, bool)>,
    pub syms: Vec<T>,
}

pub struct Summary {
    pub args: Vec<KArg>,
    pub ret: Option<Vec<(i128, i128, bool)>>,
    pub ret_size: i128,
    pub lanes: Vec<FArgs>,
    /// per mutable argument (and the return value, last): new words, fully expanded / folded
    pub raw: Vec<(usize, Vec<Val>)>,
    pub out: Vec<(usize, Vec<Val>)>,
    pub ok: bool,
    pub why: String,
}

#[derive(Default)]
pub struct Kernels {
    pub tried: HashMap<FnId, Option<Rc<Summary>>>,
    pub busy: HashSet<FnId>,
    pub notes: BTreeMap<String, String>,
    pub stride: HashMap<Arr, i128>,
    pub applied: u64,
}

impl X {
    /// flatten a type into words
    pub fn leaves(&mut self, ty: Ty, off: i128, out: &mut Vec<(i128, Leaf, i128)>) -> bool {
        let n = self.size(ty);
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Uint(u)) => {
                let w = match u {
                    UintTy::U8 => {
                        out.push((off, Leaf::Bytes, 1));
                        return true;
                    }
                    UintTy::U16 | UintTy::U128 => return false,
                    UintTy::U32 => 4,
                    UintTy::U64 => 8,
                    UintTy::Usize => n,
                };
                out.push((off, Leaf::Int(w as u8), w));
                true
            }
            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => {
                out.push((off, Leaf::Int(4), 4));
                true
            }
            TyKind::RigidTy(RigidTy::Array(e, c)) => {
                let _ = c;
                let Some(c) = self.array_len(ty) else { return false };
                let es = self.size(e);
                if c > 4096 {
                    return false;
                }
                for i in 0..c as i128 {
                    if !self.leaves(e, off + i * es, out) {
                        return false;
                    }
                }
                true
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                if d.is_simd() {
                    out.push((off, Leaf::Bytes, n));
                    return true;
                }
                if d.kind() != AdtKind::Struct {
                    return false;
                }
                let lay = self.layout(ty);
                let offs: Vec<i128> = match &lay.fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as i128).collect(),
                    _ => return false,
                };
                let v = d.variants();
                for (i, f) in v[0].fields().iter().enumerate() {
                    if !self.leaves(f.ty_with_args(&a), off + offs[i], out) {
                        return false;
                    }
                }
                true
            }
            TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty() => true,
            _ => false,
        }
    }
    /// words covering a type, or nothing when it has other data in it
    pub fn words_of(&mut self, ty: Ty) -> Option<Vec<(i128, i128, bool)>> {
        let mut l = vec![];
        if !self.leaves(ty, 0, &mut l) {
            return None;
        }
        l.sort_by_key(|x| x.0);
        let mut out = vec![];
        let mut i = 0;
        while i < l.len() {
            match l[i].1 {
                Leaf::Int(w) => {
                    out.push((l[i].0, w as i128, true));
                    i += 1;
                }
                Leaf::Bytes => {
                    let lo = l[i].0;
                    let mut hi = lo;
                    while i < l.len() && l[i].1 == Leaf::Bytes && l[i].0 == hi {
                        hi += l[i].2;
                        i += 1;
                    }
                    if (hi - lo) % 4 != 0 {
                        return None;
                    }
                    for k in 0..(hi - lo) / 4 {
                        out.push((lo + 4 * k, 4, false));
                    }
                }
            }
        }
        Some(out)
    }
    fn le_cell(&mut self, t: T, native: bool) -> T {
        if native && self.m.big_endian {
            self.m.bswap(t)
        } else {
            t
        }
    }
    pub fn kernel_of(&mut self, f: FnId) -> Option<Rc<Summary>> {
        if let Some(r) = self.kern.tried.get(&f) {
            return r.clone();
        }
        self.kern.tried.insert(f, None);
        let r = self.kernel_try(f).map(Rc::new);
        self.kern.tried.insert(f, r.clone());
        r
    }
    fn kernel_try(&mut self, f: FnId) -> Option<Summary> {
        let inst = self.fns[f as usize];
        if !self.is_local_fn(f) || !inst.has_body() {
            return None;
        }
        let k = inst.ty().kind();
        if !matches!(k, TyKind::RigidTy(RigidTy::FnDef(..))) {
            return None;
        }
        let sig = k.fn_sig()?.skip_binder();
        let ins = sig.inputs().to_vec();
        if ins.len() < 2 {
            return None;
        }
        let mut args = vec![];
        let (mut mu, mut im) = (0, 0);
        for (i, ty) in ins.iter().enumerate() {
            let (t, by_ref, mutable) = match ty.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, m)) => (t, true, m == Mutability::Mut),
                _ => (*ty, false, false),
            };
            if by_ref {
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..))) {
                    return None;
                }
            }
                let words = self.words_of(t)?;
            let size = self.size(t);
            if size > 4096 {
                return None;
            }
            if mutable {
                mu += size;
            } else {
                im += size;
            }
            let mut syms = vec![];
            for (j, w) in words.iter().enumerate() {
                let n = format!("k{}_{}", i, j);
                syms.push(if by_ref { self.m.t.secret_sym(&n, 8 * w.1 as u32) } else { self.m.t.sym(&n, 8 * w.1 as u32) });
            }
            args.push(KArg { by_ref, mutable, size, words, syms });
        }
        let out_ty = sig.output();
        let ret_size = self.size(out_ty);
        let ret = if ret_size == 0 { None } else { Some(self.words_of(out_ty)?) };
        if mu + ret_size < 32 || mu + im < 96 || (mu == 0 && im < 96) {
            return None;
        }
        // stand-alone run on symbols
        let mut st = self.new_st();
        let mut av = vec![];
        let mut objs = vec![];
        for a in &args {
            let z = self.m.t.lc(0);
            let hi = self.m.t.lc(a.size);
            let mut segs = vec![];
            let mut pos = 0;
            for (w, s) in a.words.iter().zip(&a.syms) {
                if w.0 > pos {
                    let (lo, h) = (self.m.t.lc(pos), self.m.t.lc(w.0));
                    segs.push(Seg { lo, hi: h, k: K::Undef });
                }
                let t = self.le_cell(*s, w.2);
                let (lo, h) = (self.m.t.lc(w.0), self.m.t.lc(w.0 + w.1));
                segs.push(Seg { lo, hi: h, k: K::Cell(Val::I(t)) });
                pos = w.0 + w.1;
            }
            if a.by_ref {
                let o = st.new_root(Obj { size: hi, segs, al: 5 });
                objs.push(Some(o));
                av.push(Rv::S(Val::P(Ptr { o, off: Some(z), lo: z, hi })));
            } else {
                objs.push(None);
                if a.words.len() == 1 && a.words[0].2 {
                    av.push(Rv::S(Val::I(a.syms[0])));
                } else {
                    av.push(Rv::B(segs));
                }
            }
        }
        let nev = self.ev.len();
        let sv = (self.nofork, self.limit, std::mem::take(&mut self.stack), std::mem::take(&mut self.fstack));
        self.nofork = true;
        self.standalone += 1;
        let lim = self.steps + 3_000_000;
        self.limit = sv.1.min(lim);
        let r = self.call_body(st, f, av);
        self.nofork = sv.0;
        self.limit = sv.1;
        self.stack = sv.2;
        self.fstack = sv.3;
        self.standalone -= 1;
        let name = self.fnames[f as usize].clone();
        let outs = match r {
            Ok(v) => v,
            Err(e) => {
                self.ev.truncate(nev);
                let w = match e {
                    Er::Unsup(m) => m,
                    Er::Split(l) => format!("undecided {}", { let l = self.m.t.lin(l); self.m.t.show_lin(l, 3) }),
                    Er::SplitT(t) => format!("undecided {}", self.m.t.show_d(t, 4)),
                    Er::Dead => "dead".into(),
                };
                self.kern.notes.insert(name, format!("not run on symbols: {}", w));
                return None;
            }
        };
        if outs.len() != 1 {
            self.ev.truncate(nev);
            self.kern.notes.insert(name, "several outcomes".into());
            return None;
        }
        let (st, rv) = outs.into_iter().next().unwrap();
        let mut raw: Vec<(usize, Vec<Val>)> = vec![];
        for (i, a) in args.iter().enumerate() {
            if !a.mutable {
                continue;
            }
            let mut v = vec![];
            for w in &a.words {
                let off = self.m.t.lc(w.0);
                let (z, h) = (self.m.t.lc(0), self.m.t.lc(a.size));
                let x = self.m.read_scalar(&st, objs[i].unwrap(), off, w.1, z, h).unwrap_or(Val::Top);
                v.push(match x {
                    Val::I(t) => Val::I(self.le_cell(t, w.2)),
                    _ => Val::Top,
                });
            }
            raw.push((i, v));
        }
        if let Some(ws) = &ret {
            let segs = self.segs_of(&rv, ret_size);
            let hi = self.m.t.lc(ret_size);
            let mut s2 = st.clone();
            let o = s2.new_root(Obj { size: hi, segs, al: 0 });
            let z = self.m.t.lc(0);
            let mut v = vec![];
            for w in ws {
                let off = self.m.t.lc(w.0);
                let x = self.m.read_scalar(&s2, o, off, w.1, z, hi).unwrap_or(Val::Top);
                v.push(match x {
                    Val::I(t) => Val::I(self.le_cell(t, w.2)),
                    _ => Val::Top,
                });
            }
            raw.push((args.len(), v));
        }
        // recognise the compression function in the results
        let mut ot = vec![];
        for (_, v) in &raw {
            for x in v {
                if let Val::I(t) = x {
                    let w = self.m.t.w(*t);
                    for k in 0..w / 32 {
                        ot.push(self.m.t.slice(*t, 32 * k, 32));
                    }
                }
            }
        }
        let lanes = self.m.t.invert(&ot);
        let mut map: HashMap<T, T> = HashMap::new();
        let mut used = vec![];
        for l in lanes {
            let s = self.m.t.f_spec(&l);
            if s.iter().all(|x| ot.contains(x)) {
                let k = self.m.t.fk(l.clone());
                for i in 0..8 {
                    let a = self.m.t.atom(Atom::F { k, i: i as u8 });
                    map.insert(s[i], a);
                }
                used.push(l);
            }
        }
        let mut out = raw.clone();
        let mut ok = true;
        let mut why = String::new();
        for (_, v) in out.iter_mut() {
            for x in v.iter_mut() {
                if let Val::I(t) = *x {
                    let w = self.m.t.w(t);
                    let mut ps = vec![];
                    let mut k = 0;
                    while k < w {
                        let n = 32.min(w - k);
                        let p = self.m.t.slice(t, k, n);
                        ps.push(map.get(&p).cloned().unwrap_or(p));
                        k += 32;
                    }
                    let n = self.m.t.concat(&ps);
                    *x = Val::I(n);
                    let mut sum = false;
                    self.m.t.visit(n, &mut Default::default(), &mut |_, a| sum |= matches!(a, Atom::Sum { .. }));
                    if sum {
                        ok = false;
                        why = "an output is not the compression function".into();
                    }
                }
            }
        }
        // applications met in calls made by this function
        for (_, v) in &out {
            for x in v {
                if let Val::I(t) = x {
                    let mut ks = vec![];
                    self.m.t.visit(*t, &mut Default::default(), &mut |_, a| {
                        if let Atom::F { k, .. } = a {
                            ks.push(*k)
                        }
                    });
                    for k in ks {
                        let l = self.m.t.fargs[k as usize].clone();
                        if !used.contains(&l) {
                            used.push(l);
                        }
                    }
                }
            }
        }
        {
            let tm = &mut self.m.t;
            used.sort_by_key(|l| tm.fk(l.clone()));
        }
        if used.is_empty() {
            ok = false;
            why = "no application of the compression function recognised".into();
        }
        if !ok {
            self.kern.notes.insert(name, why.clone());
        } else {
            self.kern.notes.insert(name, format!("{} lane(s) of the compression function", used.len()));
        }
        Some(Summary { args, ret, ret_size, lanes: used, raw, out, ok, why })
    }

    pub fn kernel_call(&mut self, st: &St, f: FnId, args: &[Rv]) -> Rs<Option<Vec<(St, Rv)>>> {
        if args.len() < 2 {
            return Ok(None);
        }
        let sm = match self.kernel_of(f) {
            Some(s) if s.ok && s.args.len() == args.len() => s,
            _ => return Ok(None),
        };
        let mut st = st.clone();
        let mut sub: HashMap<A, T> = HashMap::new();
        let mut ptrs: Vec<Option<Ptr>> = vec![];
        for (a, v) in sm.args.iter().zip(args) {
            if a.by_ref {
                let p = match self.sc(v, self.m.ptr) {
                    Val::P(p) if p.off.is_some() => p,
                    _ => return unsup("kernel argument is not a tracked pointer"),
                };
                ptrs.push(Some(p));
                let n = self.m.t.lc(a.size);
                self.check(&mut st, p.o, p.off.unwrap(), n, "read")?;
                for (w, s) in a.words.iter().zip(&a.syms) {
                    let off = self.m.t.laddc(p.off.unwrap(), w.0);
                    let x = self.m.read_scalar(&st, p.o, off, w.1, p.lo, p.hi)?;
                    let t = match x {
                        Val::I(t) => self.le_cell(t, w.2),
                        _ => self.m.t.fresh_unk(8 * w.1 as u32),
                    };
                    let at = self.m.t.as_atom(*s).unwrap();
                    sub.insert(at, t);
                }
            } else {
                ptrs.push(None);
                if a.words.len() == 1 && a.words[0].2 {
                    let t = match self.sc(v, a.size) {
                        Val::I(t) => t,
                        _ => self.m.t.fresh_unk(8 * a.size as u32),
                    };
                    let at = self.m.t.as_atom(a.syms[0]).unwrap();
                    sub.insert(at, t);
                } else {
                    let segs = self.segs_of(v, a.size);
                    let hi = self.m.t.lc(a.size);
                    let z = self.m.t.lc(0);
                    let o = st.new_root(Obj { size: hi, segs, al: 0 });
                    for (w, s) in a.words.iter().zip(&a.syms) {
                        let off = self.m.t.lc(w.0);
                        let x = self.m.read_scalar(&st, o, off, w.1, z, hi)?;
                        let t = match x {
                            Val::I(t) => self.le_cell(t, w.2),
                            _ => self.m.t.fresh_unk(8 * w.1 as u32),
                        };
                        let at = self.m.t.as_atom(*s).unwrap();
                        sub.insert(at, t);
                    }
                    let fr = Rc::make_mut(&mut st.fr[0]);
                    fr.pop();
                }
            }
        }
        // mutable arguments must not overlap anything else (guaranteed by the borrow rules; the
        // pointers come from references)
        self.kern.applied += 1;
        let mut memo: HashMap<A, T> = HashMap::new();
        for l in &sm.lanes {
            let g = self.sub_f(l, &sub, &memo);
            let r = self.fold(&mut st, g);
            let k = self.m.t.fk(l.clone());
            for i in 0..8 {
                let at = self.m.t.atom(Atom::F { k, i: i as u8 });
                let at = self.m.t.as_atom(at).unwrap();
                memo.insert(at, r[i]);
            }
        }
        let mut rv = Rv::B(vec![]);
        for (i, v) in &sm.out {
            let words = if *i == sm.args.len() { sm.ret.clone().unwrap() } else { sm.args[*i].words.clone() };
            let mut vals = vec![];
            for x in v {
                vals.push(match x {
                    Val::I(t) => {
                        let mut mm = memo.clone();
                        let s2 = &sub;
                        let n = self.m.t.rebuild(*t, &mut mm, &mut |_, a| s2.get(&a).cloned(), &mut |_, l| l);
                        if self.m.t.has_unk(n) && self.m.t.as_atom(n).is_some() {
                            let at = self.m.t.as_atom(n).unwrap();
                            if matches!(self.m.t.atoms[at as usize], Atom::Unk { .. }) {
                                Val::Top
                            } else {
                                Val::I(n)
                            }
                        } else {
                            Val::I(n)
                        }
                    }
                    _ => Val::Top,
                });
            }
            if *i == sm.args.len() {
                let mut segs = vec![];
                for (w, x) in words.iter().zip(vals) {
                    let (lo, hi) = (self.m.t.lc(w.0), self.m.t.lc(w.0 + w.1));
                    let k = match x {
                        Val::I(t) => K::Cell(Val::I(self.le_cell(t, w.2))),
                        _ => K::Top,
                    };
                    segs.push(Seg { lo, hi, k });
                }
                rv = Rv::B(segs);
            } else {
                let p = ptrs[*i].unwrap();
                for (w, x) in words.iter().zip(vals) {
                    let x = match x {
                        Val::I(t) => Val::I(self.le_cell(t, w.2)),
                        _ => Val::Top,
                    };
                    let off = self.m.t.laddc(p.off.unwrap(), w.0);
                    let n = self.m.t.lc(w.1);
                    let seg = self.m.scalar_seg(x, w.1);
                    self.m.write_range(&mut st, p.o, off, n, &[seg])?;
                }
            }
        }
        Ok(Some(vec![(st, rv)]))
    }
    fn sub_f(&mut self, l: &FArgs, sub: &HashMap<A, T>, memo: &HashMap<A, T>) -> FArgs {
        let mut g = l.clone();
        let mut memo = memo.clone();
        let tm = &mut self.m.t;
        for x in g.h.iter_mut().chain(g.m.iter_mut()).chain([&mut g.t0, &mut g.t1, &mut g.f0, &mut g.f1]) {
            *x = tm.rebuild(*x, &mut memo, &mut |_, a| sub.get(&a).cloned(), &mut |_, l| l);
        }
        g
    }
    /// the first byte position when the sixteen words are consecutive bytes of a named array
    pub fn block_of(&mut self, st: &mut St, m: &[T; 16]) -> Option<(Arr, L)> {
        let mut start = None;
        for (j, &t) in m.iter().enumerate() {
            for b in 0..4 {
                let x = self.m.t.slice(t, 8 * b, 8);
                let a = self.m.t.as_atom(x)?;
                let Atom::Byte { arr, idx } = self.m.t.atoms[a as usize].clone() else { return None };
                if !matches!(self.m.t.arrs[arr as usize], ArrK::Base { .. }) {
                    return None;
                }
                let p = 4 * j as i128 + b as i128;
                match start {
                    None => start = Some((arr, idx)),
                    Some((a0, i0)) => {
                        let e = self.m.t.laddc(i0, p);
                        if a0 != arr || !(e == idx || self.m.eq(st, e, idx)) {
                            return None;
                        }
                    }
                }
            }
        }
        start
    }
    pub fn chain_of(&self, h: &[T; 8]) -> Option<(u32, L)> {
        let mut r = None;
        for (i, &t) in h.iter().enumerate() {
            let a = self.m.t.as_atom(t)?;
            let Atom::Chain { s, i: ix, n } = self.m.t.atoms[a as usize] else { return None };
            if ix as usize != i {
                return None;
            }
            match r {
                None => r = Some((s, n)),
                Some(x) if x == (s, n) => {}
                _ => return None,
            }
        }
        r
    }
    pub fn f_atoms(&mut self, g: FArgs) -> [T; 8] {
        let k = self.m.t.fk(g);
        let mut r = [0; 8];
        for i in 0..8 {
            r[i] = self.m.t.atom(Atom::F { k, i: i as u8 });
        }
        r
    }
    /// the result of one application of the compression function
    pub fn fold(&mut self, st: &mut St, mut g: FArgs) -> [T; 8] {
        if self.standalone > 0 {
            return self.f_atoms(g);
        }
        // a counter that is known on this path
        if self.m.t.as_const(g.t0).is_none() && !self.m.t.has_unk(g.t0) && !self.m.t.has_unk(g.t1) {
            let t = self.m.t.concat(&[g.t0, g.t1]);
            let l = self.m.lift(st, t);
            let e = st.s.apply(self.m.t.l(l));
            if e.v.is_empty() && (0..1 << 62).contains(&e.c) {
                g.t0 = self.m.t.k(32, e.c as u128 & 0xffffffff);
                g.t1 = self.m.t.k(32, e.c as u128 >> 32);
            }
        }
        let all: Vec<T> = g.h.iter().chain(g.m.iter()).cloned().chain([g.t0, g.t1, g.f0, g.f1]).collect();
        if all.iter().any(|t| self.m.t.has_unk(*t)) {
            let mut r = [0; 8];
            for x in r.iter_mut() {
                *x = self.m.t.fresh_unk(32);
            }
            return r;
        }
        if self.m.t.as_const(g.f0) != Some(0) || self.m.t.as_const(g.f1) != Some(0) {
            return self.f_atoms(g);
        }
        let Some((arr, e)) = self.block_of(st, &g.m) else { return self.f_atoms(g) };
        let t = self.m.t.concat(&[g.t0, g.t1]);
        let tl = self.m.lift(st, t);
        if let Some((s, n)) = self.chain_of(&g.h) {
            let sm = self.m.t.streams[s as usize].clone();
            let want = self.m.t.lmul(n, sm.stride);
            let want = self.m.t.ladd(want, sm.off);
            let tw = self.m.t.laddc(n, 1);
            let tw = self.m.t.lmul(tw, 64);
            let tw = self.m.t.ladd(tw, sm.tbase);
            if sm.base == arr && self.m.eq(st, want, e) && self.m.eq(st, tw, tl) {
                let n1 = self.m.t.laddc(n, 1);
                let mut r = [0; 8];
                for i in 0..8 {
                    r[i] = self.m.t.chain(s, i as u8, n1);
                }
                return r;
            }
            if sm.base == arr && self.m.eq(st, want, e) && self.odd_counter(st, s, n, &g, tw) {
                let n1 = self.m.t.laddc(n, 1);
                let mut r = [0; 8];
                for i in 0..8 {
                    r[i] = self.m.t.chain(s, i as u8, n1);
                }
                return r;
            }
            return self.f_atoms(g);
        }
        let stride = self.kern.stride.get(&arr).cloned().unwrap_or(64);
        let tb = self.m.t.laddc(tl, -64);
        let mut s = None;
        for i in 0..self.m.t.streams.len() {
            let c = self.m.t.streams[i].clone();
            if c.init == g.h && c.base == arr && c.stride == stride && self.m.eq(st, c.off, e) && self.m.eq(st, c.tbase, tb) {
                s = Some(i as u32);
                break;
            }
        }
        let s = s.unwrap_or_else(|| self.stream(g.h, arr, stride, e, tb));
        let one = self.m.t.lc(1);
        let mut r = [0; 8];
        for i in 0..8 {
            r[i] = self.m.t.chain(s, i as u8, one);
        }
        r
    }
    /// the blocks are those of the chain, but for some iteration the byte counter is another one
    fn odd_counter(&mut self, st: &mut St, s: u32, n: L, g: &FArgs, tw: L) -> bool {
        let o = Odd { s, n, t0: g.t0, t1: g.t1, tw };
        if let Some(i) = self.m.t.odd.iter().position(|x| *x == o) {
            if !st.odd.contains(&(i as u32)) {
                st.odd.push(i as u32);
            }
            return true;
        }
        let e = self.m.t.l(n).clone();
        let dbg = std::env::var("BSA_ODD").is_ok();
        if dbg {
            eprintln!("odd? n {} t0 {} t1 {} tw {}", self.m.t.show_lin(n, 3), self.m.t.show_d(g.t0, 4), self.m.t.show_d(g.t1, 4), self.m.t.show_lin(tw, 4));
        }
        if e.v.len() != 1 || e.v[0].1 != 1 {
            return false;
        }
        let mut pts = self.big_points(st, &[e.v[0].0]);
        pts.extend(self.points(st, 10));
        for (vals, over) in pts {
            let top = vals.get(&e.v[0].0).cloned().unwrap_or(0);
            if dbg {
                eprintln!("  at {} top {}", self.show_point(&vals), top);
            }
            let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
            ev.over = over;
            if ev.odd_at(&o, top + e.c).is_some() {
                st.odd.push(self.m.t.odd.len() as u32);
                self.m.t.odd.push(o);
                return true;
            }
        }
        false
    }
    pub fn stream(&mut self, init: [T; 8], base: Arr, stride: i128, off: L, tbase: L) -> u32 {
        for (i, s) in self.m.t.streams.iter().enumerate() {
            if s.init == init && s.base == base && s.stride == stride && s.off == off && s.tbase == tbase {
                return i as u32;
            }
        }
        let i = self.m.t.streams.len() as u32;
        let name = format!("{}", i);
        self.m.t.streams.push(Stream { name, init, base, stride, off, tbase });
        i
    }
}

/// Random interpretation of terms: confirms that two different normal forms really are different.
pub struct Eval<'a> {
    pub t: &'a Terms,
    pub vals: HashMap<T, i128>,
    pub salt: u64,
    /// varies the secret inputs only
    pub ssalt: u64,
    /// chains that are not quite chains on this path
    pub odd: Vec<Odd>,
    memo: HashMap<A, u128>,
    chains: HashMap<(u32, i128), [u32; 8]>,
    pub lost: bool,
    /// array bytes fixed by the path
    pub over: HashMap<(Arr, i128), u8>,
}
fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^= x >> 33;
    x
}
/// stands for the contents of the inputs in a point
pub const SALT: T = T::MAX;
impl<'a> Eval<'a> {
    pub fn new(t: &'a Terms, mut vals: HashMap<T, i128>, salt: u64) -> Self {
        let salt = vals.remove(&SALT).map_or(salt, |x| x as u64);
        Eval { t, vals, salt, ssalt: 0, odd: vec![], memo: HashMap::new(), chains: HashMap::new(), lost: false, over: HashMap::new() }
    }
    fn h(&self, a: u64, b: u64) -> u64 {
        mix(mix(self.salt.wrapping_mul(0x9E3779B97F4A7C15) ^ a).wrapping_add(b.wrapping_mul(0xD1B54A32D192ED03)))
    }
    pub fn term(&mut self, t: T) -> Option<u128> {
        if let Some(v) = self.vals.get(&t) {
            return Some(*v as u128 & mask(self.t.w(t)));
        }
        let tt = &self.t.terms[t as usize];
        let mut r = 0u128;
        let mut pos = 0;
        for p in &tt.ps {
            let mut v = p.c;
            for x in &p.xs {
                v ^= self.atom(x.0)? >> x.1;
            }
            if pos >= 128 {
                return None;
            }
            r |= (v & mask(p.w)) << pos;
            pos += p.w;
        }
        Some(r)
    }
    pub fn lin(&mut self, l: L) -> Option<i128> {
        let e = self.t.l(l).clone();
        let mut r = e.c;
        for (t, k) in e.v {
            r += k * self.term(t)? as i128;
        }
        Some(r)
    }
    /// an iteration up to `top` whose byte counter is wrong
    pub fn odd_at(&mut self, o: &Odd, top: i128) -> Option<i128> {
        let e = self.t.l(o.n).clone();
        let mut ks = vec![top, top - 1, top / 2];
        ks.extend((1..58).map(|b| 1i128 << b).filter(|x| *x < top));
        // where a carry into the upper word happens
        for b in [26, 27, 20, 30, 32] {
            ks.extend((-6..=6).filter(|d| *d != 0).map(|d| (1i128 << b) + d).filter(|x| *x < top && *x > 0));
        }
        for k in ks {
            let mut vals = self.vals.clone();
            vals.insert(e.v[0].0, k - e.c);
            let mut ev = Eval::new(self.t, vals, self.salt);
            ev.over = self.over.clone();
            let (Some(a), Some(b), Some(w)) = (ev.term(o.t0), ev.term(o.t1), ev.lin(o.tw)) else { continue };
            if !ev.lost && (a, b) != (w as u128 & 0xffff_ffff, w as u128 >> 32 & 0xffff_ffff) {
                return Some(k);
            }
        }
        None
    }
    pub fn set_atom(&mut self, a: A, v: u128) {
        self.memo.insert(a, v & mask(self.t.w(self.t.atom_term[a as usize])));
    }
    pub fn arr(&mut self, a: Arr, i: i128) -> Option<u8> {
        match &self.t.arrs[a as usize] {
            ArrK::Base { name, secret } => match self.over.get(&(a, i)) {
                Some(v) => Some(*v),
                None => {
                    let extra = if *secret { self.ssalt << 32 } else { 0 };
                    Some(self.h(*name as u64 + 1000 + extra, i as u64) as u8)
                }
            },
            ArrK::Const(v) => v.get(i as usize).cloned(),
            ArrK::Segs(s) => {
                for (lo, hi, k) in s.clone() {
                    let (l, h) = (self.lin(lo)?, self.lin(hi)?);
                    if l <= i && i < h {
                        return match k {
                            SegV::Src(b, d) => {
                                let d = self.lin(d)?;
                                self.arr(b, i + d)
                            }
                            SegV::Fill(t) => Some(self.term(t)? as u8),
                            SegV::Cell(t) => Some((self.term(t)? >> (8 * (i - l))) as u8),
                            SegV::Top => {
                                self.lost = true;
                                None
                            }
                        };
                    }
                }
                None
            }
        }
    }
    /// the named byte an array element stands for
    fn base_byte(&mut self, a: Arr, i: i128) -> Option<(Arr, i128)> {
        match &self.t.arrs[a as usize] {
            ArrK::Base { .. } => Some((a, i)),
            ArrK::Const(_) => None,
            ArrK::Segs(s) => {
                for (lo, hi, k) in s.clone() {
                    let (l, h) = (self.lin(lo)?, self.lin(hi)?);
                    if l <= i && i < h {
                        return match k {
                            SegV::Src(b, d) => {
                                let d = self.lin(d)?;
                                self.base_byte(b, i + d)
                            }
                            _ => None,
                        };
                    }
                }
                None
            }
        }
    }
    /// choose bytes such that a term has a value, as far as it is made of plain bytes
    pub fn solve(&mut self, t: T, v: u128, over: &mut HashMap<(Arr, i128), u8>) {
        self.solve_d(t, v, over, 0)
    }
    fn solve_d(&mut self, t: T, v: u128, over: &mut HashMap<(Arr, i128), u8>, depth: u32) {
        let ps = self.t.terms[t as usize].ps.clone();
        let mut pos = 0;
        for p in ps {
            if pos < 128 {
                let mut want = (v >> pos) ^ p.c;
                // one of the summands takes the others' place
                let byte = p.xs.iter().position(|x| matches!(self.t.atoms[x.0 as usize], Atom::Byte { .. }));
                let or = p.xs.iter().position(|x| matches!(self.t.atoms[x.0 as usize], Atom::Op { op: Op::Or | Op::And, .. }));
                if let Some(pick) = byte.or(or) {
                    let mut known = true;
                    for (i, x) in p.xs.iter().enumerate() {
                        if i != pick {
                            match self.atom(x.0) {
                                Some(y) => want ^= y >> x.1,
                                None => known = false,
                            }
                        }
                    }
                    let want = want & mask(p.w);
                    let (a, off) = p.xs[pick];
                    match self.t.atoms[a as usize].clone() {
                        Atom::Byte { arr, idx } if known => {
                            if let Some(i) = self.lin(idx) {
                                if let Some(b) = self.base_byte(arr, i) {
                                    let old = self.arr(b.0, b.1).unwrap_or(0);
                                    let m = (mask(p.w) << off) as u8;
                                    let x = (want << off) as u8;
                                    let old = *over.get(&b).unwrap_or(&old);
                                    over.insert(b, old & !m | x & m);
                                }
                            }
                        }
                        Atom::Op { op: Op::Or, args, .. } if known && want == 0 && off == 0 && depth < 100 => {
                            for a in args {
                                if self.t.w(a) == p.w {
                                    self.solve_d(a, 0, over, depth + 1);
                                }
                            }
                        }
                        Atom::Op { op: Op::And, args, .. } if known && want == mask(p.w) && off == 0 && depth < 100 => {
                            for a in args {
                                if self.t.w(a) == p.w {
                                    self.solve_d(a, want, over, depth + 1);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            pos += p.w;
        }
    }
    fn chain(&mut self, s: u32, n: i128) -> Option<[u32; 8]> {
        if n < 0 || n > 100_000 {
            return None;
        }
        if let Some(c) = self.chains.get(&(s, n)) {
            return Some(*c);
        }
        if self.odd.iter().any(|o| o.s == s) {
            return None;
        }
        let st = self.t.streams[s as usize].clone();
        let mut h = [0u32; 8];
        for i in 0..8 {
            h[i] = self.term(st.init[i])? as u32;
        }
        let (off, tb) = (self.lin(st.off)?, self.lin(st.tbase)?);
        for b in 0..n {
            let mut m = [0u32; 16];
            for j in 0..16 {
                for q in 0..4 {
                    m[j] |= (self.arr(st.base, off + b * st.stride + 4 * j as i128 + q)? as u32) << (8 * q);
                }
            }
            let t = 64 * (b + 1) + tb;
            h = f_concrete(&h, &m, t as u32, (t >> 32) as u32, 0, 0);
        }
        self.chains.insert((s, n), h);
        Some(h)
    }
    fn atom(&mut self, a: A) -> Option<u128> {
        if let Some(v) = self.memo.get(&a) {
            return Some(*v);
        }
        let at = self.t.atom_term[a as usize];
        if let Some(v) = self.vals.get(&at) {
            return Some(*v as u128 & mask(self.t.w(at)));
        }
        let r = match self.t.atoms[a as usize].clone() {
            Atom::Sym { name, w } => {
                let e = if self.t.secret_syms.contains(&name) { self.ssalt << 32 } else { 0 };
                let x = self.h(1 + e, name as u64) as u128 | (self.h(2 + e, name as u64) as u128) << 64;
                x & mask(w)
            }
            Atom::Unk { id, w } => {
                self.lost = true;
                self.h(3, id as u64) as u128 & mask(w)
            }
            Atom::Sum { w, l } => {
                let e = self.t.l(l).clone();
                let mut r = e.c as u128;
                for (t, k) in e.v {
                    r = r.wrapping_add((k as u128).wrapping_mul(self.term(t)?));
                }
                r & mask(w)
            }
            Atom::Byte { arr, idx } => {
                let i = self.lin(idx)?;
                self.arr(arr, i)? as u128
            }
            Atom::F { k, i } => {
                let f = self.t.fargs[k as usize].clone();
                let mut h = [0u32; 8];
                let mut m = [0u32; 16];
                for j in 0..8 {
                    h[j] = self.term(f.h[j])? as u32;
                }
                for j in 0..16 {
                    m[j] = self.term(f.m[j])? as u32;
                }
                let (t0, t1) = (self.term(f.t0)? as u32, self.term(f.t1)? as u32);
                let (f0, f1) = (self.term(f.f0)? as u32, self.term(f.f1)? as u32);
                f_concrete(&h, &m, t0, t1, f0, f1)[i as usize] as u128
            }
            Atom::Chain { s, i, n } => {
                let n = self.lin(n)?;
                self.chain(s, n)?[i as usize] as u128
            }
            Atom::Op { op: Op::Feature, args, .. } => {
                let c = self.term(args[0])?;
                self.h(4, c as u64) as u128 & 1
            }
            Atom::Op { op, w, args } => {
                let mut c = vec![];
                for &x in &args {
                    c.push(self.term(x)?);
                }
                let aw = args.first().map(|x| self.t.w(*x)).unwrap_or(0);
                eval_op(op, w, aw, &c) & mask(w)
            }
        };
        self.memo.insert(a, r);
        Some(r)
    }
}
