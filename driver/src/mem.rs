//! Abstract memory: objects are sequences of segments whose bounds are linear expressions.
use crate::num::*;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct ObjId {
    pub f: u16,
    pub i: u32,
}
pub const CONSTF: u16 = 0xffff;

pub type FnId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub o: ObjId,
    /// offset; `None` when the analysis does not track it (don't-care data)
    pub off: Option<L>,
    /// the part of the object this pointer was derived from
    pub lo: L,
    pub hi: L,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    I(T),
    P(Ptr),
    F(FnId),
    Top,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Cell(Val),
    /// byte at position p is arr[p + delta]
    Src(Arr, L),
    Fill(T),
    Undef,
    Top,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub lo: L,
    pub hi: L,
    pub k: K,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obj {
    pub size: L,
    pub segs: Vec<Seg>,
    /// log2 of the alignment
    pub al: u8,
}

pub type Frame = Vec<Rc<Obj>>;

#[derive(Clone)]
pub struct St {
    pub fr: Vec<Rc<Frame>>,
    pub s: Rc<Store>,
    pub pc: Vec<(u64, L)>,
    pub imp: bool,
    /// what has been handed to the formatter on this path (indices; u32::MAX: unknown)
    pub log: Vec<u32>,
    /// chains with a wrong byte counter somewhere (indices of `Terms::odd`)
    pub odd: Vec<u32>,
}

#[derive(Debug, Clone)]
pub enum Er {
    /// the sign of this expression decides how to go on
    Split(Lin),
    /// this one-bit term decides how to go on
    SplitT(T),
    Unsup(String),
    /// the path cannot continue
    Dead,
}
pub type Rs<X> = Result<X, Er>;

pub fn unsup<X>(s: impl Into<String>) -> Rs<X> {
    Err(Er::Unsup(s.into()))
}

impl St {
    pub fn store(&mut self) -> &mut Store {
        Rc::make_mut(&mut self.s)
    }
    pub fn set_obj(&mut self, o: ObjId, ob: Obj) {
        let f = Rc::make_mut(&mut self.fr[o.f as usize]);
        f[o.i as usize] = Rc::new(ob);
    }
    pub fn obj_mut(&mut self, o: ObjId) -> &mut Obj {
        let f = Rc::make_mut(&mut self.fr[o.f as usize]);
        Rc::make_mut(&mut f[o.i as usize])
    }
    pub fn new_root(&mut self, ob: Obj) -> ObjId {
        let f = Rc::make_mut(&mut self.fr[0]);
        f.push(Rc::new(ob));
        ObjId { f: 0, i: f.len() as u32 - 1 }
    }
}

/// Term table plus the constant objects: everything the memory operations need.
pub struct M {
    pub t: Terms,
    pub consts: Vec<Rc<Obj>>,
    pub big_endian: bool,
    pub ptr: i128,
    /// nested snapshots being compared
    pub nest: u32,
}

impl M {
    pub fn obj(&self, st: &St, o: ObjId) -> Rc<Obj> {
        if o.f == CONSTF {
            self.consts[o.i as usize].clone()
        } else {
            st.fr[o.f as usize][o.i as usize].clone()
        }
    }
    pub fn new_obj(&mut self, size: L, k: K) -> Obj {
        let z = self.t.lc(0);
        if self.t.lconst(size) == Some(0) {
            return Obj { size, segs: vec![], al: 0 };
        }
        Obj { size, segs: vec![Seg { lo: z, hi: size, k }], al: 0 }
    }

    // ----- numeric queries
    pub fn le(&mut self, st: &St, a: L, b: L) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        if let (Some(x), Some(y)) = (self.t.lconst(a), self.t.lconst(b)) {
            return Some(x <= y);
        }
        let d = lin_add(self.t.l(b), self.t.l(a), -1);
        if d.v.is_empty() {
            return Some(d.c >= 0);
        }
        if st.s.ge(&d) {
            return Some(true);
        }
        let mut n = lin_mul(&d, -1);
        n.c -= 1;
        if st.s.ge(&n) {
            return Some(false);
        }
        None
    }
    pub fn eq(&mut self, st: &St, a: L, b: L) -> bool {
        if a == b {
            return true;
        }
        if let (Some(x), Some(y)) = (self.t.lconst(a), self.t.lconst(b)) {
            return x == y;
        }
        let d = lin_add(self.t.l(b), self.t.l(a), -1);
        st.s.eq0(&d)
    }
    /// a - b when constant on this path
    pub fn diff(&mut self, st: &St, a: L, b: L) -> Option<i128> {
        let d = lin_add(self.t.l(a), self.t.l(b), -1);
        if d.v.is_empty() {
            return Some(d.c);
        }
        let d = st.s.apply(&d);
        if d.v.is_empty() {
            return Some(d.c);
        }
        None
    }
    pub fn lin_l(&mut self, l: &Lin) -> L {
        self.t.lin(l.clone())
    }

    /// Unsigned integer value of a term as a linear expression over dimensions of the store.
    pub fn lift(&mut self, st: &mut St, t: T) -> L {
        if let Some(c) = self.t.as_const(t) {
            return self.t.lc(c as i128);
        }
        let t = self.t.strip(t);
        let r = self.lift_in(st, t, 0);
        let e = st.s.apply(self.t.l(r));
        self.t.lin(e)
    }
    fn dim(&mut self, st: &mut St, t: T) -> L {
        if !st.s.dims.contains(&t) {
            let w = self.t.w(t);
            let mut bounds: (i128, i128) = (0, if w >= 126 { i128::MAX / 4 } else { (1i128 << w) - 1 });
            if let Some(a) = self.t.as_atom(t) {
                if let Atom::Byte { arr, .. } = &self.t.atoms[a as usize] {
                    if let ArrK::Const(v) = &self.t.arrs[*arr as usize] {
                        bounds = (*v.iter().min().unwrap_or(&0) as i128, *v.iter().max().unwrap_or(&255) as i128);
                    }
                }
            }
            let s = st.store();
            s.dims.insert(t);
            s.add_ge(&Lin { v: vec![(t, 1)], c: -bounds.0 });
            s.add_ge(&Lin { v: vec![(t, -1)], c: bounds.1 });
        }
        self.t.lv(t)
    }
    fn lift_in(&mut self, st: &mut St, t: T, depth: u32) -> L {
        if let Some(c) = self.t.as_const(t) {
            return self.t.lc(c as i128);
        }
        if depth > 12 {
            return self.dim(st, t);
        }
        let w = self.t.w(t);
        if let Some(a) = self.t.as_atom(t) {
            if let Atom::Sum { l, .. } = self.t.atoms[a as usize].clone() {
                if st.s.dims.contains(&t) {
                    return self.t.lv(t);
                }
                let e = self.t.l(l).clone();
                let mut r = Lin { v: vec![], c: e.c };
                for (x, k) in e.v {
                    let lx = self.lift_in(st, x, depth + 1);
                    r = lin_add(&r, self.t.l(lx), k);
                }
                let r = st.s.apply(&r);
                let hi = Lin { v: r.v.iter().map(|x| (x.0, -x.1)).collect(), c: (1i128 << w) - 1 - r.c };
                if st.s.ge(&r) && st.s.ge(&hi) {
                    return self.t.lin(r);
                }
                // a sum that wraps by a known amount
                for k in [-1i128, 1] {
                    let mut r2 = r.clone();
                    r2.c += k << w;
                    let mut h2 = lin_mul(&r2, -1);
                    h2.c += (1i128 << w) - 1;
                    if st.s.ge(&r2) && st.s.ge(&h2) {
                        return self.t.lin(r2);
                    }
                }
                return self.dim(st, t);
            }
            return self.dim(st, t);
        }
        let tt = self.t.terms[t as usize].clone();
        if tt.ps.len() > 1 {
            if tt.ps.len() > 8 {
                return self.dim(st, t);
            }
            let mut r = Lin::default();
            let mut pos = 0;
            for p in &tt.ps {
                let s = self.t.slice(t, pos, p.w);
                let ls = self.lift_in(st, s, depth + 1);
                r = lin_add(&r, self.t.l(ls), 1i128 << pos);
                pos += p.w;
            }
            return self.t.lin(r);
        }
        let p = &tt.ps[0];
        // complement of a known value
        if p.c == mask(p.w) && !p.xs.is_empty() {
            let n = self.t.not(t);
            let ln = self.lift_in(st, n, depth + 1);
            let mut r = lin_mul(self.t.l(ln), -1);
            r.c += mask(p.w) as i128;
            return self.t.lin(r);
        }
        if p.c != 0 || p.xs.len() != 1 {
            return self.dim(st, t);
        }
        let (a, off) = p.xs[0];
        let aw = self.t.aw(a);
        if aw > 64 {
            return self.dim(st, t);
        }
        let whole = self.t.atom_term[a as usize];
        let lw = self.lift_in(st, whole, depth + 1);
        if off == 0 {
            // low bits of something small
            let mut h = lin_mul(self.t.l(lw), -1);
            h.c += (1i128 << w) - 1;
            if st.s.ge(&h) {
                return lw;
            }
        }
        if st.s.dims.contains(&t) {
            return self.t.lv(t);
        }
        let r = self.dim(st, t);
        // whole = low + 2^off * this + 2^(off+w) * high
        let mut e = lin_mul(self.t.l(lw), -1);
        e = lin_add(&e, self.t.l(r), 1i128 << off);
        if off > 0 {
            let low = self.t.slice(whole, 0, off);
            let ll = self.dim(st, low);
            e = lin_add(&e, self.t.l(ll), 1);
        }
        if off + w < aw {
            let high = self.t.slice(whole, off + w, aw - off - w);
            let lh = self.dim(st, high);
            e = lin_add(&e, self.t.l(lh), 1i128 << (off + w));
        }
        let s = st.store();
        s.add_eq(&e);
        r
    }
    /// are two terms equal on this path?
    pub fn teq(&mut self, st: &mut St, a: T, b: T) -> bool {
        if a == b {
            return true;
        }
        if self.t.w(a) != self.t.w(b) {
            return false;
        }
        if self.t.as_const(a).is_some() && self.t.as_const(b).is_some() {
            return false;
        }
        let (ca, cb) = (self.canon(st, a), self.canon(st, b));
        if ca == cb {
            return true;
        }
        let (la, lb) = (self.lift(st, ca), self.lift(st, cb));
        if self.eq(st, la, lb) {
            return true;
        }
        false
    }
    /// rewrite a term with the equalities of the path
    pub fn canon(&mut self, st: &mut St, t: T) -> T {
        let s = st.s.clone();
        let mut memo = std::collections::HashMap::new();
        self.t.rebuild(t, &mut memo, &mut |_, _| None, &mut |tm, l| {
            let e = s.apply(tm.l(l));
            tm.lin(e)
        })
    }

    // ----- segments
    pub fn is_byte(&mut self, s: &Seg) -> bool {
        match s.k {
            K::Cell(Val::I(t)) => self.t.w(t) == 8,
            _ => false,
        }
    }
    /// a single byte as a piece of an array or of a constant run, whichever its neighbour is
    pub fn byte_seg(&mut self, s: Seg, near: &Seg) -> Seg {
        if let K::Cell(Val::I(t)) = s.k {
            if self.t.w(t) == 8 {
                if let (Some(a), false) = (self.t.as_atom(t), matches!(near.k, K::Fill(_))) {
                    if let Atom::Byte { arr, idx } = self.t.atoms[a as usize] {
                        let d = self.t.lsub(idx, s.lo);
                        return Seg { k: K::Src(arr, d), ..s };
                    }
                }
                return Seg { k: K::Fill(t), ..s };
            }
        }
        s
    }
    pub fn merge(&mut self, segs: &mut Vec<Seg>) {
        let mut i = 0;
        while i + 1 < segs.len() {
            let (mut a, mut b) = (segs[i], segs[i + 1]);
            // single bytes can join their neighbours
            if matches!(a.k, K::Cell(_)) != matches!(b.k, K::Cell(_)) || self.is_byte(&a) && self.is_byte(&b) {
                if matches!(a.k, K::Cell(_)) {
                    a = self.byte_seg(a, &b);
                }
                if matches!(b.k, K::Cell(_)) {
                    b = self.byte_seg(b, &a);
                }
            }
            let ok = match (a.k, b.k) {
                (K::Src(x, d), K::Src(y, e)) => x == y && d == e,
                (K::Fill(x), K::Fill(y)) => x == y,
                (K::Undef, K::Undef) | (K::Top, K::Top) => true,
                _ => false,
            };
            if ok {
                segs[i].k = a.k;
                segs[i].hi = b.hi;
                segs.remove(i + 1);
            } else {
                i += 1;
            }
        }
    }
    pub fn split_seg(&mut self, st: &St, s: Seg, p: L) -> (Seg, Seg) {
        let (ka, kb) = match s.k {
            K::Cell(v) => {
                let n = self.t.lsub(s.hi, s.lo);
                let n = self.t.lconst(n).unwrap() as u32;
                match (v, self.diff(st, p, s.lo)) {
                    (Val::I(t), Some(d)) => {
                        let d = d as u32;
                        let a = self.t.slice(t, 0, 8 * d);
                        let b = self.t.slice(t, 8 * d, 8 * (n - d));
                        (K::Cell(Val::I(a)), K::Cell(Val::I(b)))
                    }
                    (Val::I(t), None) => {
                        let z = self.t.lc(0);
                        let nl = self.t.lc(n as i128);
                        let a = self.t.arr(ArrK::Segs(vec![(z, nl, SegV::Cell(t))]));
                        let d = self.t.lmul(s.lo, -1);
                        (K::Src(a, d), K::Src(a, d))
                    }
                    _ => (K::Top, K::Top),
                }
            }
            k => (k, k),
        };
        (Seg { lo: s.lo, hi: p, k: ka }, Seg { lo: p, hi: s.hi, k: kb })
    }
    /// make a boundary at p; returns the index of the first segment at or after p
    pub fn cut(&mut self, st: &St, segs: &mut Vec<Seg>, size: L, p: L) -> Rs<usize> {
        if let Some(pc) = self.t.lconst(p) {
            // constant fast path
            let mut all = true;
            for i in 0..segs.len() {
                match (self.t.lconst(segs[i].lo), self.t.lconst(segs[i].hi)) {
                    (Some(a), Some(b)) => {
                        if pc == a {
                            return Ok(i);
                        }
                        if pc < b && pc > a {
                            let (x, y) = self.split_seg(st, segs[i], p);
                            segs[i] = x;
                            segs.insert(i + 1, y);
                            return Ok(i + 1);
                        }
                    }
                    _ => {
                        all = false;
                        break;
                    }
                }
            }
            if all {
                return Ok(segs.len());
            }
        }
        for i in 0..segs.len() {
            if segs[i].lo == p {
                return Ok(i);
            }
        }
        if self.eq(st, p, size) {
            return Ok(segs.len());
        }
        let mut und: Vec<(usize, Lin)> = vec![];
        for i in 0..segs.len() {
            let s = segs[i];
            let a = self.le(st, s.lo, p);
            if a == Some(false) {
                break;
            }
            let b = self.le(st, p, s.hi);
            match (a, b) {
                (Some(true), Some(true)) => {
                    if self.eq(st, s.lo, p) {
                        return Ok(i);
                    }
                    if self.eq(st, s.hi, p) {
                        return Ok(i + 1);
                    }
                    let (x, y) = self.split_seg(st, s, p);
                    segs[i] = x;
                    segs.insert(i + 1, y);
                    return Ok(i + 1);
                }
                (None, _) => {
                    let d = self.t.lsub(p, s.lo);
                    und.push((i, self.t.l(d).clone()));
                }
                (_, None) => {
                    let d = self.t.lsub(s.hi, p);
                    und.push((i, self.t.l(d).clone()));
                }
                _ => {}
            }
        }
        if und.is_empty() {
            return unsup("cut: no segment");
        }
        if und.len() <= 3 {
            return Err(Er::Split(und[0].1.clone()));
        }
        // a run of segments becomes one snapshot, which can be cut anywhere
        let (a, b) = (und[0].0, und[und.len() - 1].0);
        match self.snapshot(segs, a, b + 1, segs[a].lo) {
            Some(arr) => {
                let d = self.t.lmul(segs[a].lo, -1);
                let (lo, hi) = (segs[a].lo, segs[b].hi);
                segs.drain(a..=b);
                segs.insert(a, Seg { lo, hi: p, k: K::Src(arr, d) });
                segs.insert(a + 1, Seg { lo: p, hi, k: K::Src(arr, d) });
                Ok(a + 1)
            }
            None => Err(Er::Split(und[0].1.clone())),
        }
    }
    /// segments as an array value, positions relative to `base`
    pub fn snapshot(&mut self, segs: &[Seg], a: usize, b: usize, base: L) -> Option<Arr> {
        let mut v = vec![];
        for s in &segs[a..b] {
            let k = match s.k {
                K::Cell(Val::I(t)) => SegV::Cell(t),
                K::Src(x, d) => SegV::Src(x, self.t.ladd(d, base)),
                K::Fill(t) => SegV::Fill(t),
                K::Top | K::Undef => SegV::Top,
                K::Cell(_) => return None,
            };
            let (lo, hi) = (self.t.lsub(s.lo, base), self.t.lsub(s.hi, base));
            v.push((lo, hi, k));
        }
        Some(self.t.arr(ArrK::Segs(v)))
    }
    /// the segments of [off, off+n), rebased to 0
    pub fn read_range(&mut self, st: &St, o: ObjId, off: L, n: L) -> Rs<Vec<Seg>> {
        if self.t.lconst(n) == Some(0) {
            return Ok(vec![]);
        }
        let ob = self.obj(st, o);
        let end = self.t.ladd(off, n);
        // constant fast path: a single segment
        if let (Some(a), Some(_)) = (self.t.lconst(off), self.t.lconst(end)) {
            for (i, s) in ob.segs.iter().enumerate() {
                if s.lo == off && s.hi == end {
                    return Ok(vec![self.rebase(ob.segs[i], a)]);
                }
                match self.t.lconst(s.lo) {
                    Some(x) if x > a => break,
                    None => break,
                    _ => {}
                }
            }
        }
        let mut segs = ob.segs.clone();
        let i = self.cut(st, &mut segs, ob.size, off)?;
        let j = self.cut(st, &mut segs, ob.size, end)?;
        let neg = self.t.lmul(off, -1);
        let mut out = Vec::with_capacity(j.saturating_sub(i));
        for s in &segs[i..j.max(i)] {
            out.push(self.shift(*s, neg));
        }
        Ok(out)
    }
    fn rebase(&mut self, s: Seg, a: i128) -> Seg {
        let d = self.t.lc(-a);
        self.shift(s, d)
    }
    pub fn shift(&mut self, s: Seg, d: L) -> Seg {
        let k = match s.k {
            K::Src(a, x) => K::Src(a, self.t.lsub(x, d)),
            k => k,
        };
        Seg { lo: self.t.ladd(s.lo, d), hi: self.t.ladd(s.hi, d), k }
    }
    /// overwrite [off, off+n) with rebased segments
    pub fn write_range(&mut self, st: &mut St, o: ObjId, off: L, n: L, new: &[Seg]) -> Rs<()> {
        if self.t.lconst(n) == Some(0) {
            return Ok(());
        }
        let end = self.t.ladd(off, n);
        let ob = self.obj(st, o);
        if new.len() == 1 {
            // constant fast path: replace one segment by one segment
            for (i, s) in ob.segs.iter().enumerate() {
                if s.lo == off && s.hi == end {
                    let x = self.shift(new[0], off);
                    let f = st.obj_mut(o);
                    f.segs[i] = x;
                    if !matches!(x.k, K::Cell(_)) || self.is_byte(&x) {
                        let mut segs = std::mem::take(&mut f.segs);
                        self.merge(&mut segs);
                        st.obj_mut(o).segs = segs;
                    }
                    return Ok(());
                }
            }
        }
        let mut segs = ob.segs.clone();
        let i = self.cut(st, &mut segs, ob.size, off)?;
        let j = match self.cut(st, &mut segs, ob.size, end) {
            Err(Er::Split(l)) => {
                // where the new bytes end among the old ones is open: the old ones become one snapshot
                let mut e = i;
                while e < segs.len() && self.le(st, end, segs[e].lo) != Some(true) {
                    e += 1;
                }
                if e == i {
                    return Err(Er::Split(l));
                }
                let (lo, hi) = (segs[i].lo, segs[e - 1].hi);
                match self.snapshot(&segs, i, e, lo) {
                    Some(arr) => {
                        let d = self.t.lmul(lo, -1);
                        segs.drain(i..e);
                        segs.insert(i, Seg { lo, hi, k: K::Src(arr, d) });
                        self.cut(st, &mut segs, ob.size, end)?
                    }
                    None => return Err(Er::Split(l)),
                }
            }
            r => r?,
        };
        // cutting at `end` may have changed what lies before it
        let i = if j < i { self.cut(st, &mut segs, ob.size, off)? } else { i };
        let sh: Vec<Seg> = new.iter().map(|s| *s).collect::<Vec<_>>();
        let mut ins = Vec::with_capacity(sh.len());
        for s in sh {
            ins.push(self.shift(s, off));
        }
        segs.splice(i..j.max(i), ins);
        // drop segments that are certainly empty
        let mut keep = Vec::with_capacity(segs.len());
        for s in segs {
            if s.lo == s.hi || (self.t.lconst(s.lo).is_none() || self.t.lconst(s.hi).is_none()) && self.eq(st, s.lo, s.hi) {
                continue;
            }
            keep.push(s);
        }
        self.merge(&mut keep);
        st.obj_mut(o).segs = keep;
        Ok(())
    }
    /// bytes [off, off+n) of a scalar
    pub fn read_scalar(&mut self, st: &St, o: ObjId, off: L, n: i128, lo: L, hi: L) -> Rs<Val> {
        let nl = self.t.lc(n);
        let segs = match self.read_range(st, o, off, nl) {
            Ok(s) => s,
            Err(Er::Split(l)) => {
                // which segment is meant is not decided here: read from a snapshot
                let ob = self.obj(st, o);
                let mut segs = ob.segs.clone();
                let (i, j) = match (self.cut(st, &mut segs, ob.size, lo), self.cut(st, &mut segs, ob.size, hi)) {
                    (Ok(i), Ok(j)) => (i, j),
                    _ => (0, segs.len()),
                };
                let base = if j > i { segs[i].lo } else { return Err(Er::Split(l)) };
                return match self.snapshot(&segs, i, j, base) {
                    Some(a) => {
                        let r = self.t.lsub(off, base);
                        Ok(Val::I(self.bytes(a, r, n)))
                    }
                    None => Err(Er::Split(l)),
                };
            }
            Err(e) => return Err(e),
        };
        if segs.len() == 1 {
            if let K::Cell(v) = segs[0].k {
                return Ok(v);
            }
        }
        // symbolic boundaries inside: snapshot
        if segs.iter().any(|s| self.t.lconst(s.lo).is_none() || self.t.lconst(s.hi).is_none()) {
            let z = self.t.lc(0);
            return match self.snapshot(&segs, 0, segs.len(), z) {
                Some(a) => Ok(Val::I(self.bytes(a, z, n))),
                None => unsup("pointer in symbolic range"),
            };
        }
        let mut ts = vec![];
        for s in &segs {
            let len = self.t.lconst(s.hi).unwrap() - self.t.lconst(s.lo).unwrap();
            match s.k {
                K::Cell(Val::I(t)) => ts.push(t),
                K::Cell(_) | K::Top => return Ok(Val::Top),
                K::Undef => return Ok(Val::Top),
                K::Fill(t) => {
                    for _ in 0..len {
                        ts.push(t)
                    }
                }
                K::Src(a, d) => {
                    let p = self.t.ladd(d, s.lo);
                    let b = self.bytes(a, p, len);
                    ts.push(b)
                }
            }
        }
        Ok(Val::I(self.t.concat(&ts)))
    }
    /// is some byte of the range never written?
    pub fn bytes(&mut self, a: Arr, idx: L, n: i128) -> T {
        let mut ts = vec![];
        for i in 0..n {
            let p = self.t.laddc(idx, i);
            ts.push(self.t.byte(a, p));
        }
        self.t.concat(&ts)
    }
    pub fn bswap(&mut self, t: T) -> T {
        let n = self.t.w(t) / 8;
        let v: Vec<T> = (0..n).rev().map(|i| self.t.slice(t, 8 * i, 8)).collect();
        self.t.concat(&v)
    }
    pub fn scalar_seg(&mut self, v: Val, n: i128) -> Seg {
        let (z, h) = (self.t.lc(0), self.t.lc(n));
        let k = match v {
            Val::Top => K::Top,
            v => K::Cell(v),
        };
        Seg { lo: z, hi: h, k }
    }

    /// Semantic equality of two ranges, byte for byte, on this path. Top equals nothing.
    pub fn segs_eq(&mut self, st: &mut St, a: &[Seg], b: &[Seg]) -> bool {
        let (mut x, mut y): (Vec<Seg>, Vec<Seg>) = (a.to_vec(), b.to_vec());
        x.reverse();
        y.reverse();
        loop {
            // drop empties
            while let Some(s) = x.last() {
                if self.eq(st, s.lo, s.hi) {
                    x.pop();
                } else {
                    break;
                }
            }
            while let Some(s) = y.last() {
                if self.eq(st, s.lo, s.hi) {
                    y.pop();
                } else {
                    break;
                }
            }
            let (s, t) = match (x.pop(), y.pop()) {
                (None, None) => return true,
                (Some(s), Some(t)) => (s, t),
                _ => return false,
            };
            let (s, t) = if self.eq(st, s.hi, t.hi) {
                (s, t)
            } else if self.le(st, s.hi, t.hi) == Some(true) {
                let (p, q) = self.split_seg(st, t, s.hi);
                y.push(q);
                (s, p)
            } else if self.le(st, t.hi, s.hi) == Some(true) {
                let (p, q) = self.split_seg(st, s, t.hi);
                x.push(q);
                (p, t)
            } else {
                return false;
            };
            if !self.seg_eq(st, s, t) {
                return false;
            }
        }
    }
    pub fn seg_eq(&mut self, st: &mut St, s: Seg, t: Seg) -> bool {
        if s.k == t.k && !matches!(s.k, K::Top) {
            return true;
        }
        if self.nest > 12 {
            return false;
        }
        self.nest += 1;
        let r = self.seg_eq_in(st, s, t);
        self.nest -= 1;
        r
    }
    fn seg_eq_in(&mut self, st: &mut St, s: Seg, t: Seg) -> bool {
        match (s.k, t.k) {
            (K::Cell(Val::I(a)), K::Cell(Val::I(b))) => {
                self.teq(st, a, b)
                    || self.big_endian && self.t.w(a) > 8 && self.t.w(a) == self.t.w(b) && {
                        let (a, b) = (self.bswap(a), self.bswap(b));
                        self.teq(st, a, b)
                    }
            }
            (K::Cell(Val::P(p)), K::Cell(Val::P(q))) => {
                p.o == q.o
                    && match (p.off, q.off) {
                        (Some(a), Some(b)) => self.eq(st, a, b),
                        _ => false,
                    }
            }
            (K::Src(a, d), K::Src(b, e)) => {
                if a == b && self.eq(st, d, e) {
                    return true;
                }
                let (ra, rb) = (self.resolve_arr(st, a, d, s.lo, s.hi), self.resolve_arr(st, b, e, t.lo, t.hi));
                match (ra, rb) {
                    (None, None) => false,
                    (ra, rb) => {
                        let va = ra.unwrap_or(vec![s]);
                        let vb = rb.unwrap_or(vec![t]);
                        self.segs_eq(st, &va, &vb)
                    }
                }
            }
            (K::Src(a, d), _) | (_, K::Src(a, d)) => {
                if let Some(v) = self.resolve_arr(st, a, d, s.lo, s.hi) {
                    let other = if matches!(s.k, K::Src(..)) { t } else { s };
                    return self.segs_eq(st, &v, &[other]);
                }
                let len = match self.diff(st, s.hi, s.lo) {
                    Some(n) if n <= 4096 => n,
                    _ => return false,
                };
                let p = self.t.ladd(d, s.lo);
                let x = self.bytes(a, p, len);
                let y = match (s.k, t.k) {
                    (K::Cell(Val::I(v)), _) | (_, K::Cell(Val::I(v))) => v,
                    (K::Fill(v), _) | (_, K::Fill(v)) => self.t.concat(&vec![v; len as usize]),
                    _ => return false,
                };
                self.teq(st, x, y)
            }
            (K::Fill(a), K::Fill(b)) => self.teq(st, a, b),
            (K::Fill(a), K::Cell(Val::I(b))) | (K::Cell(Val::I(b)), K::Fill(a)) => {
                let n = self.t.w(b) / 8;
                let x = self.t.concat(&vec![a; n as usize]);
                self.teq(st, x, b)
            }
            _ => false,
        }
    }
    /// the part [lo+d, hi+d) of a snapshot array as segments at [lo, hi)
    pub fn resolve_arr(&mut self, st: &St, a: Arr, d: L, lo: L, hi: L) -> Option<Vec<Seg>> {
        let v = match &self.t.arrs[a as usize] {
            ArrK::Segs(v) => v.clone(),
            _ => return None,
        };
        let nd = self.t.lmul(d, -1);
        let mut segs = vec![];
        for (l, h, k) in v {
            let k = match k {
                SegV::Src(x, e) => K::Src(x, e),
                SegV::Fill(t) => K::Fill(t),
                SegV::Cell(t) => K::Cell(Val::I(t)),
                SegV::Top => K::Top,
            };
            segs.push(self.shift(Seg { lo: l, hi: h, k }, nd));
        }
        let size = segs.last()?.hi;
        let i = self.cut(st, &mut segs, size, lo).ok()?;
        let j = self.cut(st, &mut segs, size, hi).ok()?;
        if j < i {
            return Some(vec![]);
        }
        Some(segs[i..j].to_vec())
    }
}
