//! Hash-consed bit-vector terms in a normal form for xor / slice / concat / modular sums.
//!
//! A term is a list of pieces, least significant first; a piece is the xor of slices of atoms with
//! a constant. Adjacent pieces are merged whenever they continue each other, so that two terms
//! built from the same per-bit xor sets have the same id, however the bits were moved around.
use std::collections::HashMap;

pub type T = u32;
pub type L = u32;
pub type A = u32;
pub type Arr = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Piece {
    pub w: u32,
    pub xs: Vec<(A, u32)>,
    pub c: u128,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Term {
    pub w: u32,
    pub ps: Vec<Piece>,
}

/// Integer linear expression over terms (as unsigned integers).
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Lin {
    pub v: Vec<(T, i128)>,
    pub c: i128,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    And,
    Or,
    Mul,
    Eq,
    Ult,
    Slt,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Shr,
    Sar,
    Popcnt,
    Clz,
    Ctz,
    Sext,
    CtEq,
    Max,
    Min,
    Feature,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Sym { name: u32, w: u32 },
    Sum { w: u32, l: L },
    Byte { arr: Arr, idx: L },
    F { k: u32, i: u8 },
    Chain { s: u32, i: u8, n: L },
    Op { op: Op, w: u32, args: Vec<T> },
    /// a value the analysis lost track of
    Unk { id: u32, w: u32 },
}

/// Byte arrays as values: a named base array, constant bytes, or a segmented snapshot.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ArrK {
    Base { name: u32, secret: bool },
    Const(Vec<u8>),
    Segs(Vec<(L, L, SegV)>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SegV {
    Src(Arr, L),
    Fill(T),
    /// little-endian bytes of a term, `T` has width 8*(hi-lo)
    Cell(T),
    Top,
}

/// Arguments of one application of the compression function.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FArgs {
    pub h: [T; 8],
    pub m: [T; 16],
    pub t0: T,
    pub t1: T,
    pub f0: T,
    pub f1: T,
}

/// A block stream: block `n` (n counted from 0) of the stream is `base[stride*n+off ..][..64]`,
/// compressed with byte counter 64*(n+1)+tbase and clear finalization flags.
#[derive(Clone, Debug)]
pub struct Stream {
    pub name: String,
    pub init: [T; 8],
    pub base: Arr,
    pub stride: i128,
    pub off: L,
    pub tbase: L,
}

/// application number `n` of a chain has this byte counter, which is not always the right one (`tw`)
#[derive(Clone, Debug, PartialEq)]
pub struct Odd {
    pub s: u32,
    pub n: L,
    pub t0: T,
    pub t1: T,
    pub tw: L,
}

#[derive(Default)]
pub struct Terms {
    pub terms: Vec<Term>,
    tmap: HashMap<Term, T>,
    pub atoms: Vec<Atom>,
    amap: HashMap<Atom, A>,
    pub atom_term: Vec<T>,
    pub lins: Vec<Lin>,
    lmap: HashMap<Lin, L>,
    pub names: Vec<String>,
    nmap: HashMap<String, u32>,
    pub arrs: Vec<ArrK>,
    arrmap: HashMap<ArrK, Arr>,
    pub fargs: Vec<FArgs>,
    fmap: HashMap<FArgs, u32>,
    pub streams: Vec<Stream>,
    pub odd: Vec<Odd>,
    pub secret_syms: std::collections::HashSet<u32>,
    unk: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sgn(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let m = v & mask(w);
    if m >> (w - 1) & 1 == 1 && w > 1 {
        m as i128 - (1i128 << w)
    } else {
        m as i128
    }
}

impl Terms {
    pub fn new() -> Self {
        Self::default()
    }

    // ---------- interning
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.nmap.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.nmap.insert(s.to_string(), i);
        i
    }
    fn intern(&mut self, t: Term) -> T {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.terms.len() as T;
        self.terms.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn atom(&mut self, a: Atom) -> T {
        if let Some(&i) = self.amap.get(&a) {
            return self.atom_term[i as usize];
        }
        let w = self.atom_w(&a);
        let i = self.atoms.len() as A;
        self.atoms.push(a.clone());
        self.amap.insert(a, i);
        let t = self.intern(Term { w, ps: vec![Piece { w, xs: vec![(i, 0)], c: 0 }] });
        self.atom_term.push(t);
        t
    }
    fn atom_w(&self, a: &Atom) -> u32 {
        match a {
            Atom::Sym { w, .. } | Atom::Sum { w, .. } | Atom::Op { w, .. } | Atom::Unk { w, .. } => *w,
            Atom::Byte { .. } => 8,
            Atom::F { .. } | Atom::Chain { .. } => 32,
        }
    }
    pub fn aw(&self, a: A) -> u32 {
        self.atom_w(&self.atoms[a as usize])
    }
    pub fn lin(&mut self, mut l: Lin) -> L {
        l.v.retain(|x| x.1 != 0);
        if let Some(&i) = self.lmap.get(&l) {
            return i;
        }
        let i = self.lins.len() as L;
        self.lins.push(l.clone());
        self.lmap.insert(l, i);
        i
    }
    pub fn lc(&mut self, c: i128) -> L {
        self.lin(Lin { v: vec![], c })
    }
    pub fn lv(&mut self, t: T) -> L {
        if let Some(c) = self.as_const(t) {
            return self.lc(c as i128);
        }
        self.lin(Lin { v: vec![(t, 1)], c: 0 })
    }
    pub fn l(&self, l: L) -> &Lin {
        &self.lins[l as usize]
    }
    pub fn lconst(&self, l: L) -> Option<i128> {
        let e = &self.lins[l as usize];
        if e.v.is_empty() {
            Some(e.c)
        } else {
            None
        }
    }
    pub fn ladd(&mut self, a: L, b: L) -> L {
        let r = lin_add(&self.lins[a as usize], &self.lins[b as usize], 1);
        self.lin(r)
    }
    pub fn lsub(&mut self, a: L, b: L) -> L {
        if a == b {
            return self.lc(0);
        }
        let r = lin_add(&self.lins[a as usize], &self.lins[b as usize], -1);
        self.lin(r)
    }
    pub fn laddc(&mut self, a: L, c: i128) -> L {
        if c == 0 {
            return a;
        }
        let mut r = self.lins[a as usize].clone();
        r.c += c;
        self.lin(r)
    }
    pub fn lmul(&mut self, a: L, k: i128) -> L {
        let r = lin_mul(&self.lins[a as usize], k);
        self.lin(r)
    }
    pub fn arr(&mut self, a: ArrK) -> Arr {
        if let ArrK::Segs(v) = &a {
            if let Some(b) = self.const_bytes(v) {
                return self.arr(ArrK::Const(b));
            }
        }
        if let Some(&i) = self.arrmap.get(&a) {
            return i;
        }
        let i = self.arrs.len() as Arr;
        self.arrs.push(a.clone());
        self.arrmap.insert(a, i);
        i
    }
    fn const_bytes(&self, v: &[(L, L, SegV)]) -> Option<Vec<u8>> {
        let mut out = vec![];
        for (lo, hi, k) in v {
            let (lo, hi) = (self.lconst(*lo)?, self.lconst(*hi)?);
            if lo != out.len() as i128 || hi - lo > 4096 {
                return None;
            }
            match k {
                SegV::Cell(t) => {
                    for i in 0..hi - lo {
                        let b = {
                            let tt = &self.terms[*t as usize];
                            if tt.ps.iter().any(|p| !p.xs.is_empty()) {
                                return None;
                            }
                            let mut pos = 0;
                            let mut b = 0u8;
                            for p in &tt.ps {
                                for q in 0..p.w {
                                    let at = pos + q;
                                    if at >= 8 * i as u32 && at < 8 * i as u32 + 8 && p.c >> q & 1 == 1 {
                                        b |= 1 << (at - 8 * i as u32);
                                    }
                                }
                                pos += p.w;
                            }
                            b
                        };
                        out.push(b);
                    }
                }
                SegV::Fill(t) => {
                    let c = self.as_const(*t)?;
                    for _ in lo..hi {
                        out.push(c as u8);
                    }
                }
                SegV::Src(a, d) => match &self.arrs[*a as usize] {
                    ArrK::Const(v) => {
                        let d = self.lconst(*d)?;
                        for i in lo..hi {
                            out.push(*v.get((i + d) as usize)?);
                        }
                    }
                    _ => return None,
                },
                SegV::Top => return None,
            }
        }
        if out.is_empty() {
            return None;
        }
        Some(out)
    }
    pub fn base(&mut self, s: &str, secret: bool) -> Arr {
        let name = self.name(s);
        self.arr(ArrK::Base { name, secret })
    }
    pub fn fk(&mut self, f: FArgs) -> u32 {
        if let Some(&i) = self.fmap.get(&f) {
            return i;
        }
        let i = self.fargs.len() as u32;
        self.fargs.push(f.clone());
        self.fmap.insert(f, i);
        i
    }
    pub fn fresh_unk(&mut self, w: u32) -> T {
        self.unk += 1;
        let id = self.unk;
        self.atom(Atom::Unk { id, w })
    }
    pub fn sym(&mut self, s: &str, w: u32) -> T {
        let name = self.name(s);
        self.atom(Atom::Sym { name, w })
    }
    pub fn secret_sym(&mut self, s: &str, w: u32) -> T {
        let name = self.name(s);
        self.secret_syms.insert(name);
        self.atom(Atom::Sym { name, w })
    }

    // ---------- basics
    pub fn w(&self, t: T) -> u32 {
        self.terms[t as usize].w
    }
    pub fn k(&mut self, w: u32, c: u128) -> T {
        let c = c & mask(w);
        if w == 0 {
            return self.intern(Term { w: 0, ps: vec![] });
        }
        self.intern(Term { w, ps: vec![Piece { w, xs: vec![], c }] })
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let t = &self.terms[t as usize];
        if t.ps.len() == 1 && t.ps[0].xs.is_empty() {
            Some(t.ps[0].c)
        } else if t.w == 0 {
            Some(0)
        } else {
            None
        }
    }
    /// the atom, if the term is exactly one whole atom
    pub fn as_atom(&self, t: T) -> Option<A> {
        let t = &self.terms[t as usize];
        if t.ps.len() == 1 && t.ps[0].c == 0 && t.ps[0].xs.len() == 1 && t.ps[0].xs[0].1 == 0 {
            let a = t.ps[0].xs[0].0;
            if self.aw(a) == t.w {
                return Some(a);
            }
        }
        None
    }
    fn mk(&mut self, w: u32, ps: Vec<Piece>) -> T {
        let mut out: Vec<Piece> = Vec::with_capacity(ps.len());
        for p in ps {
            if p.w == 0 {
                continue;
            }
            if let Some(q) = out.last_mut() {
                if q.xs.len() == p.xs.len()
                    && q.w + p.w <= 128
                    && q.xs.iter().zip(&p.xs).all(|(x, y)| x.0 == y.0 && x.1 + q.w == y.1)
                {
                    q.c |= p.c << q.w;
                    q.w += p.w;
                    continue;
                }
            }
            out.push(p);
        }
        self.intern(Term { w, ps: out })
    }
    fn slice_pieces(&self, t: T, off: u32, w: u32) -> Vec<Piece> {
        let mut res = vec![];
        let mut pos = 0;
        for p in &self.terms[t as usize].ps {
            let (lo, hi) = (pos.max(off), (pos + p.w).min(off + w));
            if lo < hi {
                let d = lo - pos;
                let nw = hi - lo;
                res.push(Piece {
                    w: nw,
                    xs: p.xs.iter().map(|x| (x.0, x.1 + d)).collect(),
                    c: (p.c >> d) & mask(nw),
                });
            }
            pos += p.w;
        }
        res
    }
    pub fn slice(&mut self, t: T, off: u32, w: u32) -> T {
        let tw = self.w(t);
        assert!(off + w <= tw, "slice {off}+{w} of {tw}");
        if off == 0 && w == tw {
            return t;
        }
        let ps = self.slice_pieces(t, off, w);
        self.mk(w, ps)
    }
    pub fn concat(&mut self, ts: &[T]) -> T {
        if ts.len() == 1 {
            return ts[0];
        }
        let mut ps = vec![];
        let mut w = 0;
        for &t in ts {
            ps.extend(self.terms[t as usize].ps.iter().cloned());
            w += self.w(t);
        }
        self.mk(w, ps)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if w < tw {
            return self.slice(t, 0, w);
        }
        let z = self.k(w - tw, 0);
        self.concat(&[t, z])
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if w <= tw {
            return self.zext(t, w);
        }
        let top = self.slice(t, tw - 1, 1);
        match self.as_const(top) {
            Some(0) => self.zext(t, w),
            Some(_) => {
                let o = self.k(w - tw, u128::MAX);
                self.concat(&[t, o])
            }
            None => self.atom(Atom::Op { op: Op::Sext, w, args: vec![t] }),
        }
    }
    /// split two equally wide terms at common piece boundaries
    fn zip(&self, a: T, b: T) -> Vec<(Piece, Piece)> {
        let (pa, pb) = (&self.terms[a as usize].ps, &self.terms[b as usize].ps);
        let mut cuts: Vec<u32> = vec![0];
        let mut p = 0;
        for x in pa {
            p += x.w;
            cuts.push(p);
        }
        p = 0;
        for x in pb {
            p += x.w;
            cuts.push(p);
        }
        cuts.sort();
        cuts.dedup();
        let mut r = vec![];
        for c in cuts.windows(2) {
            let x = self.slice_pieces(a, c[0], c[1] - c[0]);
            let y = self.slice_pieces(b, c[0], c[1] - c[0]);
            r.push((x.into_iter().next().unwrap(), y.into_iter().next().unwrap()));
        }
        r
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "xor widths");
        let ps = self
            .zip(a, b)
            .into_iter()
            .map(|(x, y)| {
                let mut xs = vec![];
                let (mut i, mut j) = (0, 0);
                while i < x.xs.len() || j < y.xs.len() {
                    if j == y.xs.len() || (i < x.xs.len() && x.xs[i] < y.xs[j]) {
                        xs.push(x.xs[i]);
                        i += 1;
                    } else if i == x.xs.len() || y.xs[j] < x.xs[i] {
                        xs.push(y.xs[j]);
                        j += 1;
                    } else {
                        i += 1;
                        j += 1;
                    }
                }
                Piece { w: x.w, xs, c: x.c ^ y.c }
            })
            .collect();
        self.mk(w, ps)
    }
    pub fn not(&mut self, a: T) -> T {
        let o = self.k(self.w(a), u128::MAX);
        self.xor(a, o)
    }
    fn logic(&mut self, a: T, b: T, and: bool) -> T {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        let mut out = vec![];
        let mut pos = 0;
        for (x, y) in self.zip(a, b) {
            let pw = x.w;
            if x == y {
                out.push(x);
            } else if x.xs.is_empty() || y.xs.is_empty() {
                let (k, o) = if x.xs.is_empty() { (x.c, y) } else { (y.c, x) };
                // runs of equal constant bits
                let mut i = 0;
                while i < pw {
                    let bit = k >> i & 1;
                    let mut j = i + 1;
                    while j < pw && (k >> j & 1) == bit {
                        j += 1;
                    }
                    let rw = j - i;
                    if (bit == 1) == and {
                        out.push(Piece {
                            w: rw,
                            xs: o.xs.iter().map(|q| (q.0, q.1 + i)).collect(),
                            c: o.c >> i & mask(rw),
                        });
                    } else {
                        out.push(Piece { w: rw, xs: vec![], c: if and { 0 } else { mask(rw) } });
                    }
                    i = j;
                }
            } else {
                let mut s = self.slice(a, pos, pw);
                let mut u = self.slice(b, pos, pw);
                if s > u {
                    std::mem::swap(&mut s, &mut u);
                }
                let ns = self.not(s);
                let t = if ns == u {
                    self.k(pw, if and { 0 } else { u128::MAX })
                } else {
                    // one normal form for both connectives: or = not(and(not, not))
                    if and {
                        self.atom(Atom::Op { op: Op::And, w: pw, args: vec![s, u] })
                    } else {
                        let nu = self.not(u);
                        let (p, q) = if ns < nu { (ns, nu) } else { (nu, ns) };
                        let r = self.atom(Atom::Op { op: Op::And, w: pw, args: vec![p, q] });
                        self.not(r)
                    }
                };
                out.extend(self.terms[t as usize].ps.iter().cloned());
            }
            pos += pw;
        }
        self.mk(w, out)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.logic(a, b, true)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.logic(a, b, false)
    }
    pub fn shl(&mut self, a: T, n: u32) -> T {
        let w = self.w(a);
        if n >= w {
            return self.k(w, 0);
        }
        if n == 0 {
            return a;
        }
        let z = self.k(n, 0);
        let s = self.slice(a, 0, w - n);
        self.concat(&[z, s])
    }
    pub fn shr(&mut self, a: T, n: u32) -> T {
        let w = self.w(a);
        if n >= w {
            return self.k(w, 0);
        }
        if n == 0 {
            return a;
        }
        let z = self.k(n, 0);
        let s = self.slice(a, n, w - n);
        self.concat(&[s, z])
    }
    pub fn rotl(&mut self, a: T, n: u32) -> T {
        let w = self.w(a);
        let n = n % w;
        if n == 0 {
            return a;
        }
        let lo = self.slice(a, w - n, n);
        let hi = self.slice(a, 0, w - n);
        self.concat(&[lo, hi])
    }
    pub fn rotr(&mut self, a: T, n: u32) -> T {
        let w = self.w(a);
        self.rotl(a, (w - n % w) % w)
    }

    // ---------- modular sums
    /// strip a zero extension
    pub fn strip(&mut self, t: T) -> T {
        let tt = &self.terms[t as usize];
        if tt.ps.len() > 1 {
            let p = tt.ps.last().unwrap();
            if p.xs.is_empty() && p.c == 0 {
                let w = tt.w - p.w;
                return self.slice(t, 0, w);
            }
        }
        t
    }
    pub fn to_lin(&mut self, t: T) -> Lin {
        let w = self.w(t);
        if let Some(c) = self.as_const(t) {
            return Lin { v: vec![], c: sgn(c, w) };
        }
        if let Some(a) = self.as_atom(t) {
            if let Atom::Sum { l, .. } = &self.atoms[a as usize] {
                return self.lins[*l as usize].clone();
            }
        }
        let tt = self.terms[t as usize].clone();
        // complement: ~x = -1 - x
        if tt.w > 1 && tt.ps.iter().all(|p| p.c == mask(p.w) && !p.xs.is_empty()) {
            let x = self.not(t);
            let l = self.to_lin(x);
            let mut r = lin_mul(&l, -1);
            r.c -= 1;
            return r;
        }
        // x << k
        if tt.ps.len() == 2 && tt.ps[0].xs.is_empty() && tt.ps[0].c == 0 {
            let p = &tt.ps[1];
            if p.xs.len() == 1 && p.c == 0 && p.xs[0].1 == 0 && tt.ps[0].w < 64 {
                let a = p.xs[0].0;
                if self.aw(a) <= w {
                    let at = self.atom_term[a as usize];
                    let at = self.zext(at, w);
                    let l = self.to_lin(at);
                    return lin_mul(&l, 1i128 << tt.ps[0].w);
                }
            }
        }
        let s = self.strip(t);
        Lin { v: vec![(s, 1)], c: 0 }
    }
    pub fn mk_sum(&mut self, w: u32, mut l: Lin) -> T {
        for x in l.v.iter_mut() {
            x.1 = sgn(x.1 as u128, w);
        }
        l.v.retain(|x| x.1 != 0);
        l.c = sgn(l.c as u128, w);
        if l.v.is_empty() {
            return self.k(w, l.c as u128);
        }
        if l.v.len() == 1 && l.c == 0 {
            let (t, k) = l.v[0];
            if k == 1 {
                return self.zext(t, w);
            }
            if k > 0 && (k & (k - 1)) == 0 {
                let z = self.zext(t, w);
                return self.shl(z, k.trailing_zeros());
            }
        }
        if l.v.len() == 1 && l.c == -1 && l.v[0].1 == -1 {
            let z = self.zext(l.v[0].0, w);
            return self.not(z);
        }
        // parts that do not overlap: no carries
        if l.c == 0 && l.v.len() >= 2 && l.v.iter().all(|x| x.1 > 0 && (x.1 & (x.1 - 1)) == 0) {
            let mut r: Vec<(u32, u32, T)> = l.v.iter().map(|x| (x.1.trailing_zeros(), self.w(x.0), x.0)).collect();
            r.sort();
            let whole = r.iter().all(|x| x.0 % 8 == 0 && x.1 % 8 == 0) && r.windows(2).all(|q| q[0].0 + q[0].1 <= q[1].0) && r.last().map_or(false, |x| x.0 + x.1 <= w);
            if whole {
                let mut ps = vec![];
                let mut pos = 0;
                for (o, n, t) in r {
                    if o > pos {
                        ps.push(self.k(o - pos, 0));
                    }
                    ps.push(t);
                    pos = o + n;
                }
                if pos < w {
                    ps.push(self.k(w - pos, 0));
                }
                return self.concat(&ps);
            }
        }
        let l = self.lin(l);
        self.atom(Atom::Sum { w, l })
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "add widths");
        let (x, y) = (self.to_lin(a), self.to_lin(b));
        self.mk_sum(w, lin_add(&x, &y, 1))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (x, y) = (self.to_lin(a), self.to_lin(b));
        self.mk_sum(w, lin_add(&x, &y, -1))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_const(b) {
            let x = self.to_lin(a);
            return self.mk_sum(w, lin_mul(&x, sgn(k, w)));
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.atom(Atom::Op { op: Op::Mul, w, args: vec![a, b] })
    }
    pub fn op(&mut self, op: Op, w: u32, args: Vec<T>) -> T {
        if args.iter().all(|&a| self.as_const(a).is_some()) && op != Op::Feature && op != Op::CtEq {
            let c: Vec<u128> = args.iter().map(|&a| self.as_const(a).unwrap()).collect();
            let aw = self.w(args[0]);
            let v = eval_op(op, w, aw, &c);
            return self.k(w, v);
        }
        match op {
            Op::Eq if args[0] == args[1] => return self.k(1, 1),
            Op::Ult | Op::Slt if args[0] == args[1] => return self.k(1, 0),
            _ => {}
        }
        let mut args = args;
        if op == Op::Eq {
            args.sort();
            // constant-differing terms
            let x = self.xor(args[0], args[1]);
            if let Some(c) = self.as_const(x) {
                return self.k(1, (c == 0) as u128);
            }
            for (i, j) in [(0, 1), (1, 0)] {
                if let (Some((w1, l1, true)), Some(c)) = (self.low_sum(args[i]), self.as_const(args[j])) {
                    let n = self.w(args[0]);
                    if c != 0 && n >= 16 {
                        let d = self.mk_sum(w1, lin_add(&l1, &Lin { v: vec![], c: c as i128 }, -1));
                        let d = self.slice(d, 0, n);
                        let z = self.k(n, 0);
                        return self.op(Op::Eq, 1, vec![d, z]);
                    }
                }
            }
            // the low parts of two sums agree when that of the difference is zero
            if let (Some((w1, l1, s1)), Some((w2, l2, s2))) = (self.low_sum(args[0]), self.low_sum(args[1])) {
                if w1 == w2 && (s1 || s2) {
                    let n = self.w(args[0]);
                    let (p, q) = if l1.v.iter().map(|x| x.0).max() >= l2.v.iter().map(|x| x.0).max() { (l1, l2) } else { (l2, l1) };
                    let d = self.mk_sum(w1, lin_add(&p, &q, -1));
                    let d = self.slice(d, 0, n);
                    let z = self.k(n, 0);
                    if d != z && self.low_sum(d).is_some() {
                        return self.op(Op::Eq, 1, vec![d, z]);
                    }
                    if let Some(c) = self.as_const(d) {
                        return self.k(1, (c == 0) as u128);
                    }
                }
            }
        }
        match op {
            Op::Udiv | Op::Urem => {
                if let Some(c) = self.as_const(args[1]) {
                    if c != 0 && c & (c - 1) == 0 {
                        let n = c.trailing_zeros();
                        return if op == Op::Udiv {
                            self.shr(args[0], n)
                        } else {
                            let s = self.slice(args[0], 0, n);
                            self.zext(s, w)
                        };
                    }
                }
            }
            _ => {}
        }
        self.atom(Atom::Op { op, w, args })
    }

    /// the low bits, but not all, of one atom: its width, what it is the sum of, is it a sum
    pub fn low_sum(&self, t: T) -> Option<(u32, Lin, bool)> {
        let tt = &self.terms[t as usize];
        if tt.ps.len() != 1 || tt.ps[0].c != 0 || tt.ps[0].xs.len() != 1 || tt.ps[0].xs[0].1 != 0 {
            return None;
        }
        let a = tt.ps[0].xs[0].0;
        let at = self.atom_term[a as usize];
        if self.w(at) <= tt.ps[0].w {
            return None;
        }
        match &self.atoms[a as usize] {
            Atom::Sum { w, l } => Some((*w, self.lins[*l as usize].clone(), true)),
            Atom::Sym { w, .. } => Some((*w, Lin { v: vec![(at, 1)], c: 0 }, false)),
            _ => None,
        }
    }
    pub fn byte(&mut self, arr: Arr, idx: L) -> T {
        if let ArrK::Const(v) = &self.arrs[arr as usize] {
            if let Some(i) = self.lconst(idx) {
                if (i as usize) < v.len() {
                    let b = v[i as usize];
                    return self.k(8, b as u128);
                }
            }
        }
        let at = self.atom(Atom::Byte { arr, idx });
        // bits all candidates agree on
        if let ArrK::Const(v) = &self.arrs[arr as usize] {
            let e = &self.lins[idx as usize];
            let mut g = 0i128;
            for (_, k) in &e.v {
                let (mut a, mut b) = (g, k.abs());
                while b != 0 {
                    let r = a % b;
                    a = b;
                    b = r;
                }
                g = a;
            }
            let (mut and, mut or) = (0xffu8, 0u8);
            for (i, b) in v.iter().enumerate() {
                if g == 0 || (i as i128 - e.c).rem_euclid(g) == 0 {
                    and &= b;
                    or |= b;
                }
            }
            if or & !and != 0xff && or | and == or {
                let mut ts = vec![];
                for i in 0..8 {
                    ts.push(if (and ^ or) >> i & 1 == 0 { self.k(1, (and >> i & 1) as u128) } else { self.slice(at, i, 1) });
                }
                return self.concat(&ts);
            }
        }
        at
    }

    // ---------- queries
    pub fn atoms_of(&self, t: T, out: &mut Vec<A>) {
        for p in &self.terms[t as usize].ps {
            for x in &p.xs {
                if !out.contains(&x.0) {
                    out.push(x.0);
                }
            }
        }
    }
    /// walk all atoms reachable from a term
    pub fn visit(&self, t: T, seen: &mut std::collections::HashSet<A>, f: &mut dyn FnMut(A, &Atom)) {
        let mut st: Vec<T> = vec![t];
        let mut seen_t = std::collections::HashSet::new();
        while let Some(t) = st.pop() {
            if !seen_t.insert(t) {
                continue;
            }
            for p in &self.terms[t as usize].ps {
                for x in &p.xs {
                    if !seen.insert(x.0) {
                        continue;
                    }
                    let a = &self.atoms[x.0 as usize];
                    f(x.0, a);
                    match a {
                        Atom::Sum { l, .. } => st.extend(self.lins[*l as usize].v.iter().map(|v| v.0)),
                        Atom::Byte { arr, idx } => {
                            st.extend(self.lins[*idx as usize].v.iter().map(|v| v.0));
                            if let ArrK::Segs(s) = &self.arrs[*arr as usize] {
                                for (_, _, k) in s {
                                    match k {
                                        SegV::Fill(t) | SegV::Cell(t) => st.push(*t),
                                        _ => {}
                                    }
                                }
                            }
                        }
                        Atom::F { k, .. } => {
                            let fa = &self.fargs[*k as usize];
                            st.extend(fa.h.iter().chain(fa.m.iter()).cloned());
                            st.extend([fa.t0, fa.t1, fa.f0, fa.f1]);
                        }
                        Atom::Chain { n, .. } => st.extend(self.lins[*n as usize].v.iter().map(|v| v.0)),
                        Atom::Op { args, .. } => st.extend(args.iter().cloned()),
                        Atom::Sym { .. } | Atom::Unk { .. } => {}
                    }
                }
            }
        }
    }
    pub fn arr_secret(&self, arr: Arr) -> bool {
        match &self.arrs[arr as usize] {
            ArrK::Base { secret, .. } => *secret,
            ArrK::Const(_) => false,
            ArrK::Segs(s) => s.iter().any(|(_, _, k)| match k {
                SegV::Src(a, _) => self.arr_secret(*a),
                _ => false,
            }),
        }
    }
    /// does the value depend on secret data (message, key, chaining values)?
    pub fn secret(&self, t: T) -> bool {
        let mut r = false;
        self.visit(t, &mut Default::default(), &mut |_, a| match a {
            Atom::Byte { arr, .. } => r |= self.arr_secret(*arr),
            Atom::F { .. } | Atom::Chain { .. } => r = true,
            Atom::Sym { name, .. } => r |= self.secret_syms.contains(name),
            _ => {}
        });
        r
    }
    pub fn has_unk(&self, t: T) -> bool {
        let mut r = false;
        self.visit(t, &mut Default::default(), &mut |_, a| {
            if let Atom::Unk { .. } = a {
                r = true
            }
        });
        r
    }
    pub fn show(&self, t: T) -> String {
        self.show_d(t, 3)
    }
    pub fn show_lin(&self, l: L, d: u32) -> String {
        let e = &self.lins[l as usize];
        let mut s = String::new();
        for (t, k) in &e.v {
            if !s.is_empty() {
                s += " + ";
            }
            if *k != 1 {
                s += &format!("{}*", k);
            }
            s += &self.show_d(*t, d);
        }
        if e.c != 0 || s.is_empty() {
            if !s.is_empty() {
                s += " + ";
            }
            s += &format!("{}", e.c);
        }
        s
    }
    pub fn show_arr(&self, a: Arr) -> String {
        match &self.arrs[a as usize] {
            ArrK::Base { name, .. } => self.names[*name as usize].clone(),
            ArrK::Const(v) => format!("const[{}]", v.len()),
            ArrK::Segs(s) => {
                let mut o = String::from("{");
                for (lo, hi, k) in s {
                    o += &format!("[{}..{})=", self.show_lin(*lo, 1), self.show_lin(*hi, 1));
                    o += &match k {
                        SegV::Src(a, d) => format!("{}+{}", self.show_arr(*a), self.show_lin(*d, 1)),
                        SegV::Fill(t) => format!("fill {}", self.show_d(*t, 1)),
                        SegV::Cell(t) => self.show_d(*t, 1),
                        SegV::Top => "?".into(),
                    };
                    o += "; ";
                    if o.len() > 300 {
                        o += "...";
                        break;
                    }
                }
                o + "}"
            }
        }
    }
    pub fn show_d(&self, t: T, d: u32) -> String {
        let tt = &self.terms[t as usize];
        if let Some(c) = self.as_const(t) {
            return format!("{}", c);
        }
        let mut parts = vec![];
        for p in &tt.ps {
            let mut xs: Vec<String> = p
                .xs
                .iter()
                .map(|x| {
                    let s = self.show_atom(x.0, d);
                    if x.1 == 0 && self.aw(x.0) == p.w {
                        s
                    } else {
                        format!("{}[{}:{}]", s, x.1, x.1 + p.w)
                    }
                })
                .collect();
            if p.c != 0 || xs.is_empty() {
                xs.push(format!("{:#x}:{}", p.c, p.w));
            }
            parts.push(xs.join("^"));
            if parts.len() > 6 {
                parts.push("..".into());
                break;
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("<{}>", parts.join(","))
        }
    }
    pub fn show_atom(&self, a: A, d: u32) -> String {
        if d == 0 {
            return format!("@{}", a);
        }
        match &self.atoms[a as usize] {
            Atom::Sym { name, .. } => self.names[*name as usize].clone(),
            Atom::Sum { w, l } => format!("sum{}({})", w, self.show_lin(*l, d - 1)),
            Atom::Byte { arr, idx } => format!("{}[{}]", self.show_arr(*arr), self.show_lin(*idx, d - 1)),
            Atom::F { k, i } => {
                let f = &self.fargs[*k as usize];
                format!(
                    "F{}#{}(h0={},m0={},t={}:{},f={}:{})",
                    i,
                    k,
                    self.show_d(f.h[0], d - 1),
                    self.show_d(f.m[0], d - 1),
                    self.show_d(f.t0, d - 1),
                    self.show_d(f.t1, d - 1),
                    self.show_d(f.f0, d - 1),
                    self.show_d(f.f1, d - 1)
                )
            }
            Atom::Chain { s, i, n } => {
                format!("Chain{}({},{})", i, self.streams[*s as usize].name, self.show_lin(*n, d - 1))
            }
            Atom::Op { op, args, .. } => {
                format!("{:?}({})", op, args.iter().map(|x| self.show_d(*x, d - 1)).collect::<Vec<_>>().join(","))
            }
            Atom::Unk { id, .. } => format!("unk{}", id),
        }
    }
}

pub fn eval_op(op: Op, w: u32, aw: u32, c: &[u128]) -> u128 {
    let m = mask(w);
    let s = |v: u128| sgn(v, aw);
    let v = match op {
        Op::And => c[0] & c[1],
        Op::Or => c[0] | c[1],
        Op::Mul => c[0].wrapping_mul(c[1]),
        Op::Eq => (c[0] == c[1]) as u128,
        Op::Ult => (c[0] < c[1]) as u128,
        Op::Slt => (s(c[0]) < s(c[1])) as u128,
        Op::Udiv => {
            if c[1] == 0 {
                0
            } else {
                c[0] / c[1]
            }
        }
        Op::Urem => {
            if c[1] == 0 {
                0
            } else {
                c[0] % c[1]
            }
        }
        Op::Sdiv => {
            if c[1] == 0 {
                0
            } else {
                s(c[0]).wrapping_div(s(c[1])) as u128
            }
        }
        Op::Srem => {
            if c[1] == 0 {
                0
            } else {
                s(c[0]).wrapping_rem(s(c[1])) as u128
            }
        }
        Op::Shl => {
            if c[1] >= aw as u128 {
                0
            } else {
                c[0] << c[1]
            }
        }
        Op::Shr => {
            if c[1] >= aw as u128 {
                0
            } else {
                c[0] >> c[1]
            }
        }
        Op::Sar => (s(c[0]) >> (c[1].min(aw as u128 - 1))) as u128,
        Op::Popcnt => c[0].count_ones() as u128,
        Op::Clz => (c[0].leading_zeros() as i64 - (128 - aw as i64)) as u128,
        Op::Ctz => {
            if c[0] == 0 {
                aw as u128
            } else {
                c[0].trailing_zeros() as u128
            }
        }
        Op::Sext => s(c[0]) as u128,
        Op::Max => c[0].max(c[1]),
        Op::Min => c[0].min(c[1]),
        Op::CtEq | Op::Feature => 0,
    };
    v & m
}

pub fn lin_add(a: &Lin, b: &Lin, k: i128) -> Lin {
    let mut v = Vec::with_capacity(a.v.len() + b.v.len());
    let (mut i, mut j) = (0, 0);
    while i < a.v.len() || j < b.v.len() {
        if j == b.v.len() || (i < a.v.len() && a.v[i].0 < b.v[j].0) {
            v.push(a.v[i]);
            i += 1;
        } else if i == a.v.len() || b.v[j].0 < a.v[i].0 {
            v.push((b.v[j].0, b.v[j].1.wrapping_mul(k)));
            j += 1;
        } else {
            let s = a.v[i].1.wrapping_add(b.v[j].1.wrapping_mul(k));
            if s != 0 {
                v.push((a.v[i].0, s));
            }
            i += 1;
            j += 1;
        }
    }
    Lin { v, c: a.c.wrapping_add(b.c.wrapping_mul(k)) }
}

pub fn lin_mul(a: &Lin, k: i128) -> Lin {
    if k == 0 {
        return Lin::default();
    }
    Lin { v: a.v.iter().map(|x| (x.0, x.1.wrapping_mul(k))).collect(), c: a.c.wrapping_mul(k) }
}

pub type MapAtom<'a> = &'a mut dyn FnMut(&mut Terms, A) -> Option<T>;
pub type MapLin<'a> = &'a mut dyn FnMut(&mut Terms, L) -> L;

impl Terms {
    /// Rewrite a term bottom-up: `fa` may replace atoms, `fl` rewrites integer expressions.
    pub fn rebuild(&mut self, t: T, memo: &mut HashMap<A, T>, fa: MapAtom, fl: MapLin) -> T {
        let tt = self.terms[t as usize].clone();
        if tt.ps.iter().all(|p| p.xs.is_empty()) {
            return t;
        }
        let mut parts = vec![];
        let mut changed = false;
        for p in &tt.ps {
            let mut acc = self.k(p.w, p.c);
            for x in &p.xs {
                let r = self.rebuild_atom(x.0, memo, fa, fl);
                if r != self.atom_term[x.0 as usize] {
                    changed = true;
                }
                let s = self.slice(r, x.1, p.w);
                acc = self.xor(acc, s);
            }
            parts.push(acc);
        }
        if !changed {
            return t;
        }
        self.concat(&parts)
    }
    fn rebuild_atom(&mut self, a: A, memo: &mut HashMap<A, T>, fa: MapAtom, fl: MapLin) -> T {
        if let Some(&r) = memo.get(&a) {
            return r;
        }
        let r = if let Some(r) = fa(self, a) {
            r
        } else {
            match self.atoms[a as usize].clone() {
                Atom::Sym { .. } | Atom::Unk { .. } => self.atom_term[a as usize],
                Atom::Sum { w, l } => {
                    let e = self.lins[l as usize].clone();
                    let mut r = Lin { v: vec![], c: e.c };
                    let mut ch = false;
                    for (x, k) in e.v {
                        let y = self.rebuild(x, memo, fa, fl);
                        if y == x {
                            r = lin_add(&r, &Lin { v: vec![(x, 1)], c: 0 }, k);
                        } else {
                            ch = true;
                            let y = self.zext_keep(y, w);
                            let ly = self.to_lin(y);
                            r = lin_add(&r, &ly, k);
                        }
                    }
                    let l2 = if ch { self.mk_sum(w, r) } else { self.atom_term[a as usize] };
                    // integer rewriting, unless the variables were rewritten already
                    if ch {
                        memo.insert(a, l2);
                        return l2;
                    }
                    if let Some(a2) = self.as_atom(l2) {
                        if let Atom::Sum { w, l } = self.atoms[a2 as usize].clone() {
                            let nl = fl(self, l);
                            if nl != l {
                                let e = self.lins[nl as usize].clone();
                                return {
                                    let r = self.mk_sum(w, e);
                                    memo.insert(a, r);
                                    r
                                };
                            }
                        }
                    }
                    l2
                }
                Atom::Byte { arr, idx } => {
                    let i2 = fl(self, idx);
                    let a2 = self.rebuild_arr(arr, memo, fa, fl);
                    self.byte(a2, i2)
                }
                Atom::F { k, i } => {
                    let f = self.fargs[k as usize].clone();
                    let mut g = f.clone();
                    for x in g.h.iter_mut().chain(g.m.iter_mut()) {
                        *x = self.rebuild(*x, memo, fa, fl);
                    }
                    for x in [&mut g.t0, &mut g.t1, &mut g.f0, &mut g.f1] {
                        *x = self.rebuild(*x, memo, fa, fl);
                    }
                    if g == f {
                        self.atom_term[a as usize]
                    } else {
                        let k2 = self.fk(g);
                        self.atom(Atom::F { k: k2, i })
                    }
                }
                Atom::Chain { s, i, n } => {
                    let n2 = fl(self, n);
                    if n2 == n {
                        self.atom_term[a as usize]
                    } else {
                        self.chain(s, i, n2)
                    }
                }
                Atom::Op { op, w, args } => {
                    let n: Vec<T> = args.iter().map(|&x| self.rebuild(x, memo, fa, fl)).collect();
                    if n == args {
                        self.atom_term[a as usize]
                    } else if op == Op::And {
                        self.and(n[0], n[1])
                    } else {
                        self.op(op, w, n)
                    }
                }
            }
        };
        memo.insert(a, r);
        r
    }
    /// widen or narrow without losing a sum's structure
    fn zext_keep(&mut self, y: T, w: u32) -> T {
        if self.w(y) == w {
            y
        } else {
            self.zext(y, w)
        }
    }
    pub fn rebuild_arr(&mut self, arr: Arr, memo: &mut HashMap<A, T>, fa: MapAtom, fl: MapLin) -> Arr {
        if let ArrK::Segs(v) = self.arrs[arr as usize].clone() {
            let mut out = vec![];
            for (l, h, k) in v {
                let k = match k {
                    SegV::Src(a, d) => {
                        let a2 = self.rebuild_arr(a, memo, fa, fl);
                        SegV::Src(a2, fl(self, d))
                    }
                    SegV::Fill(t) => SegV::Fill(self.rebuild(t, memo, fa, fl)),
                    SegV::Cell(t) => SegV::Cell(self.rebuild(t, memo, fa, fl)),
                    SegV::Top => SegV::Top,
                };
                let (l, h) = (fl(self, l), fl(self, h));
                out.push((l, h, k));
            }
            return self.arr(ArrK::Segs(out));
        }
        arr
    }
    pub fn chain(&mut self, s: u32, i: u8, n: L) -> T {
        if self.lconst(n) == Some(0) {
            return self.streams[s as usize].init[i as usize];
        }
        self.atom(Atom::Chain { s, i, n })
    }
}
