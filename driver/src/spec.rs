//! What the digests have to be, and the comparison with what the code computes.
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::term::*;
use std::collections::HashMap;

/// BLAKE2s from a parameterised initial value
pub fn b2s(init: &[u32; 8], key: Option<&[u8]>, msg: &[u8], last: bool) -> [u8; 32] {
    let mut data = vec![];
    if let Some(k) = key {
        data.extend_from_slice(k);
    }
    data.extend_from_slice(msg);
    let mut h = *init;
    let mut pos = 0usize;
    let n = if data.is_empty() { 1 } else { (data.len() + 63) / 64 };
    for b in 0..n {
        let mut blk = [0u8; 64];
        let take = (data.len() - pos).min(64);
        blk[..take].copy_from_slice(&data[pos..pos + take]);
        pos += take;
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        let fin = b + 1 == n;
        let t = pos as u64;
        h = f_concrete(&h, &m, t as u32, (t >> 32) as u32, if fin { !0 } else { 0 }, if fin && last { !0 } else { 0 });
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

/// The digest one hash state has to produce.
#[derive(Clone)]
pub struct Want {
    pub init: [T; 8],
    /// the padded key as a 64-byte block
    pub key: Option<Vec<Seg>>,
    pub base: Arr,
    /// where the message starts in `base`
    pub off: L,
    /// this state gets bytes p of the message with (p / 64) % (stride / 64) == row
    pub stride: i128,
    pub row: i128,
    /// length of the whole message
    pub len: L,
    /// one bit
    pub last: T,
    pub hash_len: L,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    /// different, with an explanation
    Diff(String),
    Unk(String),
}

#[derive(Clone)]
pub enum DigTree {
    One(Want),
    /// eight leaves, and the root parameters
    Tree { leaves: Vec<Want>, root: [T; 8], hash_len: L },
}

impl X {
    /// words as byte segments
    pub fn word_segs(&mut self, m: &[T]) -> Vec<Seg> {
        let mut v = vec![];
        let mut pos = 0;
        for &t in m {
            let w = self.m.t.w(t) / 8;
            for b in 0..w {
                let x = self.m.t.slice(t, 8 * b, 8);
                let (lo, hi) = (self.m.t.lc(pos), self.m.t.lc(pos + 1));
                v.push(Seg { lo, hi, k: K::Cell(Val::I(x)) });
                pos += 1;
            }
        }
        self.m.merge(&mut v);
        v
    }
    /// sign test that asks for a split when open
    pub fn ge0(&mut self, st: &St, l: L) -> Rs<bool> {
        let e = st.s.apply(self.m.t.l(l));
        if e.v.is_empty() {
            return Ok(e.c >= 0);
        }
        if st.s.ge(&e) {
            return Ok(true);
        }
        let mut n = lin_mul(&e, -1);
        n.c -= 1;
        if st.s.ge(&n) {
            return Ok(false);
        }
        Err(Er::Split(e))
    }
    pub fn le_(&mut self, st: &St, a: L, b: L) -> Rs<bool> {
        let d = self.m.t.lsub(b, a);
        self.ge0(st, d)
    }
    pub fn zeros(&mut self, lo: L, hi: L) -> Seg {
        let z = self.m.t.k(8, 0);
        Seg { lo, hi, k: K::Fill(z) }
    }
    fn ht(&mut self, st: &mut St, f: &FArgs) -> L {
        let t = self.m.t.concat(&[f.t0, f.t1]);
        self.m.lift(st, t)
    }
    fn words_eq(&mut self, st: &mut St, a: &[T], b: &[T]) -> bool {
        a.iter().zip(b).all(|(x, y)| self.m.teq(st, *x, *y))
    }
    pub fn f_of(&self, h: &[T; 8]) -> Option<u32> {
        let mut r = None;
        for (i, &t) in h.iter().enumerate() {
            let a = self.m.t.as_atom(t)?;
            let Atom::F { k, i: ix } = self.m.t.atoms[a as usize] else { return None };
            if ix as usize != i || r.map_or(false, |x| x != k) {
                return None;
            }
            r = Some(k);
        }
        r
    }
    /// how many message blocks went into the chaining value `h` (-1: not even the key block)
    fn prefix(&mut self, st: &mut St, h: &[T; 8], w: &Want, depth: u32) -> Rs<Result<L, String>> {
        if depth > 40 {
            return unsup("deep chain");
        }
        let kk = if w.key.is_some() { 64 } else { 0 };
        if self.words_eq(st, h, &w.init) {
            return Ok(Ok(self.m.t.lc(if w.key.is_some() { -1 } else { 0 })));
        }
        if let Some((s, n)) = self.m_chain(h) {
            let sm = self.m.t.streams[s as usize].clone();
            let start = match self.prefix(st, &sm.init, w, depth + 1)? {
                Ok(n0) => n0,
                Err(e) => return Ok(Err(e)),
            };
            if self.m.t.lconst(start) == Some(-1) {
                return Ok(Err("message blocks are compressed before the key block".into()));
            }
            // block i of the stream is row start+i
            let o = self.m.t.lmul(start, w.stride);
            let o = self.m.t.ladd(o, w.off);
            let o = self.m.t.laddc(o, 64 * w.row);
            if sm.base != w.base || !self.m.eq(st, o, sm.off) {
                return Ok(Err("the blocks compressed are not the message's blocks in order".into()));
            }
            if sm.stride != w.stride {
                return Ok(Err(format!("blocks are taken {} bytes apart instead of {}", sm.stride, w.stride)));
            }
            if st.odd.iter().any(|o| self.m.t.odd[*o as usize].s == s) {
                return Ok(Err("the byte counter of a compressed block is not the end of the block".into()));
            }
            let tb = self.m.t.lmul(start, 64);
            let tb = self.m.t.laddc(tb, kk);
            if !self.m.eq(st, tb, sm.tbase) {
                return Ok(Err("byte counter of the compressed blocks is not the end of the block".into()));
            }
            return Ok(Ok(self.m.t.ladd(start, n)));
        }
        if let Some(k) = self.f_of(h) {
            let f = self.m.t.fargs[k as usize].clone();
            let n = match self.prefix(st, &f.h, w, depth + 1)? {
                Ok(n) => n,
                Err(e) => return Ok(Err(e)),
            };
            if self.m.t.as_const(f.f0) != Some(0) || self.m.t.as_const(f.f1) != Some(0) {
                return Ok(Err("a block that is not the last is compressed with finalization flags".into()));
            }
            let tl = self.ht(st, &f);
            let n1 = self.m.t.laddc(n, 1);
            let wt = self.m.t.lmul(n1, 64);
            let wt = self.m.t.laddc(wt, kk);
            if !self.m.eq(st, tl, wt) {
                return Ok(Err(format!("byte counter of a block is {} instead of {}", self.m.t.show_lin(tl, 3), self.m.t.show_lin(wt, 3))));
            }
            let segs = self.word_segs(&f.m);
            let want = if self.m.t.lconst(n) == Some(-1) {
                w.key.clone().unwrap()
            } else {
                let o = self.m.t.lmul(n, w.stride);
                let o = self.m.t.ladd(o, w.off);
                let o = self.m.t.laddc(o, 64 * w.row);
                // the whole block must be message
                let (z, h) = (self.m.t.lc(0), self.m.t.lc(64));
                vec![Seg { lo: z, hi: h, k: K::Src(w.base, o) }]
            };
            if !self.m.segs_eq(st, &segs, &want) {
                return Ok(Err("a compressed block is not the message's block".into()));
            }
            return Ok(Ok(n1));
        }
        for i in 0..8 {
            if !self.m.teq(st, h[i], w.init[i]) {
                let d = format!("the chaining value has an unknown origin: word {} is {}, not {}", i, self.m.t.show_d(h[i], 4), self.m.t.show_d(w.init[i], 4));
                return Ok(Err(d));
            }
        }
        Ok(Err("the chaining value has an unknown origin".into()))
    }
    fn m_chain(&self, h: &[T; 8]) -> Option<(u32, L)> {
        self.chain_of(h)
    }
    /// `t` with the one-bit term `b` known to be `v`
    fn with_bit(&mut self, t: T, b: T, v: bool) -> T {
        let tm = &self.m.t;
        let q = &tm.terms[b as usize];
        if q.w != 1 || q.ps.len() != 1 || q.ps[0].xs.len() != 1 {
            return t;
        }
        let (a, off) = q.ps[0].xs[0];
        let v = v != (q.ps[0].c & 1 != 0);
        let w = tm.aw(a);
        let bit = self.m.t.k(1, v as u128);
        let whole = if w == 1 {
            bit
        } else {
            let at = self.m.t.atoms[a as usize].clone();
            let at = self.m.t.atom(at);
            let lo = self.m.t.slice(at, 0, off);
            let hi = self.m.t.slice(at, off + 1, w - off - 1);
            let ps: Vec<T> = [(lo, off), (bit, 1), (hi, w - off - 1)].iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
            self.m.t.concat(&ps)
        };
        let mut fl = |tm: &mut Terms, l: L| {
            let e = tm.l(l).clone();
            let mut r = Lin { v: vec![], c: e.c };
            for (t, k) in &e.v {
                let mut v = vec![];
                tm.atoms_of(*t, &mut v);
                let mut n = Lin { v: vec![(*t, 1)], c: 0 };
                if v.contains(&a) {
                    let t = tm.rebuild(*t, &mut HashMap::new(), &mut |_, x| if x == a { Some(whole) } else { None }, &mut |_, l| l);
                    n = match tm.as_const(t) {
                        Some(c) => Lin { v: vec![], c: c as i128 },
                        None => Lin { v: vec![(t, 1)], c: 0 },
                    };
                }
                r = lin_add(&r, &n, *k);
            }
            tm.lin(r)
        };
        self.m.t.rebuild(t, &mut HashMap::new(), &mut |_, x| if x == a { Some(whole) } else { None }, &mut fl)
    }
    /// is application k of the compression function the final one of the wanted digest?
    pub fn check_final(&mut self, st: &mut St, k: u32, w: &Want) -> Rs<Verdict> {
        let f = self.m.t.fargs[k as usize].clone();
        let d = |s: &str| Ok(Verdict::Diff(s.to_string()));
        if self.m.t.as_const(f.f0) != Some(0xffff_ffff) {
            return d("the last block is not compressed with the final-block flag");
        }
        let last = self.decide(st, w.last)?;
        let want = self.m.t.k(32, if last { 0xffff_ffff } else { 0 });
        let f1 = self.m.canon(st, f.f1);
        let f1 = self.with_bit(f1, w.last, last);
        if !self.m.teq(st, f1, want) {
            // a flag word computed from the last-node bit
            let e = self.m.t.sext(w.last, 32);
            if e != f.f1 {
                return d("the last-node flag word is not the one requested");
            }
        }
        let n = match self.prefix(st, &f.h, w, 0)? {
            Ok(n) => n,
            Err(e) => return Ok(Verdict::Diff(e)),
        };
        let kk = if w.key.is_some() { 64 } else { 0 };
        let tl = self.ht(st, &f);
        let segs = self.word_segs(&f.m);
        let first = self.m.t.lc(64 * w.row);
        if self.m.t.lconst(n) == Some(-1) {
            // only the key
            if !self.le_(st, w.len, first)? {
                return d("input is missing from the digest");
            }
            let t64 = self.m.t.lc(64);
            if !self.m.eq(st, tl, t64) {
                return d("byte counter of the key block");
            }
            let key = w.key.clone().unwrap();
            if !self.m.segs_eq(st, &segs, &key) {
                return d("the key block is not the padded key");
            }
            return Ok(Verdict::Ok);
        }
        // message position of the last block
        let r = self.m.t.lmul(n, w.stride);
        let r = self.m.t.laddc(r, 64 * w.row);
        let r64 = self.m.t.laddc(r, 64);
        let o = self.m.t.ladd(r, w.off);
        let (z, c64) = (self.m.t.lc(0), self.m.t.lc(64));
        let p;
        let want;
        if self.le_(st, r64, w.len)? {
            let nx = self.m.t.laddc(r, w.stride);
            if !self.le_(st, w.len, nx)? {
                return d("the final block is not the last block of the input");
            }
            p = c64;
            want = vec![Seg { lo: z, hi: c64, k: K::Src(w.base, o) }];
        } else if self.le_(st, w.len, r)? {
            if self.m.t.lconst(n) != Some(0) || w.key.is_some() {
                return d("an empty block is finalized after the end of the input");
            }
            p = z;
            want = vec![self.zeros(z, c64)];
        } else {
            p = self.m.t.lsub(w.len, r);
            let zs = self.zeros(p, c64);
            want = vec![Seg { lo: z, hi: p, k: K::Src(w.base, o) }, zs];
        }
        let wt = self.m.t.lmul(n, 64);
        let wt = self.m.t.ladd(wt, p);
        let wt = self.m.t.laddc(wt, kk);
        if !self.m.eq(st, tl, wt) {
            return Ok(Verdict::Diff(format!("byte counter of the final block is {} instead of {}", self.m.t.show_lin(tl, 3), self.m.t.show_lin(wt, 3))));
        }
        if !self.m.segs_eq(st, &segs, &want) {
            return d("the final block is not the zero-padded end of the input");
        }
        Ok(Verdict::Ok)
    }
    /// the application of the compression function whose first `n` output bytes these are
    pub fn digest_of(&mut self, bytes: &[T]) -> Option<u32> {
        let mut r: Option<u32> = None;
        for (i, &b) in bytes.iter().enumerate() {
            let tt = &self.m.t.terms[b as usize];
            if tt.ps.len() != 1 || tt.ps[0].xs.len() != 1 || tt.ps[0].c != 0 {
                return None;
            }
            let (a, off) = tt.ps[0].xs[0];
            let Atom::F { k, i: ix } = self.m.t.atoms[a as usize] else { return None };
            if ix as usize != i / 4 || off as usize != 8 * (i % 4) || r.map_or(false, |x| x != k) {
                return None;
            }
            r = Some(k);
        }
        r
    }
    /// the whole digest, structurally
    pub fn check_digest(&mut self, st: &mut St, bytes: &[T], w: &DigTree) -> Rs<Verdict> {
        let k = match self.digest_of(bytes) {
            Some(k) => k,
            None => return Ok(Verdict::Diff("the digest is not the output of one application of the compression function".into())),
        };
        match w {
            DigTree::One(w) => self.check_final(st, k, w),
            DigTree::Tree { leaves, root, .. } => {
                let mut k = k;
                for b in (0..4i128).rev() {
                    let f = self.m.t.fargs[k as usize].clone();
                    let fl = if b == 3 { 0xffff_ffffu128 } else { 0 };
                    if self.m.t.as_const(f.f0) != Some(fl) || self.m.t.as_const(f.f1) != Some(fl) {
                        return Ok(Verdict::Diff("finalization flags of the root node".into()));
                    }
                    let tl = self.ht(st, &f);
                    if self.m.t.lconst(tl) != Some(64 * (b + 1)) {
                        return Ok(Verdict::Diff("byte counter of the root node".into()));
                    }
                    for h in 0..2 {
                        let leaf = 2 * b as usize + h;
                        let mut by = vec![];
                        for i in 0..8 {
                            for q in 0..4 {
                                by.push(self.m.t.slice(f.m[8 * h + i], 8 * q, 8));
                            }
                        }
                        let kl = match self.digest_of(&by) {
                            Some(k) => k,
                            None => return Ok(Verdict::Diff(format!("the root does not hash the digest of leaf {} at its place", leaf))),
                        };
                        match self.check_final(st, kl, &leaves[leaf])? {
                            Verdict::Ok => {}
                            Verdict::Diff(e) => return Ok(Verdict::Diff(format!("leaf {}: {}", leaf, e))),
                            v => return Ok(v),
                        }
                    }
                    if b == 0 {
                        if !self.words_eq(st, &f.h, root) {
                            return Ok(Verdict::Diff("parameters of the root node".into()));
                        }
                    } else {
                        k = match self.f_of(&f.h) {
                            Some(k) => k,
                            None => return Ok(Verdict::Diff("chaining value of the root node".into())),
                        };
                    }
                }
                Ok(Verdict::Ok)
            }
        }
    }

    // ---------- confirmation by evaluation
    /// points of the path with their evaluators' settings
    pub fn points(&mut self, st: &St, n: usize) -> Vec<(HashMap<T, i128>, HashMap<(Arr, i128), u8>)> {
        let mut out: Vec<(HashMap<T, i128>, HashMap<(Arr, i128), u8>)> = vec![];
        // lengths first small, then anything
        let lens = self.lens(st);
        let mut tries = 200;
        let mut wide = false;
        let caps: [i128; 10] = [66, 130, 300, 1100, 2100, 5000, 70_000, 140_000, 1 << 21, i128::MAX];
        for cap in caps {
            let mut s = (*st.s).clone();
            if cap != i128::MAX {
                for &t in &lens {
                    s.add_ge(&Lin { v: vec![(t, -1)], c: cap });
                }
            }
            let dbg = std::env::var("BSA_CONF").is_ok();
            if s.empty() {
                if dbg {
                    eprintln!("  cap {}: empty", cap);
                }
                continue;
            }
            let mut pts: Vec<(HashMap<T, i128>, bool)> = vec![];
            if !wide {
                // parameters with all their bytes in use
                wide = true;
                let mut q = s.clone();
                for &t in &self.wide(st) {
                    let w = self.m.t.w(t).min(64);
                    let lo = (0xB6A5_9C3D_7E81_F2D4u64 >> (64 - w)) as i128;
                    let mut r = q.clone();
                    r.add_ge(&Lin { v: vec![(t, 1)], c: -lo });
                    if !r.empty() {
                        q = r;
                    }
                }
                pts.extend(q.point(false, 5).map(|p| (p, true)));
            }
            for q in self.low_part_stores(st, &s, if cap == i128::MAX { 1 } else { 0 }) {
                pts.extend(q.point(true, 3).map(|p| (p, true)));
                pts.extend(q.point(false, 1).map(|p| (p, false)));
            }
            for (small, seed) in [(false, 1u64), (false, 7), (true, 3), (false, 11)] {
                let p0 = if pts.is_empty() { s.point(small, seed) } else { pts.pop().map(|p| p.0) };
                if dbg {
                    eprintln!("  cap {}: point {}", cap, p0.is_some());
                }
                if let Some(p) = p0 {
                    if dbg {
                        let u = self.usable(st, &p, 5);
                        eprintln!("   usable {}: {}", u.is_some(), u.map(|u| self.show_point(&u.0)).unwrap_or_default());
                    }
                    let mut x = self.usable(st, &p, 5);
                    // other contents of the inputs
                    let mut salt = 5;
                    while x.is_none() && tries > 0 && salt < 70 {
                        tries -= 1;
                        salt += 1;
                        x = self.usable(st, &p, salt);
                        if let Some(x) = &mut x {
                            x.0.insert(SALT, salt as i128);
                        }
                    }
                    if let Some(x) = x {
                        if !out.iter().any(|y| y.0 == x.0) {
                            out.push(x);
                        }
                    }
                }
                if out.len() >= n {
                    return out;
                }
            }
        }
        out
    }
    /// low parts of sums that have to be zero on the path: the sums are small multiples of the power of two
    fn low_part_stores(&self, st: &St, s: &crate::num::Store, from: i128) -> Vec<crate::num::Store> {
        let mut eqs: Vec<(Lin, u32)> = vec![];
        for (t, b) in &st.s.facts {
            if !*b {
                continue;
            }
            let Some(a) = self.m.t.as_atom(*t) else { continue };
            let Atom::Op { op: Op::Eq, args, .. } = &self.m.t.atoms[a as usize] else { continue };
            for (x, y) in [(args[0], args[1]), (args[1], args[0])] {
                if let (Some((_, l, _)), Some(c)) = (self.m.t.low_sum(x), self.m.t.as_const(y)) {
                    let w = self.m.t.w(x);
                    if w < 60 {
                        let mut l = l;
                        l.c -= c as i128;
                        eqs.push((l, w));
                    }
                }
            }
        }
        if eqs.is_empty() {
            return vec![];
        }
        let mut out = vec![];
        for j in [from, 2, -1, 0, 1] {
            let mut q = s.clone();
            for (l, w) in &eqs {
                let mut l = l.clone();
                l.c -= j << w;
                q.add_eq(&l);
            }
            if !q.empty() {
                out.push(q);
            }
        }
        out.truncate(3);
        out
    }
    /// points of the path where one of the terms is large
    pub fn big_points(&mut self, st: &St, of: &[T]) -> Vec<(HashMap<T, i128>, HashMap<(Arr, i128), u8>)> {
        let mut out = vec![];
        for &t in of {
            for b in [57u32, 50, 44, 40, 36, 33, 31, 28, 26, 21] {
                let mut s = (*st.s).clone();
                s.add_ge(&Lin { v: vec![(t, 1)], c: -(1i128 << b) });
                if s.empty() {
                    continue;
                }
                for (small, seed) in [(false, 1u64), (true, 3)] {
                    if let Some(p) = s.point(small, seed) {
                        out.extend(self.usable(st, &p, 5));
                    }
                }
            }
        }
        out
    }
    /// parameters wider than 16 bits
    fn wide(&self, st: &St) -> Vec<T> {
        let it = st.s.dims.iter().cloned().chain(st.s.sub.keys().cloned());
        it.filter(|t| match self.m.t.as_atom(*t) {
            Some(a) => match &self.m.t.atoms[a as usize] {
                Atom::Sym { name, w } => *w > 16 && *w <= 64 && !self.m.t.names[*name as usize].starts_with(&['L', 'k'][..]),
                _ => false,
            },
            None => false,
        })
        .collect()
    }
    /// the lengths of the inputs
    pub fn lens(&self, st: &St) -> Vec<T> {
        let it = st.s.dims.iter().cloned().chain(st.s.sub.keys().cloned());
        it.filter(|t| match self.m.t.as_atom(*t) {
            Some(a) => matches!(&self.m.t.atoms[a as usize], Atom::Sym { name, w } if *w >= 32 && self.m.t.names[*name as usize].starts_with('L')),
            None => false,
        })
        .collect()
    }
    /// keep the free symbols of a point and make sure everything assumed on the path holds there
    /// two runs that differ in secret bytes only, reach this point, and disagree on the condition
    pub fn confirm_secret(&mut self, st: &St, c: Cond) -> Option<String> {
        if st.imp {
            return None;
        }
        let pts = self.points(st, 6);
        for (vals, over) in pts {
            let mut first = None;
            let ts: Vec<T> = match c {
                Cond::T(t) => vec![t],
                Cond::L(l) => self.m.t.l(l).v.iter().map(|x| x.0).collect(),
            };
            for (over, ss) in self.secrets(st, &ts, &vals, &over, 24) {
                let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
                ev.over = over.clone();
                ev.ssalt = ss;
                let v = match c {
                    Cond::L(l) => ev.lin(l).map(|x| (x >= 0) as u128),
                    Cond::T(t) => ev.term(t),
                };
                if ev.lost || v.is_none() {
                    break;
                }
                match first {
                    None => first = v,
                    x if x == v => {}
                    _ => return Some(format!("{} and message/key bytes that differ", self.show_point(&vals))),
                }
            }
        }
        None
    }
    /// settings of the secret bytes that keep to the path: any, and some that make comparisons in `ts` come out true
    pub fn secrets(&mut self, st: &St, ts: &[T], vals: &HashMap<T, i128>, over: &HashMap<(Arr, i128), u8>, n: u64) -> Vec<(HashMap<(Arr, i128), u8>, u64)> {
        let mut out = vec![];
        for (a, b) in self.comparisons(ts) {
            for (a, b) in [(a, b), (b, a)] {
                for ss in 0..2 {
                    let mut o = over.clone();
                    {
                        let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
                        ev.over = over.clone();
                        ev.ssalt = ss;
                        if let Some(v) = ev.term(b) {
                            ev.solve(a, v, &mut o);
                        }
                    }
                    if o != *over && self.usable_at(st, vals, &o, 5, ss).is_some() && out.len() < 60 {
                        out.push((o, ss));
                    }
                }
            }
        }
        // the ends of the ranges of the values in question
        for &t in ts {
            if out.len() >= 60 || !self.m.t.secret(t) {
                continue;
            }
            let top = mask(self.m.t.w(t));
            for v in [0, 1, top >> 1, (top >> 1) + 1, top] {
                let mut o = over.clone();
                let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
                ev.over = over.clone();
                ev.solve(t, v, &mut o);
                if o != *over && self.usable_at(st, vals, &o, 5, 0).is_some() {
                    out.push((o, 0));
                }
            }
        }
        for ss in 0..n {
            if self.usable_at(st, vals, over, 5, ss).is_some() {
                out.push((over.clone(), ss));
            }
        }
        out
    }
    /// pairs of terms that are compared somewhere below
    fn comparisons(&self, ts: &[T]) -> Vec<(T, T)> {
        let mut out: Vec<(T, T)> = vec![];
        let mut seen = Default::default();
        for &t in ts {
            self.m.t.visit(t, &mut seen, &mut |_, a| {
                if let Atom::Op { op: Op::Eq | Op::CtEq | Op::Ult | Op::Slt, args, .. } = a {
                    if args.len() == 2 && out.len() < 40 {
                        out.push((args[0], args[1]));
                    }
                }
            });
        }
        out
    }
    pub fn usable_at(&mut self, st: &St, vals: &HashMap<T, i128>, over: &HashMap<(Arr, i128), u8>, salt: u64, ssalt: u64) -> Option<()> {
        let mut ev = Eval::new(&self.m.t, vals.clone(), salt);
        ev.over = over.clone();
        ev.ssalt = ssalt;
        let lin = |ev: &mut Eval, l: &Lin| -> Option<i128> {
            let mut r = l.c;
            for (t, k) in &l.v {
                r += k * ev.term(*t)? as i128;
            }
            Some(r)
        };
        let dbg = std::env::var("BSA_CONF").is_ok();
        for c in &st.s.cons {
            let x = lin(&mut ev, c);
            if x.is_none() {
                // what holds of any value
                let lo: i128 = c.v.iter().map(|(t, k)| if *k < 0 { k.saturating_mul(mask(self.m.t.w(*t).min(100)) as i128) } else { 0 }).fold(c.c, |a, b| a.saturating_add(b));
                if lo >= 0 {
                    continue;
                }
            }
            if dbg && x.unwrap_or(-1) < 0 {
                eprintln!("   constraint {:?} >= 0: {:?}", c.v.iter().map(|(t, k)| format!("{}*{}", k, self.m.t.show_d(*t, 2))).collect::<Vec<_>>(), x);
            }
            if x? < 0 {
                return None;
            }
        }
        for (t, e) in &st.s.sub {
            if dbg && ev.term(*t).is_none() {
                eprintln!("   no value of {}", self.m.t.show_d(*t, 3));
            }
            if ev.term(*t)? as i128 != lin(&mut ev, e)? {
                if dbg {
                    eprintln!("   {} differs", self.m.t.show_d(*t, 3));
                }
                return None;
            }
        }
        for (t, b) in &st.s.facts {
            if (ev.term(*t)? & 1 == 1) != *b {
                return None;
            }
        }
        if ev.lost {
            return None;
        }
        Some(())
    }
    fn usable(&mut self, st: &St, p: &HashMap<T, i128>, salt: u64) -> Option<(HashMap<T, i128>, HashMap<(Arr, i128), u8>)> {
        let mut vals = HashMap::new();
        let mut bytes = vec![];
        for (&t, &v) in p {
            if let Some(a) = self.m.t.as_atom(t) {
                match &self.m.t.atoms[a as usize] {
                    Atom::Sym { .. } => {
                        vals.insert(t, v);
                    }
                    Atom::Byte { arr, idx } if matches!(self.m.t.arrs[*arr as usize], ArrK::Base { .. }) => bytes.push((*arr, *idx, v)),
                    _ => {}
                }
            }
        }
        for (&t, &b) in &st.s.facts {
            let (mut t, mut b) = (t, b);
            if self.m.t.as_atom(t).is_none() {
                let n = self.m.t.not(t);
                if self.m.t.as_atom(n).is_some() {
                    t = n;
                    b = !b;
                }
            }
            if let Some(a) = self.m.t.as_atom(t) {
                match &self.m.t.atoms[a as usize] {
                    Atom::Sym { .. } | Atom::Op { op: Op::Feature, .. } => {
                        vals.insert(t, b as i128);
                    }
                    _ => {}
                }
            }
        }
        let mut over = HashMap::new();
        {
            let mut ev = Eval::new(&self.m.t, vals.clone(), salt);
            for (arr, idx, v) in bytes {
                if let Some(i) = ev.lin(idx) {
                    over.insert((arr, i), v as u8);
                }
            }
        }
        // bytes the path compares with something
        let eqs: Vec<(T, T)> = {
            let facts: Vec<(T, bool)> = st.s.facts.iter().map(|(t, b)| (*t, *b)).collect();
            let mut v = vec![];
            for (t, b) in facts {
                let t = if b { t } else { self.m.t.not(t) };
                if let Some(a) = self.m.t.as_atom(t) {
                    if let Atom::Op { op: Op::Eq | Op::CtEq, args, .. } = &self.m.t.atoms[a as usize] {
                        v.push((args[0], args[1]));
                    }
                }
            }
            v
        };
        for (a, b) in eqs {
            let mut o = over.clone();
            let mut ev = Eval::new(&self.m.t, vals.clone(), salt);
            ev.over = over.clone();
            let (x, y) = (ev.term(a), ev.term(b));
            if let (Some(x), Some(y)) = (x, y) {
                if x != y {
                    ev.solve(a, y, &mut o);
                    if o == over {
                        ev.solve(b, x, &mut o);
                    }
                }
            }
            over = o;
        }
        self.usable_at(st, &vals, &over, salt, 0)?;
        Some((vals, over))
    }
    pub fn show_point(&self, p: &HashMap<T, i128>) -> String {
        let mut v: Vec<String> = p
            .iter()
            .filter(|x| *x.0 != SALT)
            .filter_map(|(t, x)| {
                let a = self.m.t.as_atom(*t)?;
                match &self.m.t.atoms[a as usize] {
                    Atom::Sym { name, .. } => {
                        let n = &self.m.t.names[*name as usize];
                        Some(format!("{}={}", n, x))
                    }
                    Atom::Op { op: Op::Feature, args, .. } => {
                        let c = self.m.t.as_const(args[0])?;
                        Some(format!("{}={}", self.m.t.names[c as usize], x))
                    }
                    _ => None,
                }
            })
            .collect();
        v.sort();
        v.join(" ")
    }
    /// is there a point of the path where the term is true? (bytes are chosen to make comparisons succeed)
    pub fn confirm_true(&mut self, st: &St, r: T) -> Option<String> {
        if st.imp {
            return None;
        }
        for (vals, over) in self.points(st, 10) {
            for (over, ss) in self.secrets(st, &[r], &vals, &over, 2) {
                let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
                ev.over = over;
                ev.ssalt = ss;
                if ev.term(r).map_or(false, |x| x & 1 == 1) && !ev.lost {
                    return Some(format!("{} and bytes that agree as far as they are compared", self.show_point(&vals)));
                }
            }
        }
        None
    }
    /// is there a point of the path where `bad` holds?
    pub fn confirm(&mut self, st: &St, bad: &dyn Fn(&mut Eval) -> Option<bool>) -> Option<String> {
        if st.imp {
            return None;
        }
        let pts = self.points(st, 10);
        for (vals, over) in pts {
            let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
            ev.over = over;
            if bad(&mut ev) == Some(true) && !ev.lost {
                return Some(self.show_point(&vals));
            }
        }
        None
    }
    /// the same, with an input that is long
    pub fn confirm_big(&mut self, st: &St, bad: &dyn Fn(&mut Eval) -> Option<bool>) -> Option<String> {
        if st.imp {
            return None;
        }
        let lens = self.lens(st);
        for (vals, over) in self.big_points(st, &lens) {
            let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
            ev.over = over;
            if bad(&mut ev) == Some(true) && !ev.lost {
                return Some(self.show_point(&vals));
            }
        }
        None
    }
    /// bytes of segments of known total length
    pub fn eval_segs(ev: &mut Eval, segs: &[Seg], n: usize) -> Option<Vec<u8>> {
        let mut out = vec![0u8; n];
        for s in segs {
            let (lo, hi) = (ev.lin(s.lo)?, ev.lin(s.hi)?);
            for p in lo..hi.min(n as i128) {
                out[p as usize] = match s.k {
                    K::Fill(t) => ev.term(t)? as u8,
                    K::Src(a, d) => {
                        let d = ev.lin(d)?;
                        ev.arr(a, p + d)?
                    }
                    K::Cell(Val::I(t)) => {
                        if hi - lo > 16 {
                            return None;
                        }
                        (ev.term(t)? >> (8 * (p - lo))) as u8
                    }
                    _ => return None,
                };
            }
        }
        Some(out)
    }
    fn eval_words(ev: &mut Eval, w: &[T; 8]) -> Option<[u32; 8]> {
        let mut r = [0; 8];
        for i in 0..8 {
            r[i] = ev.term(w[i])? as u32;
        }
        Some(r)
    }
    fn eval_one(ev: &mut Eval, w: &Want) -> Option<[u8; 32]> {
        let init = Self::eval_words(ev, &w.init)?;
        let key = match &w.key {
            Some(s) => Some(Self::eval_segs(ev, s, 64)?),
            None => None,
        };
        let (len, off) = (ev.lin(w.len)?, ev.lin(w.off)?);
        if len > 3_000_000 {
            return None;
        }
        let mut msg = vec![];
        for p in 0..len {
            if (p / 64) % (w.stride / 64) == w.row {
                msg.push(ev.arr(w.base, off + p)?);
            }
        }
        let last = ev.term(w.last)? & 1 == 1;
        Some(b2s(&init, key.as_deref(), &msg, last))
    }
    pub fn eval_want(ev: &mut Eval, w: &DigTree) -> Option<[u8; 32]> {
        match w {
            DigTree::One(w) => Self::eval_one(ev, w),
            DigTree::Tree { leaves, root, .. } => {
                let mut m = vec![];
                for l in leaves {
                    m.extend_from_slice(&Self::eval_one(ev, l)?);
                }
                let init = Self::eval_words(ev, root)?;
                Some(b2s(&init, None, &m, true))
            }
        }
    }
    pub fn hash_len_of(w: &DigTree) -> L {
        match w {
            DigTree::One(w) => w.hash_len,
            DigTree::Tree { hash_len, .. } => *hash_len,
        }
    }
    /// component-wise comparison of the last application at a point too large to evaluate
    fn far_diff(ev: &mut Eval, t: &Terms, k: u32, w: &Want) -> Option<bool> {
        let f = t.fargs[k as usize].clone();
        let (len, off) = (ev.lin(w.len)?, ev.lin(w.off)?);
        if len < 4096 * w.stride {
            return None;
        }
        let kk = if w.key.is_some() { 64 } else { 0 };
        let lane = 64 * w.row;
        // rows of this state
        let rows = (len - lane + w.stride - 1) / w.stride;
        let n = rows - 1;
        let r = n * w.stride + lane;
        let p = (len - r).min(64);
        let tt = 64 * n + p + kk;
        let last = ev.term(w.last)? & 1 == 1;
        if ev.term(f.t0)? != (tt as u128 & 0xffff_ffff)
            || ev.term(f.t1)? != (tt as u128 >> 32 & 0xffff_ffff)
            || ev.term(f.f0)? != 0xffff_ffff
            || ev.term(f.f1)? != (if last { 0xffff_ffff } else { 0 })
        {
            return Some(true);
        }
        for i in 0..16 {
            let mut x = 0u128;
            for q in 0..4 {
                let b = 4 * i as i128 + q;
                if b < p {
                    x |= (ev.arr(w.base, off + r + b)? as u128) << (8 * q);
                }
            }
            if ev.term(f.m[i])? != x {
                return Some(true);
            }
        }
        let mut h = None;
        for i in 0..8 {
            let a = t.as_atom(f.h[i])?;
            let Atom::Chain { s, n, .. } = t.atoms[a as usize] else { return None };
            h = Some((s, n));
        }
        let (s, nn) = h?;
        let sm = t.streams[s as usize].clone();
        if sm.stride != w.stride || sm.base != w.base {
            return Some(true);
        }
        for o in ev.odd.clone().iter().filter(|o| o.s == s) {
            let top = ev.lin(nn)? - 1;
            if ev.odd_at(o, top).is_some() {
                return Some(true);
            }
        }
        // blocks in front of the stream count as well
        let (so, stb, nn) = (ev.lin(sm.off)?, ev.lin(sm.tbase)?, ev.lin(nn)?);
        let row0 = (so - off - lane).div_euclid(w.stride);
        Some(row0 + nn != n || so - off - lane != row0 * w.stride || stb != 64 * row0 + kk)
    }
    /// structural comparison, then confirmation of differences
    pub fn judge(&mut self, st: &St, bytes: &[T], w: &DigTree) -> Vec<(St, Verdict, Option<String>)> {
        let mut out = vec![];
        let mut work = vec![st.clone()];
        let mut n = 0;
        while let Some(s) = work.pop() {
            n += 1;
            let mut s2 = s.clone();
            if n > 400 {
                out.push((s, Verdict::Unk("too many cases".into()), None));
                break;
            }
            match self.check_digest(&mut s2, bytes, w) {
                Ok(Verdict::Ok) => out.push((s2, Verdict::Ok, None)),
                Ok(Verdict::Diff(e)) => {
                    let by = bytes.to_vec();
                    let hl = Self::hash_len_of(w);
                    let kf = self.digest_of(bytes);
                    let wit = {
                        let w = w.clone();
                        self.confirm_t(&s2, &|ev, t| {
                            let hl = ev.lin(hl)? as usize;
                            match Self::eval_want(ev, &w) {
                                Some(x) => {
                                    for i in 0..hl.min(by.len()) {
                                        if ev.term(by[i])? as u8 != x[i] {
                                            return Some(true);
                                        }
                                    }
                                    Some(false)
                                }
                                None => match (&w, kf) {
                                    (DigTree::One(w), Some(k)) => Self::far_diff(ev, t, k, w),
                                    _ => None,
                                },
                            }
                        })
                    };
                    match wit {
                        Some(p) => out.push((s2, Verdict::Diff(e), Some(p))),
                        None => out.push((s2, Verdict::Unk(e), None)),
                    }
                }
                Ok(v) => out.push((s2, v, None)),
                Err(e @ (Er::Split(_) | Er::SplitT(_))) => match self.split_quiet(s2, e) {
                    Ok(v) => work.extend(v),
                    Err(_) => out.push((s, Verdict::Unk("case split".into()), None)),
                },
                Err(Er::Dead) => {}
                Err(Er::Unsup(m)) => out.push((s, Verdict::Unk(m), None)),
            }
        }
        out
    }
    pub fn confirm_t(&mut self, st: &St, bad: &dyn Fn(&mut Eval, &Terms) -> Option<bool>) -> Option<String> {
        if st.imp {
            return None;
        }
        let mut pts = vec![];
        if !st.odd.is_empty() {
            let lens = self.lens(st);
            pts = self.big_points(st, &lens);
        }
        pts.extend(self.points(st, 10));
        for (vals, over) in pts {
            let mut ev = Eval::new(&self.m.t, vals.clone(), 5);
            ev.over = over;
            let t = &self.m.t;
            ev.odd = st.odd.iter().map(|o| t.odd[*o as usize].clone()).collect();
            let r = bad(&mut ev, t);
            if std::env::var("BSA_CONF").is_ok() {
                eprintln!("  judged {:?} lost {} at {}", r, ev.lost, self.show_point(&vals));
            }
            if r == Some(true) && !ev.lost {
                return Some(self.show_point(&vals));
            }
        }
        None
    }
    /// a case split made by the specification, not by the code
    pub fn split_quiet(&mut self, st: St, e: Er) -> Rs<Vec<St>> {
        let n = self.ev.len();
        let nf = self.nofork;
        self.nofork = false;
        let r = self.split(st, e);
        self.nofork = nf;
        self.ev.truncate(n);
        r
    }
}
