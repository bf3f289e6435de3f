//! Parameter sets, states built from them, digests.
use crate::checks::*;
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::report::*;
use crate::spec::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, HashMap, HashSet};

/// values of a parameter set
#[derive(Clone)]
pub struct PV {
    pub hl: T,
    pub key: (Arr, L),
    pub salt: Vec<Seg>,
    pub personal: Vec<Seg>,
    pub fanout: T,
    pub depth: T,
    pub leaf: T,
    pub off: T,
    pub ndepth: T,
    pub inner: T,
    pub last: T,
}

impl Ck {
    pub fn okk(&mut self, props: &[&str], what: &str) {
        for p in props {
            match self.capped {
                None => self.rep.ok(p, what),
                Some(c) => self.rep.ok(p, &format!("{} (lengths up to {} only)", what, c)),
            }
        }
    }
    pub fn unk(&mut self, props: &[&str], what: &str, why: &str) {
        for p in props {
            self.rep.unk(p, what, why)
        }
    }
    pub fn bad(&mut self, props: &[&str], what: &str, msg: &str, loc: &str, wit: &str) {
        if self.guess {
            // the state this starts from may be more than what can be reached
            let why = format!("not in general, starting from the states of the invariant: {} ({})", msg, wit);
            return self.unk(props, what, &why);
        }
        for p in props {
            self.rep.bad(p, what, msg, loc, wit)
        }
    }
    /// where in the source a function is
    pub fn loc_of(&mut self, name: &str) -> String {
        match self.f(name) {
            Ok(f) => {
                let i = self.x.fns[f as usize];
                span_str(&Some(i.def.span()))
            }
            _ => String::new(),
        }
    }
    pub fn err(&mut self, e: Er) -> String {
        match e {
            Er::Unsup(m) => m,
            Er::Split(l) => {
                let q = self.x.m.t.lin(l);
                format!("undecided sign of {}", self.x.m.t.show_lin(q, 2))
            }
            Er::SplitT(t) => format!("undecided {}", self.x.m.t.show_d(t, 3)),
            Er::Dead => "no path".into(),
        }
    }
    // ---------- parameters
    pub fn byte_t(&mut self, t: T) -> T {
        self.x.m.t.slice(t, 0, 8)
    }
    pub fn zero_segs(&mut self, n: i128) -> Vec<Seg> {
        let (z, h) = (self.lc(0), self.lc(n));
        vec![self.x.zeros(z, h)]
    }
    pub fn pv_default(&mut self) -> PV {
        let t = &mut self.x.m.t;
        let (c0, c1, c32) = (t.k(8, 0), t.k(8, 1), t.k(64, 32));
        let (l32, o48, b0) = (t.k(32, 0), t.k(64, 0), t.k(1, 0));
        let key = t.base("key", true);
        let z = t.lc(0);
        let s8 = self.zero_segs(8);
        PV { hl: c32, key: (key, z), salt: s8.clone(), personal: s8, fanout: c1, depth: c1, leaf: l32, off: o48, ndepth: c0, inner: self.x.m.t.k(64, 0), last: b0 }
    }
    /// zero-padded string of n bytes
    pub fn padded(&mut self, st: &mut St, arr: Arr, len: L, n: i128) -> Vec<Seg> {
        let (z, h) = (self.lc(0), self.lc(n));
        let mut v = vec![];
        if self.x.m.le(st, len, z) != Some(true) {
            v.push(Seg { lo: z, hi: len, k: K::Src(arr, z) });
        }
        if !self.x.m.eq(st, len, h) {
            v.push(self.x.zeros(len, h));
        }
        v
    }
    /// the parameter block as words xored with the IV
    pub fn pv_words(&mut self, st: &mut St, v: &PV) -> [T; 8] {
        let kl = self.x.m.t.l(v.key.1).clone();
        let kl8 = self.x.m.t.mk_sum(8, kl);
        let hl8 = self.byte_t(v.hl);
        let in8 = self.byte_t(v.inner);
        let off6 = self.x.m.t.slice(v.off, 0, 48);
        let cells: Vec<T> = vec![hl8, kl8, v.fanout, v.depth, v.leaf, off6, v.ndepth, in8];
        let mut segs = vec![];
        let mut pos = 0;
        for c in cells {
            let n = self.x.m.t.w(c) as i128 / 8;
            for b in 0..n {
                let x = self.x.m.t.slice(c, 8 * b as u32, 8);
                let (lo, hi) = (self.lc(pos), self.lc(pos + 1));
                segs.push(Seg { lo, hi, k: K::Cell(Val::I(x)) });
                pos += 1;
            }
        }
        for s in [&v.salt, &v.personal] {
            let d = self.lc(pos);
            for x in s.iter() {
                segs.push(self.x.m.shift(*x, d));
            }
            pos += 8;
        }
        let size = self.lc(32);
        let mut s2 = st.clone();
        let o = s2.new_root(Obj { size, segs, al: 0 });
        let z = self.lc(0);
        let mut r = [0; 8];
        for i in 0..8 {
            let off = self.lc(4 * i as i128);
            let w = match self.x.m.read_scalar(&s2, o, off, 4, z, size) {
                Ok(Val::I(t)) => t,
                _ => self.x.m.t.fresh_unk(32),
            };
            let iv = self.x.m.t.k(32, IV[i] as u128);
            r[i] = self.x.m.t.xor(w, iv);
        }
        r
    }
    pub fn key_block(&mut self, st: &mut St, v: &PV) -> Option<Vec<Seg>> {
        let z = self.lc(0);
        if self.x.m.eq(st, v.key.1, z) {
            return None;
        }
        Some(self.padded(st, v.key.0, v.key.1, 64))
    }
    pub fn want_of(&mut self, st: &mut St, v: &PV, base: Arr, off: L, len: L) -> Want {
        let init = self.pv_words(st, v);
        let key = self.key_block(st, v);
        let hash_len = self.x.m.lift(st, v.hl);
        Want { init, key, base, off, stride: 64, row: 0, len, last: v.last, hash_len }
    }
    /// is a key set? (splits)
    pub fn split_key(&mut self, st: St, v: &PV) -> Vec<St> {
        let l = self.x.m.t.laddc(v.key.1, -1);
        let e = st.s.apply(self.x.m.t.l(l));
        if e.v.is_empty() {
            return vec![st];
        }
        self.x.split_quiet(st, Er::Split(e)).unwrap_or_default()
    }
    pub fn arg_usize(&mut self, t: T) -> Rv {
        Rv::S(Val::I(t))
    }
    /// call something on an object and keep only the states; the panics it can reach are returned
    pub fn method(&mut self, st: &St, name: &str, args: &[Rv]) -> Rs<(Vec<(St, Rv)>, Vec<Ev>)> {
        let n0 = self.x.ev.len();
        let r = self.call(st, name, args)?;
        let mut pan = vec![];
        let mut rest = vec![];
        for e in self.x.ev.split_off(n0) {
            if e.k == EvK::Panic {
                pan.push(e)
            } else {
                rest.push(e)
            }
        }
        self.x.ev.extend(rest);
        Ok((r, pan))
    }
    /// as `method`, but panics are recorded as such
    pub fn total(&mut self, st: &St, name: &str, args: &[Rv]) -> Rs<Vec<(St, Rv)>> {
        let n0 = self.x.ev.len();
        let t0 = std::time::Instant::now();
        let (s0, b0) = (self.x.n_branches, self.x.n_blocks);
        let r = self.call(st, name, args)?;
        if std::env::var("BSA_TIME").map_or(false, |v| v == "2") {
            eprintln!("  {} -> {} states, {} splits, {} blocks {:?}", name, r.len(), self.x.n_branches - s0, self.x.n_blocks - b0, t0.elapsed());
        }
        if self.x.ev.len() == n0 {
            self.okk(&["C20"], &format!("{} cannot panic", name));
        } else {
            let also = if self.cur.is_empty() { vec![served(name).to_string()] } else { self.cur.clone() };
            for e in &mut self.x.ev[n0..] {
                if e.k == crate::interp::EvK::Panic {
                    e.also = also.clone();
                }
            }
        }
        Ok(r)
    }
    pub fn sub(&mut self, st: &St, o: ObjId, off: i128, n: i128) -> Rv {
        let _ = st;
        let (lo, hi) = (self.lc(off), self.lc(off + n));
        Rv::S(Val::P(Ptr { o, off: Some(lo), lo, hi }))
    }
    /// an object for `name`'s result
    pub fn make(&mut self, st: &St, name: &str, args: &[Rv]) -> Rs<Vec<(St, ObjId)>> {
        let n = self.ret_size(name)?;
        let mut out = vec![];
        for (mut s, v) in self.total(st, name, args)? {
            let o = self.put(&mut s, n, &v);
            out.push((s, o));
        }
        Ok(out)
    }
    pub fn sym_sized(&mut self, st: &mut St, name: &str, w: u32, lo: i128, hi: i128) -> T {
        // no wider than needed: the upper bits are known to be zero
        let n = (128 - (hi as u128).leading_zeros()).max(1);
        let t = self.x.m.t.sym(name, n.min(w));
        let t = self.x.m.t.zext(t, w);
        let l = self.x.m.lift(st, t);
        let e = self.x.m.t.l(l).clone();
        let mut a = e.clone();
        a.c -= lo;
        let mut b = lin_mul(&e, -1);
        b.c += hi;
        st.store().add_ge(&a);
        st.store().add_ge(&b);
        t
    }
    pub fn sym_slice(&mut self, st: &mut St, name: &str, secret: bool, max: i128) -> (Rv, Arr, L) {
        let arr = self.x.m.t.base(name, secret);
        let w = self.ptr_sz();
        let t = self.sym_sized(st, &format!("{}_len", name), w, 0, max);
        let len = self.x.m.lift(st, t);
        let z = self.lc(0);
        (self.slice_arg(st, arr, z, len), arr, len)
    }
    /// the setters of the BLAKE2s parameters with fresh values; `tag` names them
    pub fn setter(&mut self, st: &mut St, which: usize, tag: &str, v: &mut PV) -> (&'static str, Rv) {
        let w = self.ptr_sz();
        let n = |s: &str| format!("{}{}", s, tag);
        match which {
            0 => {
                let t = self.sym_sized(st, &n("hl"), w, 1, 32);
                v.hl = t;
                ("Params::hash_length", Rv::S(Val::I(t)))
            }
            1 => {
                let (a, arr, len) = self.sym_slice(st, &n("key"), true, 32);
                v.key = (arr, len);
                ("Params::key", a)
            }
            2 => {
                let (a, arr, len) = self.sym_slice(st, &n("salt"), false, 8);
                v.salt = self.padded(st, arr, len, 8);
                ("Params::salt", a)
            }
            3 => {
                let (a, arr, len) = self.sym_slice(st, &n("personal"), false, 8);
                v.personal = self.padded(st, arr, len, 8);
                ("Params::personal", a)
            }
            4 => {
                let t = self.x.m.t.sym(&n("fanout"), 8);
                v.fanout = t;
                ("Params::fanout", Rv::S(Val::I(t)))
            }
            5 => {
                let t = self.sym_sized(st, &n("depth"), 8, 1, 255);
                v.depth = t;
                ("Params::max_depth", Rv::S(Val::I(t)))
            }
            6 => {
                let t = self.x.m.t.sym(&n("leaflen"), 32);
                v.leaf = t;
                ("Params::max_leaf_length", Rv::S(Val::I(t)))
            }
            7 => {
                let t = self.sym_sized(st, &n("node_offset"), 64, 0, (1 << 48) - 1);
                v.off = t;
                ("Params::node_offset", Rv::S(Val::I(t)))
            }
            8 => {
                let t = self.x.m.t.sym(&n("node_depth"), 8);
                v.ndepth = t;
                ("Params::node_depth", Rv::S(Val::I(t)))
            }
            9 => {
                let t = self.sym_sized(st, &n("inner"), w, 0, 32);
                v.inner = t;
                ("Params::inner_hash_length", Rv::S(Val::I(t)))
            }
            _ => {
                let t = self.x.m.t.sym(&n("last"), 1);
                v.last = t;
                let b = self.x.bool_val(t);
                ("Params::last_node", Rv::S(b))
            }
        }
    }
    pub fn set(&mut self, st: St, p: &Rv, name: &str, a: Rv) -> Rs<Vec<St>> {
        let mut out = vec![];
        let n0 = self.x.ev.len();
        for (s, r) in self.call(&st, name, &[p.clone(), a])? {
            let pv = self.x.sc(&r, self.x.m.ptr);
            let want = self.x.sc(p, self.x.m.ptr);
            let same = match (pv, want) {
                (Val::P(a), Val::P(b)) => a.o == b.o && a.off == b.off,
                _ => false,
            };
            if !same {
                self.unk(&["C12"], &format!("{} returns its receiver", name), "the returned reference is not recognised");
            }
            out.push(s);
        }
        let pans: Vec<Ev> = self.x.ev[n0..].iter().filter(|e| e.k == EvK::Panic).cloned().collect();
        if pans.is_empty() {
            self.okk(&["C11", "C20"], &format!("{} accepts every value in range", name));
        }
        self.x.ev.truncate(n0);
        for e in pans {
            self.panic_bad(&["C11"], &format!("{} accepts every value in range", name), &e);
        }
        Ok(out)
    }
    /// a panic that should not be possible
    pub fn panic_bad(&mut self, props: &[&str], what: &str, e: &Ev) {
        let st = match &e.st {
            Some(s) => s.clone(),
            None => return,
        };
        if e.vague {
            self.unk(props, what, &format!("cannot exclude: {} at {}", e.msg, e.loc));
            return;
        }
        match self.x.confirm(&st, &|_| Some(true)) {
            Some(w) => self.bad(props, what, &format!("{} in {}", e.msg, e.stack.last().cloned().unwrap_or_default()), &e.loc, &w),
            None => self.unk(props, what, &format!("no concrete input found for: {} at {}", e.msg, e.loc)),
        }
    }
    /// all parameters set to symbols
    pub fn params_sym(&mut self, st: &St, full: bool) -> Rs<Vec<(St, ObjId, PV)>> {
        let mut out = vec![];
        for (s, o) in self.make(st, "Params::new", &[])? {
            let p = self.ptr(&mut s.clone(), o);
            let mut v = self.pv_default();
            let mut sts = vec![s];
            for w in 0..11 {
                let mut next = vec![];
                for mut s in sts {
                    let (name, a) = if !full && (w == 2 || w == 3) {
                        // any eight bytes: shorter strings are covered by the parameter checks
                        let arr = self.x.m.t.base(if w == 2 { "salt" } else { "personal" }, false);
                        let (z, len) = (self.lc(0), self.lc(8));
                        let segs = self.padded(&mut s, arr, len, 8);
                        let a = self.slice_arg(&mut s, arr, z, len);
                        if w == 2 {
                            v.salt = segs;
                            ("Params::salt", a)
                        } else {
                            v.personal = segs;
                            ("Params::personal", a)
                        }
                    } else {
                        self.setter(&mut s, w, "", &mut v)
                    };
                    next.extend(self.set(s, &p, name, a)?);
                }
                sts = next;
            }
            for s in sts {
                for s in self.split_key(s, &v) {
                    out.push((s, o, v.clone()));
                }
            }
        }
        Ok(out)
    }
    // ---------- digests
    /// the bytes a hash shows
    pub fn hash_bytes(&mut self, st: &St, h: &Rv) -> Rs<Vec<(St, Vec<T>, L)>> {
        let mut out = vec![];
        for (mut s, r) in self.total(st, "Hash::as_bytes", &[h.clone()])? {
            let (p, m) = self.x.split_fat(&r)?;
            let Val::P(p) = p else { return unsup("as_bytes") };
            let len = match self.x.int(&mut s, m) {
                Some(l) => l,
                None => return unsup("as_bytes"),
            };
            let off = match p.off {
                Some(o) => o,
                None => return unsup("as_bytes"),
            };
            let ob = self.x.m.obj(&s, p.o);
            let mut n = 32;
            while n > 0 {
                let e = self.x.m.t.laddc(off, n);
                if self.x.m.le(&s, e, ob.size) == Some(true) {
                    break;
                }
                n -= 1;
            }
            let mut by = vec![];
            for i in 0..n {
                let q = self.x.m.t.laddc(off, i);
                let (z, hi) = (self.lc(0), ob.size);
                match self.x.m.read_scalar(&s, p.o, q, 1, z, hi)? {
                    Val::I(t) => by.push(t),
                    _ => {
                        let u = self.x.m.t.fresh_unk(8);
                        by.push(u)
                    }
                }
            }
            out.push((s, by, len));
        }
        Ok(out)
    }
    /// a digest has to be the wanted one
    pub fn digest(&mut self, props: &[&str], what: &str, loc: &str, st: &St, h: &Rv, w: &DigTree) -> Rs<()> {
        // found to be violated already
        if self.rep.bad.iter().filter(|b| b.what == what).count() >= 3 * props.len() {
            return Ok(());
        }
        for (mut s, by, len) in self.hash_bytes(st, h)? {
            let hl = X::hash_len_of(w);
            if self.x.m.eq(&s, len, hl) {
                self.okk(props, &format!("{}: digest length", what));
            } else {
                match self.x.confirm(&s, &|ev| Some(ev.lin(len)? != ev.lin(hl)?)) {
                    Some(p) => self.bad(props, what, "the digest does not have the requested length", loc, &p),
                    None => self.unk(props, what, "digest length"),
                }
            }
            // undecided lengths: only the bytes shown matter
            let mut by = by;
            if let Some(n) = self.x.m.t.lconst(len) {
                by.truncate(n as usize);
            }
            for (_, v, wit) in self.x.judge(&mut s, &by, w) {
                match (v, wit) {
                    (Verdict::Ok, _) => self.okk(props, what),
                    (Verdict::Diff(e), Some(p)) => self.bad(props, what, &e, loc, &p),
                    (Verdict::Diff(e), None) | (Verdict::Unk(e), _) => self.unk(props, what, &e),
                }
            }
        }
        Ok(())
    }
    pub fn num(&mut self, props: &[&str], what: &str, loc: &str, st: &mut St, r: &Rv, want: L, n: i128) {
        let t = match self.x.sc(r, n) {
            Val::I(t) => t,
            _ => return self.unk(props, what, "value not tracked"),
        };
        let l = self.x.m.lift(st, t);
        if self.x.m.eq(st, l, want) {
            return self.okk(props, what);
        }
        let differs = |ev: &mut Eval| Some(ev.lin(want)? != ev.term(t)? as i128);
        let wit = match self.x.confirm(st, &differs) {
            None => self.x.confirm_big(st, &differs),
            w => w,
        };
        match wit {
            Some(p) => {
                let g = self.x.m.t.show_lin(l, 3);
                let w = self.x.m.t.show_lin(want, 3);
                self.bad(props, what, &format!("{} instead of {}", g, w), loc, &p)
            }
            None => self.unk(props, what, "not proved equal"),
        }
    }
    pub fn finalize(&mut self, st: &St, p: &Rv, name: &str) -> Rs<Vec<(St, Rv)>> {
        let mut out = vec![];
        for (mut s, v) in self.total(st, name, &[p.clone()])? {
            let n = self.ret_size(name)?;
            let o = self.put(&mut s, n, &v);
            let h = self.ptr(&mut s, o);
            out.push((s, h));
        }
        Ok(out)
    }
    pub fn sym_l(&mut self, st: &mut St, name: &str, max: i128) -> L {
        self.sym_len(st, name, max)
    }
}


/// where a setter's argument has to lie
pub const RANGES: [(usize, &str, i128, i128); 6] = [
    (0, "Params::hash_length", 1, 32),
    (1, "Params::key", 0, 32),
    (2, "Params::salt", 0, 8),
    (3, "Params::personal", 0, 8),
    (5, "Params::max_depth", 1, 255),
    (7, "Params::node_offset", 0, (1 << 48) - 1),
];
pub const RANGE9: (usize, &str, i128, i128) = (9, "Params::inner_hash_length", 0, 32);

impl Ck {
    /// the digest of the empty input shows every parameter
    pub fn observe(&mut self, props: &[&str], what: &str, st: &St, p: &Rv, pv: &PV) -> Rs<()> {
        for st in self.split_key(st.clone(), pv) {
            for (mut s, o) in self.make(&st, "Params::to_state", &[p.clone()])? {
                let sp = self.ptr(&mut s, o);
                let loc = self.loc_of("Params::to_state");
                for (mut s, hp) in self.finalize(&s, &sp, "State::finalize")? {
                    let m = self.x.m.t.base("M", true);
                    let z = self.lc(0);
                    let w = self.want_of(&mut s, pv, m, z, z);
                    self.digest(props, what, &loc, &s, &hp, &DigTree::One(w))?;
                }
            }
        }
        Ok(())
    }
    fn const_slice(&mut self, st: &mut St, name: &str, n: i128, v: &mut Vec<Seg>) -> Rv {
        let arr = self.x.m.t.base(name, false);
        let (z, len) = (self.lc(0), self.lc(n));
        *v = self.padded(st, arr, len, 8);
        self.slice_arg(st, arr, z, len)
    }
    /// salt or personalization of a fixed length
    fn set_fixed(&mut self, st: St, p: &Rv, which: usize, name: &str, n: i128, v: &mut PV) -> Rs<Vec<St>> {
        let mut st = st;
        let mut segs = vec![];
        let a = self.const_slice(&mut st, name, n, &mut segs);
        if which == 2 {
            v.salt = segs
        } else {
            v.personal = segs
        }
        self.set(st, p, if which == 2 { "Params::salt" } else { "Params::personal" }, a)
    }
    pub fn b2s_params(&mut self) -> Rs<()> {
        let st = self.x.new_st();
        // every parameter set
        for (s, o, v) in self.params_sym(&st, false)? {
            let p = self.ptr(&mut s.clone(), o);
            self.observe(&["C03", "C12"], "state of a fully specified parameter set", &s, &p, &v)?;
            // one of them set again
            for w in 0..11 {
                if w == 2 || w == 3 {
                    continue;
                }
                let mut s = s.clone();
                let mut v = v.clone();
                let (name, a) = self.setter(&mut s, w, "_again", &mut v);
                for s in self.set(s, &p, name, a)? {
                    self.observe(&["C12"], &format!("{} called again changes that parameter only", name), &s, &p, &v)?;
                }
            }
            for n in 0..=8 {
                for w in [2, 3] {
                    let mut v = v.clone();
                    for s in self.set_fixed(s.clone(), &p, w, "again", n, &mut v)? {
                        self.observe(&["C12", "C03"], &format!("{} of {} bytes after a longer one", if w == 2 { "salt" } else { "personalization" }, n), &s, &p, &v)?;
                        if n < 8 {
                            let mut v2 = v.clone();
                            for s in self.set_fixed(s, &p, w, "third", (n + 3).min(8), &mut v2)? {
                                self.observe(&["C12"], &format!("{} of {} bytes after one of {}", if w == 2 { "salt" } else { "personalization" }, (n + 3).min(8), n), &s, &p, &v2)?;
                            }
                        }
                    }
                }
            }
        }
        // one parameter alone
        for w in 0..11 {
            for (mut s, o) in self.make(&st, "Params::new", &[])? {
                let p = self.ptr(&mut s, o);
                let mut v = self.pv_default();
                if w == 2 || w == 3 {
                    for n in 0..=8 {
                        let mut v = v.clone();
                        for s in self.set_fixed(s.clone(), &p, w, "alone", n, &mut v)? {
                            self.observe(&["C03", "C12"], &format!("{} alone", if w == 2 { "salt" } else { "personalization" }), &s, &p, &v)?;
                        }
                    }
                    continue;
                }
                let (name, a) = self.setter(&mut s, w, "", &mut v);
                for s in self.set(s, &p, name, a)? {
                    self.observe(&["C03", "C12"], &format!("{} alone", name), &s, &p, &v)?;
                }
            }
        }
        Ok(())
    }
    /// an argument without restriction
    fn free_arg(&mut self, st: &mut St, which: usize) -> (Rv, L) {
        match which {
            1 | 2 | 3 => {
                let (a, _, len) = self.sym_slice(st, "arg", which == 1, 1 << 62);
                (a, len)
            }
            w => {
                let bits = match w {
                    5 => 8,
                    7 => 64,
                    _ => self.ptr_sz(),
                };
                let t = self.x.m.t.sym("arg", bits);
                let l = self.x.m.lift(st, t);
                (Rv::S(Val::I(t)), l)
            }
        }
    }
    /// setters accept exactly their range
    pub fn ranges(&mut self, sp: bool) -> Rs<()> {
        let st = self.x.new_st();
        for (w, name, lo, hi) in RANGES.iter().cloned().chain([RANGE9]) {
            if sp && w > 1 {
                continue;
            }
            let (name, new) = if sp { (format!("blake2sp::{}", name), "blake2sp::Params::new") } else { (name.to_string(), "Params::new") };
            let loc = self.loc_of(&name);
            for (s, o) in self.make(&st, new, &[])? {
                let p = self.ptr(&mut s.clone(), o);
                let (mut s, v) = if sp { (s, self.pv_default()) } else { self.some_params(s, &p)? };
                let before = self.x.m.obj(&s, o).segs.clone();
                let (a, l) = self.free_arg(&mut s, w);
                let (rets, pans) = self.method(&s, &name, &[p.clone(), a])?;
                let above = self.x.m.t.laddc(l, -hi - 1);
                let ml = self.x.m.t.lmul(l, -1);
                let below = self.x.m.t.laddc(ml, lo - 1);
                for (s, _) in rets {
                    for (side, what) in [(above, "too large"), (below, "too small")] {
                        let mut s2 = s.clone();
                        let e = self.x.m.t.l(side).clone();
                        s2.store().add_ge(&e);
                        let ob = format!("{} refuses values that are {}", name, what);
                        if s2.s.empty() {
                            self.okk(&["C11"], &ob);
                            continue;
                        }
                        match self.x.confirm(&s2, &|_| Some(true)) {
                            Some(wit) => self.bad(&["C11"], &ob, "such a value is accepted", &loc, &wit),
                            None => self.unk(&["C11"], &ob, "a path with such a value is not excluded"),
                        }
                    }
                }
                for e in pans {
                    let s = match &e.st {
                        Some(s) => s.clone(),
                        None => continue,
                    };
                    let mut s2 = s.clone();
                    let (a1, a2) = (self.x.m.t.laddc(l, -lo), self.x.m.t.laddc(ml, hi));
                    let (a1, a2) = (self.x.m.t.l(a1).clone(), self.x.m.t.l(a2).clone());
                    s2.store().add_ge(&a1);
                    s2.store().add_ge(&a2);
                    let ob = format!("{} accepts every value in range", name);
                    if s2.s.empty() {
                        self.okk(&["C11"], &ob);
                        // and nothing has been stored yet
                        let ob = format!("{} leaves the parameters alone when it refuses a value", name);
                        let after = self.x.m.obj(&s, o).segs.clone();
                        let mut s3 = s.clone();
                        if self.x.m.segs_eq(&mut s3, &before, &after) {
                            self.okk(&["C11"], &ob);
                        } else if e.vague {
                            self.unk(&["C11"], &ob, "the state at the panic is not tracked");
                        } else if sp {
                            self.observe_sp(&["C11"], &ob, &s, &p, &v)?;
                        } else {
                            self.observe(&["C11"], &ob, &s, &p, &v)?;
                        }
                    } else if e.vague {
                        self.unk(&["C11"], &ob, &format!("cannot exclude: {}", e.msg));
                    } else {
                        match self.x.confirm(&s2, &|_| Some(true)) {
                            Some(wit) => self.bad(&["C11"], &ob, &format!("{} for a value in range", e.msg), &e.loc, &wit),
                            None => self.unk(&["C11"], &ob, &format!("{} is not excluded", e.msg)),
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// parameters that differ from the defaults
    fn some_params(&mut self, s: St, p: &Rv) -> Rs<(St, PV)> {
        let mut v = self.pv_default();
        let mut s = s;
        for w in 0..11 {
            let mut segs = vec![];
            let (name, a) = if w == 2 || w == 3 {
                let a = self.const_slice(&mut s, if w == 2 { "salt" } else { "personal" }, 8, &mut segs);
                if w == 2 {
                    v.salt = segs
                } else {
                    v.personal = segs
                }
                (if w == 2 { "Params::salt" } else { "Params::personal" }, a)
            } else if w == 1 {
                let arr = self.x.m.t.base("key", true);
                let (z, len) = (self.lc(0), self.lc(32));
                v.key = (arr, len);
                ("Params::key", self.slice_arg(&mut s, arr, z, len))
            } else {
                self.setter(&mut s, w, "", &mut v)
            };
            s = match self.set(s, p, name, a)?.pop() {
                Some(s) => s,
                None => return unsup("no parameters"),
            };
        }
        Ok((s, v))
    }
}

/// the property whose operation `name` is
fn served(name: &str) -> &'static str {
    let sp = name.contains("blake2sp");
    let last = name.rsplit("::").next().unwrap_or(name);
    match last {
        "update8" | "finalize8" => "C06",
        "hash4_exact" | "hash8_exact" => "C07",
        "hash8" => "C08",
        "write" | "flush" => "C19",
        "clone" => "C21",
        "count" => "C18",
        "eq" => "C16",
        "fmt" => "C17",
        _ if name.contains("Hash::") => "C22",
        "update" | "finalize" | "hash" | "blake2s" if sp => "C10",
        "update" | "finalize" | "hash" => "C04",
        _ if sp => "C09",
        _ => "C03",
    }
}
