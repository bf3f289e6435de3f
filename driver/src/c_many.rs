//! Hashing several inputs at once.
use crate::c_b2s::*;
use crate::c_params::*;
use crate::checks::*;
use crate::interp::*;
use crate::mem::*;
use crate::spec::*;
use crate::term::*;

impl Ck {
    fn input_base(&mut self, i: usize) -> Arr {
        self.x.m.t.base(&format!("I{}", i), true)
    }
    /// a length that is a positive multiple of 64
    fn blocks_len(&mut self, st: &mut St, name: &str, max: i128) -> L {
        let w = self.ptr_sz();
        let n = (128 - (max as u128).leading_zeros()).min(w);
        let t = self.x.m.t.sym(name, n - 6);
        let z = self.x.m.t.k(6, 0);
        let t = self.x.m.t.concat(&[z, t]);
        let t = self.x.m.t.zext(t, w);
        let l = self.x.m.lift(st, t);
        let mut e = self.x.m.t.l(l).clone();
        e.c -= 64;
        st.store().add_ge(&e);
        l
    }
    /// the hashes in a returned array
    fn hashes(&mut self, s: &mut St, name: &str, v: &Rv, n: usize) -> Rs<Vec<Rv>> {
        let size = self.ret_size(name)?;
        if size % n as i128 != 0 {
            return unsup("size of the result");
        }
        let o = self.put(s, size, v);
        let e = size / n as i128;
        Ok((0..n).map(|i| self.sub(s, o, i as i128 * e, e)).collect())
    }
    fn exact_call(&mut self, st: &St, name: &str, p: &Rv, lens: &[L]) -> Rs<Vec<(St, Rv)>> {
        let mut st = st.clone();
        let mut args = vec![p.clone()];
        let z = self.lc(0);
        for (i, l) in lens.iter().enumerate() {
            let a = self.input_base(i);
            args.push(self.slice_arg(&mut st, a, z, *l));
        }
        self.total(&st, name, &args)
    }
    /// hash4_exact, hash8_exact
    pub fn exact(&mut self, n: usize, max: i128) -> Rs<()> {
        let name = &format!("hash{}_exact", n);
        let loc = self.loc_of(name);
        let st = self.x.new_st();
        let z = self.lc(0);
        self.cur = vec!["C07".into()];
        for (s, o, pv) in self.params_sym(&st, false)? {
            let p = self.ptr(&s, o);
            let mut s = s.clone();
            let l = self.blocks_len(&mut s, "L1", max);
            for (mut s, v) in self.exact_call(&s, name, &p, &vec![l; n])? {
                for (i, h) in self.hashes(&mut s, name, &v, n)?.into_iter().enumerate() {
                    let a = self.input_base(i);
                    let w = self.want_of(&mut s, &pv, a, z, l);
                    self.digest(&["C07"], &format!("{}: digest {}", name, i), &loc, &s, &h, &DigTree::One(w))?;
                }
            }
        }
        // anything else is refused
        self.cur = vec![];
        for (s, o) in self.make(&st, "Params::new", &[])? {
            let p = self.ptr(&s, o);
            let mut s = s.clone();
            let lens: Vec<L> = (0..n).map(|i| self.sym_l(&mut s, &format!("L{}", i), max)).collect();
            let n0 = self.x.ev.len();
            let r = self.exact_call(&s, name, &p, &lens)?;
            // panics are what is wanted here
            let evs = self.x.ev.split_off(n0);
            self.x.ev.extend(evs.into_iter().filter(|e| e.k != EvK::Panic));
            for (s, _) in r {
                self.refused(&format!("{} refuses inputs of different lengths", name), &loc, &s, &|ck, s| {
                    for i in 1..n {
                        if !ck.x.m.eq(s, lens[i], lens[0]) {
                            return false;
                        }
                    }
                    true
                }, &|ev| {
                    let mut d = false;
                    for l in &lens {
                        d |= ev.lin(*l)? != ev.lin(lens[0])?;
                    }
                    Some(d)
                });
                self.refused(&format!("{} refuses empty inputs", name), &loc, &s, &|ck, s| {
                    let m = ck.x.m.t.laddc(lens[0], -1);
                    let e = ck.x.m.t.l(m).clone();
                    let e = s.s.apply(&e);
                    s.s.ge(&e)
                }, &|ev| Some(ev.lin(lens[0])? == 0));
                self.refused(&format!("{} refuses lengths that are no multiple of 64", name), &loc, &s, &|ck, s| {
                    let e = ck.x.m.t.l(lens[0]).clone();
                    let e = s.s.apply(&e);
                    if e.c % 64 == 0 && e.v.iter().all(|x| x.1 % 64 == 0) {
                        return true;
                    }
                    let w = ck.ptr_sz();
                    let t = ck.x.m.t.mk_sum(w, e);
                    let lo = ck.x.m.t.slice(t, 0, 6);
                    let z = ck.x.m.t.k(6, 0);
                    ck.x.m.teq(s, lo, z)
                }, &|ev| Some(ev.lin(lens[0])? % 64 != 0));
            }
        }
        Ok(())
    }
    fn refused(&mut self, what: &str, loc: &str, s: &St, holds: &dyn Fn(&mut Ck, &mut St) -> bool, bad: &dyn Fn(&mut crate::kernel::Eval) -> Option<bool>) {
        let mut s2 = s.clone();
        if holds(self, &mut s2) {
            return self.okk(&["C13"], what);
        }
        match self.x.confirm(s, bad) {
            Some(w) => self.bad(&["C13"], what, "such inputs are hashed instead", loc, &w),
            None => self.unk(&["C13"], what, "a path with such inputs is not excluded"),
        }
    }
    /// parameters of a lane: everything but a key
    fn lane_params(&mut self, st: &St, tag: &str, last: &str) -> Rs<Vec<(St, ObjId, PV)>> {
        let mut out = vec![];
        for (s, o) in self.make(st, "Params::new", &[])? {
            let p = self.ptr(&s, o);
            let mut v = self.pv_default();
            let mut sts = vec![s];
            for w in 0..11 {
                if w == 1 {
                    continue;
                }
                let mut next = vec![];
                for mut s in sts {
                    let (name, a) = if w == 2 || w == 3 {
                        let arr = self.x.m.t.base(&format!("{}{}", if w == 2 { "salt" } else { "personal" }, tag), false);
                        let (z, len) = (self.lc(0), self.lc(8));
                        let segs = self.padded(&mut s, arr, len, 8);
                        let a = self.slice_arg(&mut s, arr, z, len);
                        if w == 2 {
                            v.salt = segs;
                            ("Params::salt", a)
                        } else {
                            v.personal = segs;
                            ("Params::personal", a)
                        }
                    } else {
                        self.setter(&mut s, w, if w == 10 { last } else { tag }, &mut v)
                    };
                    next.extend(self.set(s, &p, name, a)?);
                }
                sts = next;
            }
            for s in sts {
                out.push((s, o, v.clone()));
            }
        }
        Ok(out)
    }
    /// hash8: one lane of any length among seven others of any common length
    pub fn hash8(&mut self, max: i128, lanes: &[usize]) -> Rs<()> {
        let name = "hash8";
        let loc = self.loc_of(name);
        let st = self.x.new_st();
        let z = self.lc(0);
        self.cur = vec!["C08".into()];
        for &f in lanes {
            let mut pvs = vec![];
            let mut sts = vec![(st.clone(), vec![])];
            for i in 0..8 {
                let mut next = vec![];
                for (s, os) in sts {
                    let ps = if self.capped.is_some() && i != f {
                        // second attempt: one parameter set of any values among default ones
                        let pv = self.pv_default();
                        self.make(&s, "Params::new", &[])?.into_iter().map(|(s, o)| (s, o, pv.clone())).collect()
                    } else {
                        self.lane_params(&s, &format!("_{}", i), if i == f { "_own" } else { "_others" })?
                    };
                    for (s, o, v) in ps {
                        let mut os: Vec<ObjId> = os.clone();
                        os.push(o);
                        if pvs.len() == i {
                            pvs.push(v);
                        }
                        next.push((s, os));
                    }
                }
                sts = next;
            }
            for (s, os) in &sts {
                let mut s = s.clone();
                let lf = self.sym_l(&mut s, "L1", max);
                let lo = self.sym_l(&mut s, "L2", max);
                let mut args: Vec<Rv> = os.iter().map(|o| self.ptr(&s, *o)).collect();
                for i in 0..8 {
                    let a = self.input_base(i);
                    args.push(self.slice_arg(&mut s, a, z, if i == f { lf } else { lo }));
                }
                for (mut s, v) in self.total(&s, name, &args)? {
                    for (i, h) in self.hashes(&mut s, name, &v, 8)?.into_iter().enumerate() {
                        let a = self.input_base(i);
                        let w = self.want_of(&mut s, &pvs[i], a, z, if i == f { lf } else { lo });
                        let what = if i == f { format!("hash8: digest {}, any length among others", i) } else { format!("hash8: digest {} next to one of any length", i) };
                        self.digest(&["C08"], &what, &loc, &s, &h, &DigTree::One(w))?;
                    }
                }
            }
        }
        Ok(())
    }
    /// hash8 refuses keys
    pub fn hash8_keyed(&mut self) -> Rs<()> {
        let name = "hash8";
        let loc = self.loc_of(name);
        let st = self.x.new_st();
        let z = self.lc(0);
        for f in 0..8 {
            self.cur = vec!["C08".into()];
            let mut s = st.clone();
            let mut args = vec![];
            for i in 0..8 {
                let Some((mut s2, o)) = self.make(&s, "Params::new", &[])?.pop() else { return unsup("no parameters") };
                let p = self.ptr(&s2, o);
                if i == f {
                    let (a, _, len) = self.sym_slice(&mut s2, "key", true, 32);
                    let mut e = self.x.m.t.l(len).clone();
                    e.c -= 1;
                    s2.store().add_ge(&e);
                    let mut v = self.set(s2, &p, "Params::key", a)?;
                    s2 = match v.pop() {
                        Some(s) if v.is_empty() => s,
                        _ => return unsup("several outcomes of Params::key"),
                    };
                }
                s = s2;
                args.push(p);
            }
            let len = self.sym_l(&mut s, "L1", 1000);
            for i in 0..8 {
                let a = self.input_base(i);
                args.push(self.slice_arg(&mut s, a, z, len));
            }
            let n0 = self.x.ev.len();
            let r = self.call(&s, name, &args)?;
            let evs = self.x.ev.split_off(n0);
            self.x.ev.extend(evs.into_iter().filter(|e| e.k != EvK::Panic));
            let what = format!("hash8 refuses a key in parameter set {}", f);
            if r.is_empty() {
                self.okk(&["C08"], &what);
            }
            for (s, _) in r {
                match self.x.confirm(&s, &|_| Some(true)) {
                    Some(w) => self.bad(&["C08"], &what, "it is accepted", &loc, &w),
                    None => self.unk(&["C08"], &what, "a path with a key is not excluded"),
                }
            }
        }
        Ok(())
    }
    /// seven new states around one
    fn around(&mut self, h: &Hist, f: usize) -> Rs<(St, Vec<Rv>)> {
        let mut s = h.st.clone();
        let mut v = vec![];
        for i in 0..8 {
            if i == f {
                v.push(h.p.clone());
                continue;
            }
            let Some((s2, o)) = self.make(&s, "State::new", &[])?.pop() else { return unsup("no state") };
            v.push(self.ptr(&s2, o));
            s = s2;
        }
        Ok((s, v))
    }
    /// update8 on one state with any history and seven new ones
    pub fn update8(&mut self, max: i128, lanes: &[usize]) -> Rs<()> {
        let name = "update8";
        let z = self.lc(0);
        for (kind, h0) in self.starts()? {
            self.cur = vec!["C04".into()];
            let mut hs = vec![h0.clone()];
            hs.extend(self.feed(&h0, max)?);
            for &f in lanes {
                for h in &hs {
                    self.cur = vec!["C06".into()];
                    let (mut s, st8) = self.around(h, f)?;
                    let m = self.m();
                    let lf = self.sym_l(&mut s, "L7", max);
                    let lo = self.sym_l(&mut s, "L8", max);
                    let mut args = st8.clone();
                    for i in 0..8 {
                        let b = self.input_base(i);
                        args.push(if i == f { self.slice_arg(&mut s, m, h.len, lf) } else { self.slice_arg(&mut s, b, z, lo) });
                    }
                    let len = self.x.m.t.ladd(h.len, lf);
                    for (s, _) in self.total(&s, name, &args)? {
                        let h2 = Hist { st: s, len, n: h.n + 1, ..h.clone() };
                        let what = format!("state {} of update8 ({})", f, kind);
                        self.count(&["C06", "C18"], &format!("count of {}", what), &h2)?;
                        self.fin(&["C06"], &format!("digest of {}", what), &h2)?;
                    }
                }
            }
        }
        Ok(())
    }
    /// finalize8 on one state with any history and seven new ones
    pub fn finalize8(&mut self, max: i128, lanes: &[usize]) -> Rs<()> {
        let name = "finalize8";
        let loc = self.loc_of(name);
        let z = self.lc(0);
        let pv0 = self.pv_default();
        for (kind, h0) in self.starts()? {
            self.cur = vec!["C04".into()];
            let mut hs = vec![h0.clone()];
            hs.extend(self.feed(&h0, max)?);
            for &f in lanes {
                for h in &hs {
                    self.cur = vec!["C06".into()];
                    let (s, st8) = self.around(h, f)?;
                    let before = Hist { st: s.clone(), ..h.clone() };
                    for (mut s, v) in self.total(&s, name, &st8)? {
                        for (i, hp) in self.hashes(&mut s, name, &v, 8)?.into_iter().enumerate() {
                            let w = if i == f {
                                self.want_h(&mut s, h)
                            } else {
                                let b = self.input_base(i);
                                DigTree::One(self.want_of(&mut s, &pv0, b, z, z))
                            };
                            let what = if i == f { format!("digest {} of finalize8 ({})", i, kind) } else { format!("digest {} of finalize8, of a new state", i) };
                            self.digest(&["C06"], &what, &loc, &s, &hp, &w)?;
                        }
                        let after = Hist { st: s, ..h.clone() };
                        let mut same = true;
                        for p in &st8 {
                            let a = Hist { p: p.clone(), ..before.clone() };
                            let b = Hist { p: p.clone(), ..after.clone() };
                            same &= self.unchanged(&a, &b);
                        }
                        if same {
                            self.okk(&["C05", "C18"], &format!("finalize8 leaves all eight states as they were (state {}: {})", f, kind));
                            continue;
                        }
                        self.cur = vec!["C05".into()];
                        self.count(&["C18", "C05"], &format!("count after finalize8 (state {}: {})", f, kind), &after)?;
                        self.fin(&["C05"], &format!("finalization after finalize8 (state {}: {})", f, kind), &after)?;
                        for h in self.feed(&after, max)? {
                            self.fin(&["C05"], &format!("digest after update, finalize8, update (state {}: {})", f, kind), &h)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
