//! BLAKE2s histories.
use crate::c_params::*;
use crate::checks::*;
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::report::*;
use crate::spec::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, HashMap, HashSet};

/// a history of a state: chunks fed so far
#[derive(Clone)]
pub struct Hist {
    pub st: St,
    pub p: Rv,
    pub pv: PV,
    pub len: L,
    pub n: usize,
    /// BLAKE2sp
    pub sp: bool,
}
impl Hist {
    pub fn name(&self, m: &str) -> String {
        if self.sp {
            format!("blake2sp::State::{}", m)
        } else {
            format!("State::{}", m)
        }
    }
    /// the property that a digest is the specified function of the input
    pub fn dig(&self) -> &'static str {
        if self.sp {
            "C10"
        } else {
            "C04"
        }
    }
    pub fn par(&self) -> &'static str {
        if self.sp {
            "C09"
        } else {
            "C03"
        }
    }
}

impl Ck {
    pub fn m(&mut self) -> Arr {
        self.x.m.t.base("M", true)
    }
    pub fn msg(&mut self, sp: bool) -> Arr {
        if sp {
            self.m_sp()
        } else {
            self.m()
        }
    }
    /// one more update
    pub fn feed(&mut self, h: &Hist, max: i128) -> Rs<Vec<Hist>> {
        let name = &h.name("update");
        let mut st = h.st.clone();
        let m = self.msg(h.sp);
        let l = self.sym_l(&mut st, &format!("L{}", h.n + 1), max);
        let a = self.slice_arg(&mut st, m, h.len, l);
        let len = self.x.m.t.ladd(h.len, l);
        let mut out = vec![];
        for (s, _) in self.total(&st, name, &[h.p.clone(), a])? {
            out.push(Hist { st: s, len, n: h.n + 1, ..h.clone() });
        }
        Ok(out)
    }
    /// finalize and compare; the state afterwards
    pub fn fin(&mut self, props: &[&str], what: &str, h: &Hist) -> Rs<Vec<Hist>> {
        let name = &h.name("finalize");
        let loc = self.loc_of(name);
        let mut out = vec![];
        let cur = std::mem::replace(&mut self.cur, props.iter().map(|p| p.to_string()).collect());
        let r = self.finalize(&h.st, &h.p, name);
        self.cur = cur;
        for (mut s, hp) in r? {
            let w = self.want_h(&mut s, h);
            self.digest(props, what, &loc, &s, &hp, &w)?;
            out.push(Hist { st: s, ..h.clone() });
        }
        Ok(out)
    }
    /// the digest of everything fed so far
    pub fn want_h(&mut self, s: &mut St, h: &Hist) -> DigTree {
        let m = self.msg(h.sp);
        let z = self.lc(0);
        if h.sp {
            self.sp_want(s, &h.pv, m, z, h.len)
        } else {
            DigTree::One(self.want_of(s, &h.pv, m, z, h.len))
        }
    }
    pub fn count(&mut self, props: &[&str], what: &str, h: &Hist) -> Rs<Vec<Hist>> {
        let name = &h.name("count");
        let loc = self.loc_of(name);
        let mut out = vec![];
        let cur = std::mem::replace(&mut self.cur, props.iter().map(|p| p.to_string()).collect());
        let r = self.total(&h.st, name, &[h.p.clone()]);
        self.cur = cur;
        for (mut s, v) in r? {
            self.num(props, what, &loc, &mut s, &v, h.len, 8);
            out.push(Hist { st: s, ..h.clone() });
        }
        Ok(out)
    }
    /// every way to a new state
    pub fn starts(&mut self) -> Rs<Vec<(String, Hist)>> {
        let mut out = self.default_starts()?;
        out.truncate(1);
        let st = self.x.new_st();
        let z = self.lc(0);
        for (s, o, pv) in self.params_sym(&st, false)? {
            let p = self.ptr(&mut s.clone(), o);
            for (mut s, o) in self.make(&s, "Params::to_state", &[p])? {
                let p = self.ptr(&mut s, o);
                let what = if self.key_block(&mut s, &pv).is_some() { "any parameters, keyed" } else { "any parameters, no key" };
                out.push((what.to_string(), Hist { st: s, p, pv: pv.clone(), len: z, n: 0, sp: false }));
            }
        }
        Ok(out)
    }
    pub fn default_starts(&mut self) -> Rs<Vec<(String, Hist)>> {
        let st = self.x.new_st();
        let z = self.lc(0);
        let mut out = vec![];
        for name in ["State::new", "<blake2s_simd::State as std::default::Default>::default"] {
            for (mut s, o) in self.make(&st, name, &[])? {
                let p = self.ptr(&mut s, o);
                let pv = self.pv_default();
                out.push((if out.is_empty() { "default parameters".to_string() } else { format!("state from {}", name) }, Hist { st: s, p, pv, len: z, n: 0, sp: false }));
            }
        }
        for name in ["Params::new", "<blake2s_simd::Params as std::default::Default>::default"] {
            for (mut s, o) in self.make(&st, name, &[])? {
                let p = self.ptr(&mut s, o);
                let what = format!("state from {}().to_state()", name);
                out.extend(self.to_state(&s, &p, &what)?);
                // a copy of the parameters
                for (mut s, o) in self.make(&s, "<blake2s_simd::Params as std::clone::Clone>::clone", &[p.clone()])? {
                    let p = self.ptr(&mut s, o);
                    let what = format!("state from {}().clone().to_state()", name);
                    out.extend(self.to_state(&s, &p, &what)?);
                }
            }
        }
        Ok(out)
    }
    fn to_state(&mut self, s: &St, p: &Rv, what: &str) -> Rs<Vec<(String, Hist)>> {
        let z = self.lc(0);
        let mut out = vec![];
        for (mut s, o) in self.make(s, "Params::to_state", &[p.clone()])? {
            let p = self.ptr(&mut s, o);
            let pv = self.pv_default();
            out.push((what.to_string(), Hist { st: s, p, pv, len: z, n: 0, sp: false }));
        }
        Ok(out)
    }
    /// all default forms agree
    pub fn b2s_defaults(&mut self, max: i128) -> Rs<()> {
        for (kind, h) in self.default_starts()? {
            self.fin(&["C03"], &format!("digest of the empty input ({})", kind), &h)?;
            for h in self.feed(&h, max.min(70))? {
                self.fin(&["C03"], &format!("digest of a short input ({})", kind), &h)?;
            }
        }
        // one shot
        let mut st = self.x.new_st();
        let l = self.sym_l(&mut st, "L1", max);
        let z = self.lc(0);
        let m = self.m();
        let a = self.slice_arg(&mut st, m, z, l);
        let loc = self.loc_of("blake2s");
        for (mut s, hp) in self.finalize(&st, &a, "blake2s")? {
            let pv = self.pv_default();
            let w = self.want_of(&mut s, &pv, m, z, l);
            self.digest(&["C03", "C04"], "one-shot blake2s() of any input", &loc, &s, &hp, &DigTree::One(w))?;
        }
        Ok(())
    }
    pub fn set_last(&mut self, h: &Hist, name: &str) -> Rs<Vec<Hist>> {
        let t = self.x.m.t.sym(name, 1);
        let v = self.x.bool_val(t);
        let mut out = vec![];
        for (s, _) in self.total(&h.st, "State::set_last_node", &[h.p.clone(), Rv::S(v)])? {
            let mut h = Hist { st: s, ..h.clone() };
            h.pv.last = t;
            out.push(h);
        }
        Ok(out)
    }
    /// the last-node flag can be set and cleared at any time
    pub fn b2s_last_node(&mut self, max: i128) -> Rs<()> {
        for (kind, h0) in self.starts()? {
            for h in self.set_last(&h0, "last_a")? {
                self.fin(&["C04"], &format!("last node set before any input ({})", kind), &h)?;
                for h in self.feed(&h, max)? {
                    self.fin(&["C04"], &format!("last node set before the input ({})", kind), &h)?;
                    for h in self.set_last(&h, "last_b")? {
                        for h in self.fin(&["C04"], &format!("last node changed after the input ({})", kind), &h)? {
                            self.fin(&["C05"], &format!("last node kept by finalization ({})", kind), &h)?;
                            for h in self.set_last(&h, "last_c")? {
                                self.fin(&["C04", "C05"], &format!("last node changed after a finalization ({})", kind), &h)?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// clones of states go on by themselves
    pub fn clones(&mut self, sp: bool, max: i128) -> Rs<()> {
        let ty = if sp { "blake2sp::State" } else { "State" };
        let cl = &format!("<blake2s_simd::{} as std::clone::Clone>::clone", ty);
        let from = &format!("<blake2s_simd::{} as std::clone::Clone>::clone_from", ty);
        if self.f(cl).is_err() {
            self.rep.notes.insert(format!("{} clones", ty), "the type has no Clone".into());
            return Ok(());
        }
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        for (kind, h0) in starts {
            for h1 in self.feed(&h0, max)? {
                for (mut s, o) in self.make(&h1.st, cl, &[h1.p.clone()])? {
                    let p = self.ptr(&mut s, o);
                    let orig = Hist { st: s.clone(), ..h1.clone() };
                    let copy = Hist { st: s, p, ..h1.clone() };
                    // one of the two moves on; the other stays
                    let m2 = self.x.m.t.base("M2", true);
                    if sp {
                        self.x.kern.stride.insert(m2, 512);
                    }
                    let mut st = copy.st.clone();
                    let l = self.sym_l(&mut st, "L9", max.min(70));
                    let z = self.lc(0);
                    let a = self.slice_arg(&mut st, m2, z, l);
                    let up = h1.name("update");
                    for (s, _) in self.total(&st, &up, &[copy.p.clone(), a.clone()])? {
                        let o = Hist { st: s, ..orig.clone() };
                        for o in self.fin(&["C21"], &format!("original after its clone was updated ({})", kind), &o)? {
                            self.count(&["C21"], &format!("count of the original ({})", kind), &o)?;
                        }
                    }
                    for (s, _) in self.total(&st, &up, &[orig.p.clone(), a.clone()])? {
                        let c = Hist { st: s, ..copy.clone() };
                        self.count(&["C21"], &format!("count of a clone ({})", kind), &c)?;
                        for c in self.feed(&c, max.min(70))? {
                            self.fin(&["C21"], &format!("clone continued, after its original was updated ({})", kind), &c)?;
                        }
                    }
                }
                // clone_from, where it is not the default
                if self.f(from).is_ok() {
                    let fresh = if sp { self.make(&h1.st, "blake2sp::State::new", &[])? } else { self.make(&h1.st, "State::new", &[])? };
                    for (mut s, o) in fresh {
                        let p = self.ptr(&mut s, o);
                        let m2 = self.x.m.t.base("M2", true);
                        if sp {
                            self.x.kern.stride.insert(m2, 512);
                        }
                        let l = self.sym_l(&mut s, "L9", max.min(70));
                        let z = self.lc(0);
                        let a = self.slice_arg(&mut s, m2, z, l);
                        for (s, _) in self.total(&s, &h1.name("update"), &[p.clone(), a])? {
                            for (s, _) in self.total(&s, from, &[p.clone(), h1.p.clone()])? {
                                let c = Hist { st: s, p: p.clone(), ..h1.clone() };
                                self.count(&["C21"], &format!("count after clone_from ({})", kind), &c)?;
                                for c in self.feed(&c, max.min(70))? {
                                    self.fin(&["C21"], &format!("state overwritten by clone_from and continued ({})", kind), &c)?;
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// clones of parameters and of hashes
    pub fn value_clones(&mut self) -> Rs<()> {
        let st = self.x.new_st();
        for sp in [false, true] {
            let ty = if sp { "blake2sp::Params" } else { "Params" };
            let cl = &format!("<blake2s_simd::{} as std::clone::Clone>::clone", ty);
            let from = &format!("<blake2s_simd::{} as std::clone::Clone>::clone_from", ty);
            if self.f(cl).is_err() {
                self.rep.notes.insert(format!("{} clones", ty), "the type has no Clone".into());
                continue;
            }
            let subj = if sp { self.sp_params_sym(&st)? } else { self.params_sym(&st, false)? };
            for (s, o, v) in subj {
                let mut s = s;
                let p = self.ptr(&mut s, o);
                let obs = |c: &mut Ck, what: &str, s: &St, p: &Rv, v: &PV| {
                    let what = format!("{} ({})", what, ty);
                    if sp {
                        c.observe_sp(&["C21"], &what, s, p, v)
                    } else {
                        c.observe(&["C21"], &what, s, p, v)
                    }
                };
                let mut copies = self.make(&s, cl, &[p.clone()])?;
                if self.f(from).is_ok() {
                    for (mut s, o) in self.make(&s, &format!("{}::new", ty), &[])? {
                        let q = self.ptr(&mut s, o);
                        for (s, _) in self.total(&s, from, &[q.clone(), p.clone()])? {
                            copies.push((s, o));
                        }
                    }
                }
                for (mut s, o) in copies {
                    let q = self.ptr(&mut s, o);
                    obs(self, "copy of parameters", &s, &q, &v)?;
                    for (a, b, what) in [(&p, &q, "copy of parameters that were changed"), (&q, &p, "parameters whose copy was changed")] {
                        for w in [0, 1] {
                            let (mut s, mut v2) = (s.clone(), v.clone());
                            let (name, arg) = if sp {
                                self.sp_set(&mut s, w, "_copy", &mut v2)
                            } else {
                                let (n, a) = self.setter(&mut s, w, "_copy", &mut v2);
                                (n.to_string(), a)
                            };
                            for s in self.set(s, a, &name, arg)? {
                                obs(self, what, &s, b, &v)?;
                                obs(self, "parameters changed after they were copied", &s, a, &v2)?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// the value of an io::Result<usize> or io::Result<()>
    pub fn io_ok(&mut self, props: &[&str], what: &str, fname: &str, st: &mut St, v: &Rv, val: Option<L>) -> Rs<()> {
        let f = self.f(fname)?;
        let ty = match self.x.ret_ty(f) {
            Some(t) => t,
            None => return unsup("return type"),
        };
        let n = self.x.size(ty);
        let o = self.put(st, n, v);
        let (z, hi) = (self.lc(0), self.lc(n));
        let pl = self.x.place_at(o, z, hi, ty);
        let d = self.x.discriminant(st, &pl, 64)?;
        let loc = self.loc_of(fname);
        match d {
            Val::I(t) => match self.x.m.t.as_const(t) {
                Some(0) => self.okk(props, &format!("{} succeeds", what)),
                Some(_) => {
                    match self.x.confirm(st, &|_| Some(true)) {
                        Some(p) => self.bad(props, &format!("{} succeeds", what), "an error is returned", &loc, &p),
                        None => self.unk(props, &format!("{} succeeds", what), "no concrete input found"),
                    }
                    return Ok(());
                }
                None => {
                    self.unk(props, &format!("{} succeeds", what), "undecided");
                    return Ok(());
                }
            },
            _ => {
                self.unk(props, &format!("{} succeeds", what), "result not tracked");
                return Ok(());
            }
        }
        if let Some(l) = val {
            let mut pv = pl.clone();
            pv.variant = Some(0);
            let us = Ty::usize_ty();
            let q = self.x.field(pv, 0, us);
            let r = self.x.read_place(st, &q)?;
            let n = self.x.m.ptr;
            self.num(props, &format!("{} reports the whole length", what), &loc, st, &r, l, n);
        }
        Ok(())
    }
    pub fn writes(&mut self, sp: bool, max: i128, part: Option<(usize, usize)>) -> Rs<()> {
        let ty = if sp { "blake2sp::State" } else { "State" };
        let wr = &format!("<blake2s_simd::{} as std::io::Write>::write", ty);
        let fl = &format!("<blake2s_simd::{} as std::io::Write>::flush", ty);
        if self.f(wr).is_err() {
            self.rep.notes.insert("io::Write".into(), "not in this configuration".into());
            return Ok(());
        }
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        let starts = Self::part(starts, part);
        for (kind, h0) in starts {
            for h1 in self.feed(&h0, max)? {
                let mut st = h1.st.clone();
                let m = self.msg(sp);
                let l = self.sym_l(&mut st, "L2", max);
                let a = self.slice_arg(&mut st, m, h1.len, l);
                let len = self.x.m.t.ladd(h1.len, l);
                let up = self.total(&st, &h1.name("update"), &[h1.p.clone(), a.clone()])?;
                for (mut s, v) in self.total(&st, wr, &[h1.p.clone(), a])? {
                    self.io_ok(&["C19"], &format!("{}::write", ty), wr, &mut s, &v, Some(l))?;
                    let h2 = Hist { st: s, len, n: 2, ..h1.clone() };
                    let mut same = false;
                    for (u, _) in &up {
                        let hu = Hist { st: u.clone(), ..h2.clone() };
                        same |= *u.s == *h2.st.s && self.unchanged(&hu, &h2);
                    }
                    if same {
                        self.okk(&["C19"], &format!("write leaves the state that update leaves ({})", kind));
                    } else {
                        self.count(&["C19"], &format!("count after a write ({})", kind), &h2)?;
                        self.fin(&["C19"], &format!("digest after update and write ({})", kind), &h2)?;
                    }
                    for (mut s, v) in self.total(&h2.st, fl, &[h2.p.clone()])? {
                        self.io_ok(&["C19"], &format!("{}::flush", ty), fl, &mut s, &v, None)?;
                        let h3 = Hist { st: s, ..h2.clone() };
                        if self.unchanged(&h2, &h3) {
                            self.okk(&["C19"], &format!("flush leaves the state as it was ({})", kind));
                            continue;
                        }
                        self.count(&["C19"], &format!("count after write and flush ({})", kind), &h3)?;
                        self.fin(&["C19"], &format!("digest after update, write, flush ({})", kind), &h3)?;
                    }
                }
            }
        }
        Ok(())
    }
    /// this process's share
    pub fn part<A>(v: Vec<A>, p: Option<(usize, usize)>) -> Vec<A> {
        match p {
            None => v,
            Some((i, n)) => v.into_iter().enumerate().filter(|(k, _)| k % n == i).map(|x| x.1).collect(),
        }
    }
    /// every byte of the state is what it was before
    pub fn unchanged(&mut self, a: &Hist, b: &Hist) -> bool {
        let Rv::S(Val::P(p)) = a.p else { return false };
        let x = self.x.m.obj(&a.st, p.o).segs.clone();
        let y = self.x.m.obj(&b.st, p.o).segs.clone();
        if x.iter().chain(&y).any(|s| matches!(s.k, K::Top)) {
            return false;
        }
        let mut st = b.st.clone();
        x == y || self.x.m.segs_eq(&mut st, &x, &y)
    }
    /// three updates, with a finalization before the last one
    pub fn three(&mut self, sp: bool, max: i128, part: Option<(usize, usize)>) -> Rs<()> {
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        for (kind, h0) in Self::part(starts, part) {
            let dig = h0.dig();
            for h1 in self.feed(&h0, max)? {
                for h2 in self.feed(&h1, max)? {
                    for h3 in self.feed(&h2, max)? {
                        self.count(&["C18"], &format!("count after three updates ({})", kind), &h3)?;
                        self.fin(&[dig], &format!("digest after three updates ({})", kind), &h3)?;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn histories(&mut self, sp: bool, max: i128, part: Option<(usize, usize)>) -> Rs<()> {
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        let starts = Self::part(starts, part);
        for (kind, h0) in starts {
            if std::env::var("BSA_DUMP").is_ok() {
                if let Rv::S(Val::P(p)) = h0.p {
                    eprintln!("{} {}", kind, self.show_st(&h0.st, p.o));
                }
            }
            let (dig, par) = (h0.dig(), h0.par());
            self.count(&["C18"], &format!("count of a new state ({})", kind), &h0)?;
            self.fin(&[par, dig], &format!("digest of the empty input ({})", kind), &h0)?;
            for h1 in self.feed(&h0, max)? {
                self.count(&["C18"], &format!("count after one update ({})", kind), &h1)?;
                for h in self.fin(&[dig, par], &format!("digest after one update ({})", kind), &h1)? {
                    if self.unchanged(&h1, &h) {
                        // so every later result is what it would have been
                        self.okk(&["C05", "C18"], &format!("finalization leaves the state as it was ({})", kind));
                        continue;
                    }
                    self.count(&["C18", "C05"], &format!("count after finalization ({})", kind), &h)?;
                    self.fin(&["C05"], &format!("second finalization ({})", kind), &h)?;
                    for h in self.feed(&h, max)? {
                        self.fin(&["C05"], &format!("digest after update, finalize, update ({})", kind), &h)?;
                    }
                }
                for h2 in self.feed(&h1, max)? {
                    self.count(&["C18"], &format!("count after two updates ({})", kind), &h2)?;
                    self.fin(&[dig], &format!("digest after two updates ({})", kind), &h2)?;
                }
            }
        }
        Ok(())
    }
}
