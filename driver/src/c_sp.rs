//! BLAKE2sp: parameters, histories, the tree.
use crate::c_b2s::*;
use crate::c_params::*;
use crate::checks::*;
use crate::interp::*;
use crate::mem::*;
use crate::spec::*;
use crate::term::*;

const NEW: &str = "blake2sp::Params::new";
const TO_STATE: &str = "blake2sp::Params::to_state";
const FIN: &str = "blake2sp::State::finalize";

impl Ck {
    /// the message of a tree hash: one compression of eight lanes moves 512 bytes on
    pub fn m_sp(&mut self) -> Arr {
        let a = self.x.m.t.base("S", true);
        self.x.kern.stride.insert(a, 512);
        a
    }
    /// parameters of a node, from those of the tree
    fn node(&mut self, v: &PV, leaf: Option<u64>) -> PV {
        let t = &mut self.x.m.t;
        PV {
            fanout: t.k(8, 8),
            depth: t.k(8, 2),
            leaf: t.k(32, 0),
            off: t.k(64, leaf.unwrap_or(0) as u128),
            ndepth: t.k(8, leaf.is_none() as u128),
            inner: t.k(64, 32),
            last: t.k(1, leaf.map_or(true, |i| i == 7) as u128),
            ..v.clone()
        }
    }
    pub fn sp_want(&mut self, st: &mut St, v: &PV, base: Arr, off: L, len: L) -> DigTree {
        let mut leaves = vec![];
        for i in 0..8 {
            let n = self.node(v, Some(i));
            let mut w = self.want_of(st, &n, base, off, len);
            w.stride = 512;
            w.row = i as i128;
            w.hash_len = self.lc(32);
            leaves.push(w);
        }
        let n = self.node(v, None);
        let root = self.pv_words(st, &n);
        let hash_len = self.x.m.lift(st, v.hl);
        DigTree::Tree { leaves, root, hash_len }
    }
    pub fn sp_set(&mut self, st: &mut St, which: usize, tag: &str, v: &mut PV) -> (String, Rv) {
        let (n, a) = self.setter(st, which, tag, v);
        (format!("blake2sp::{}", n), a)
    }
    /// hash length and key set to symbols
    pub fn sp_params_sym(&mut self, st: &St) -> Rs<Vec<(St, ObjId, PV)>> {
        let mut out = vec![];
        for (s, o) in self.make(st, NEW, &[])? {
            let p = self.ptr(&s, o);
            let mut v = self.pv_default();
            let mut sts = vec![s];
            for w in 0..2 {
                let mut next = vec![];
                for mut s in sts {
                    let (name, a) = self.sp_set(&mut s, w, "", &mut v);
                    next.extend(self.set(s, &p, &name, a)?);
                }
                sts = next;
            }
            for s in sts {
                for s in self.split_key(s, &v) {
                    out.push((s, o, v.clone()));
                }
            }
        }
        Ok(out)
    }
    fn sp_to_state(&mut self, s: &St, o: ObjId, pv: &PV, what: &str) -> Rs<Vec<(String, Hist)>> {
        let p = self.ptr(s, o);
        let len = self.lc(0);
        let mut out = vec![];
        for (s, o) in self.make(s, TO_STATE, &[p])? {
            let p = self.ptr(&s, o);
            out.push((what.to_string(), Hist { st: s, p, pv: pv.clone(), len, n: 0, sp: true }));
        }
        Ok(out)
    }
    pub fn sp_starts(&mut self) -> Rs<Vec<(String, Hist)>> {
        let mut out = vec![];
        let st = self.x.new_st();
        for (mut s, o, pv) in self.sp_params_sym(&st)? {
            let what = if self.key_block(&mut s, &pv).is_some() { "BLAKE2sp, keyed" } else { "BLAKE2sp, no key" };
            out.extend(self.sp_to_state(&s, o, &pv, what)?);
        }
        Ok(out)
    }
    pub fn sp_defaults(&mut self, max: i128) -> Rs<()> {
        let st = self.x.new_st();
        let len = self.lc(0);
        let pv = self.pv_default();
        let mut all = vec![];
        for name in ["blake2sp::State::new", "<blake2s_simd::blake2sp::State as std::default::Default>::default"] {
            for (s, o) in self.make(&st, name, &[])? {
                let p = self.ptr(&s, o);
                all.push((format!("state from {}", name), Hist { st: s, p, pv: pv.clone(), len, n: 0, sp: true }));
            }
        }
        for name in [NEW, "<blake2s_simd::blake2sp::Params as std::default::Default>::default"] {
            for (s, o) in self.make(&st, name, &[])? {
                all.extend(self.sp_to_state(&s, o, &pv, &format!("state from {}().to_state()", name))?);
            }
        }
        for (kind, h) in all {
            self.fin(&["C09"], &format!("digest of the empty input ({})", kind), &h)?;
            for h in self.feed(&h, max.min(70))? {
                self.fin(&["C09"], &format!("digest of a short input ({})", kind), &h)?;
            }
        }
        // one shot
        let mut s = self.x.new_st();
        let l = self.sym_l(&mut s, "L1", max);
        let m = self.m_sp();
        let a = self.slice_arg(&mut s, m, len, l);
        let loc = self.loc_of("blake2sp::blake2sp");
        for (mut s, hp) in self.finalize(&s, &a, "blake2sp::blake2sp")? {
            let w = self.sp_want(&mut s, &pv, m, len, l);
            self.digest(&["C09", "C10"], "one-shot blake2sp() of any input", &loc, &s, &hp, &w)?;
        }
        Ok(())
    }
    /// the digest of the empty input shows every parameter
    pub fn observe_sp(&mut self, props: &[&str], what: &str, st: &St, p: &Rv, pv: &PV) -> Rs<()> {
        for st in self.split_key(st.clone(), pv) {
            for (s, o) in self.make(&st, TO_STATE, &[p.clone()])? {
                let sp = self.ptr(&s, o);
                let loc = self.loc_of(TO_STATE);
                for (mut s, hp) in self.finalize(&s, &sp, FIN)? {
                    let m = self.m_sp();
                    let z = self.lc(0);
                    let w = self.sp_want(&mut s, pv, m, z, z);
                    self.digest(props, what, &loc, &s, &hp, &w)?;
                }
            }
        }
        Ok(())
    }
    pub fn sp_params(&mut self) -> Rs<()> {
        let st = self.x.new_st();
        for (s, o, v) in self.sp_params_sym(&st)? {
            let p = self.ptr(&s, o);
            self.observe_sp(&["C09", "C12"], "tree with any hash length and key", &s, &p, &v)?;
            for w in 0..2 {
                let (mut s, mut v) = (s.clone(), v.clone());
                let (name, a) = self.sp_set(&mut s, w, "_again", &mut v);
                for s in self.set(s, &p, &name, a)? {
                    self.observe_sp(&["C12"], &format!("{} called again changes that parameter only", name), &s, &p, &v)?;
                }
            }
        }
        for w in 0..2 {
            for (mut s, o) in self.make(&st, NEW, &[])? {
                let p = self.ptr(&s, o);
                let mut v = self.pv_default();
                let (name, a) = self.sp_set(&mut s, w, "", &mut v);
                for s in self.set(s, &p, &name, a)? {
                    self.observe_sp(&["C09", "C12"], &format!("{} alone", name), &s, &p, &v)?;
                }
            }
        }
        Ok(())
    }
}
