//! What formatting shows.
use crate::c_b2s::*;
use std::collections::HashMap;
use crate::c_params::*;
use crate::checks::*;
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::spec::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;

impl Ck {
    /// formatting functions of the crate with the type they are for
    fn fmt_fns(&mut self) -> Vec<(String, String, FnId)> {
        let mut out = vec![];
        for (n, v) in &self.fns {
            if !n.ends_with(">::fmt") || !n.starts_with('<') {
                continue;
            }
            let t = n[1..].split(" as ").next().unwrap_or("").to_string();
            out.push((n.clone(), t, v[0]));
        }
        out
    }
    fn one(&mut self, v: Rs<Vec<Hist>>) -> Rs<Hist> {
        match v?.pop() {
            Some(h) => Ok(h),
            None => unsup("no state"),
        }
    }
    /// values to be formatted
    fn fmt_subjects(&mut self, ty: &str) -> Rs<Vec<(St, Rv)>> {
        let st = self.x.new_st();
        let mut out = vec![];
        match ty {
            "blake2s_simd::State" => {
                for (_, h) in self.starts()? {
                    out.push((h.st.clone(), h.p.clone()));
                    for h in self.feed(&h, 1 << 40)? {
                        out.push((h.st.clone(), h.p.clone()));
                    }
                }
            }
            "blake2s_simd::Params" => {
                for (s, o, _) in self.params_sym(&st, false)? {
                    let p = self.ptr(&mut s.clone(), o);
                    out.push((s, p));
                }
            }
            "blake2s_simd::blake2sp::Params" | "blake2s_simd::blake2sp::State" => {
                for (s, o) in self.make(&st, "blake2sp::Params::new", &[])? {
                    let p = self.ptr(&mut s.clone(), o);
                    let mut s = s;
                    let mut v = self.pv_default();
                    let (_, a) = self.setter(&mut s, 0, "", &mut v);
                    for mut s in self.set(s, &p, "blake2sp::Params::hash_length", a)? {
                        let arr = self.x.m.t.base("key", true);
                        let (z, l) = (self.lc(0), self.lc(32));
                        let a = self.slice_arg(&mut s, arr, z, l);
                        for s in self.set(s, &p, "blake2sp::Params::key", a)? {
                            if ty.ends_with("Params") {
                                out.push((s, p.clone()));
                                continue;
                            }
                            for (mut s, o) in self.make(&s, "blake2sp::Params::to_state", &[p.clone()])? {
                                let sp = self.ptr(&mut s, o);
                                out.push((s.clone(), sp.clone()));
                                let m = self.m();
                                let l = self.lc(700);
                                let a = self.slice_arg(&mut s, m, z, l);
                                for (s, _) in self.total(&s, "blake2sp::State::update", &[sp.clone(), a])? {
                                    out.push((s, sp.clone()));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(out)
    }
    pub fn debug(&mut self) -> Rs<()> {
        let mut seen_hash = false;
        for (name, ty, f) in self.fmt_fns() {
            let loc = span_str(&Some(self.x.fns[f as usize].def.span()));
            if ty == "blake2s_simd::Hash" {
                self.debug_hash(&name, f, &loc)?;
                seen_hash = true;
                continue;
            }
            let subj = self.fmt_subjects(&ty)?;
            if subj.is_empty() {
                self.unk(&["C17"], &name, "no value of this type is built");
                continue;
            }
            for (s, p) in subj {
                self.x.fmt.clear();
                let mut s = s;
                let fo = self.x.formatter(&mut s);
                self.x.steps = 0;
                s.log.clear();
                let n0 = self.x.ev.len();
                let ends = self.x.call(s, f, vec![p, Rv::S(fo)])?;
                let calls = std::mem::take(&mut self.x.fmt);
                let ob = format!("what {} shows", name);
                let mut good = true;
                // which path is taken shows something as well
                let sec: Vec<Ev> = self.x.ev[n0..].iter().filter(|e| e.k == EvK::SecretBranch).cloned().collect();
                if !sec.is_empty() {
                    good = false;
                    match self.confirm_paths(&ends, &calls) {
                        Some(w) => {
                            let e = &sec[0];
                            self.bad(&["C17"], &ob, &format!("what is shown is decided by secret data: {}", e.msg), &e.loc, &w)
                        }
                        None => self.unk(&["C17"], &ob, &format!("{} at {}", sec[0].msg, sec[0].loc)),
                    }
                }
                for c in &calls {
                    if !self.x.segs_secret(&c.segs) {
                        if c.segs.iter().any(|s| matches!(s.k, K::Top)) {
                            good = false;
                            self.unk(&["C17"], &ob, &format!("a value passed to the formatter ({}) is not tracked", c.what));
                        }
                        continue;
                    }
                    good = false;
                    let segs = c.segs.clone();
                    let wit = self.confirm_shown(&c.st, &segs);
                    let fun = c.stack.iter().rev().find(|f| self.x.own.contains(*f)).cloned().unwrap_or_default();
                    match wit {
                        Some(w) => {
                            let m = format!("{} bytes depending on key, input or chaining value reach the formatter through {} in {}", self.seg_total(&segs), c.what, fun);
                            self.bad(&["C17"], &ob, &m, &loc, &w)
                        }
                        None => self.unk(&["C17"], &ob, "possibly secret data reaches the formatter"),
                    }
                }
                if good {
                    self.okk(&["C17"], &ob);
                }
            }
        }
        if !seen_hash {
            self.unk(&["C17"], "Debug of a hash", "no such implementation");
        }
        Ok(())
    }
    fn seg_total(&mut self, s: &[Seg]) -> String {
        match s.last() {
            Some(x) => self.x.m.t.show_lin(x.hi, 2),
            None => "0".into(),
        }
    }
    /// two runs that differ in secrets only take different paths and show different things
    fn confirm_paths(&mut self, ends: &[(St, Rv)], calls: &[crate::intrin::FmtCall]) -> Option<String> {
        let n = ends.len().min(24);
        for i in 0..n {
            for j in 0..n {
                if i == j || ends[i].0.imp || ends[j].0.imp || ends[i].0.log == ends[j].0.log {
                    continue;
                }
                let (a, b) = (&ends[i].0, &ends[j].0);
                if a.log.contains(&u32::MAX) || b.log.contains(&u32::MAX) {
                    continue;
                }
                let pb = self.x.points(b, 4);
                for (vals, over) in self.x.points(a, 4) {
                    let sa = match self.shown(a, &vals, &over, calls) {
                        Some(s) => s,
                        None => continue,
                    };
                    for (_, ob) in &pb {
                        if self.x.usable_at(b, &vals, ob, 5, 0).is_none() {
                            continue;
                        }
                        if self.shown(b, &vals, ob, calls).map_or(false, |sb| sa != sb) {
                            return Some(format!("{} and message/key bytes that differ", self.x.show_point(&vals)));
                        }
                    }
                }
            }
        }
        None
    }
    fn shown(&mut self, st: &St, vals: &HashMap<T, i128>, over: &HashMap<(Arr, i128), u8>, calls: &[crate::intrin::FmtCall]) -> Option<Vec<u8>> {
        let mut ev = Eval::new(&self.x.m.t, vals.clone(), 5);
        ev.over = over.clone();
        let mut out = vec![];
        for &i in &st.log {
            let c = &calls[i as usize];
            let n = match c.segs.last() {
                Some(s) => ev.lin(s.hi)?,
                None => 0,
            };
            if n > 4096 {
                return None;
            }
            out.extend(X::eval_segs(&mut ev, &c.segs, n as usize)?);
        }
        if ev.lost {
            return None;
        }
        Some(out)
    }
    /// the bytes differ between two runs that differ in secrets only
    fn confirm_shown(&mut self, st: &St, segs: &[Seg]) -> Option<String> {
        if st.imp {
            return None;
        }
        for (vals, over) in self.x.points(st, 6) {
            let mut first: Option<Vec<u8>> = None;
            let ts: Vec<T> = segs
                .iter()
                .filter_map(|s| match s.k {
                    K::Cell(Val::I(t)) | K::Fill(t) => Some(t),
                    _ => None,
                })
                .collect();
            for (over, ss) in self.x.secrets(st, &ts, &vals, &over, 24) {
                let mut ev = Eval::new(&self.x.m.t, vals.clone(), 5);
                ev.over = over.clone();
                ev.ssalt = ss;
                let n = match segs.last().and_then(|s| ev.lin(s.hi)) {
                    Some(n) if n < 4096 => n as usize,
                    _ => break,
                };
                let b = match X::eval_segs(&mut ev, segs, n) {
                    Some(b) if !ev.lost => b,
                    _ => break,
                };
                match &first {
                    None => first = Some(b),
                    Some(x) if *x == b => {}
                    _ => return Some(format!("{} and message/key bytes that differ", self.x.show_point(&vals))),
                }
            }
        }
        None
    }
    fn debug_hash(&mut self, name: &str, f: FnId, loc: &str) -> Rs<()> {
        let st = self.x.new_st();
        for n in 1..=32 {
            let (mut s, h, want) = self.a_hash(&st, n, "M")?;
            self.x.fmt.clear();
            let fo = self.x.formatter(&mut s);
            self.x.call(s.clone(), f, vec![h, Rv::S(fo)])?;
            let calls = std::mem::take(&mut self.x.fmt);
            let ob = format!("{} shows the hexadecimal digest", name);
            let mut w = vec![];
            for b in &want {
                w.extend(self.hex_of(*b));
            }
            let mut shown: Vec<T> = vec![];
            let mut at = s;
            let mut odd = false;
            for c in &calls {
                if !self.x.segs_secret(&c.segs) {
                    continue;
                }
                let hi = match c.segs.last().and_then(|s| self.x.m.t.lconst(s.hi)) {
                    Some(n) => n,
                    None => {
                        odd = true;
                        continue;
                    }
                };
                let size = self.lc(hi);
                let mut s2 = c.st.clone();
                let o = s2.new_root(Obj { size, segs: c.segs.clone(), al: 0 });
                let z = self.lc(0);
                if c.what.contains("hex") || c.what.contains("(opts)") || !(c.what.contains("display") || c.what.contains("str")) {
                    odd = true;
                }
                for i in 0..hi {
                    let q = self.lc(i);
                    match self.x.m.read_scalar(&s2, o, q, 1, z, size)? {
                        Val::I(t) => shown.push(t),
                        _ => odd = true,
                    }
                }
                at = s2;
            }
            if odd || shown.is_empty() {
                self.unk(&["C17"], &ob, "shown in a form that is not recognised");
            } else {
                self.same_bytes(&["C17", "C22"], &ob, loc, &mut at, &shown, &w);
            }
        }
        Ok(())
    }
}
