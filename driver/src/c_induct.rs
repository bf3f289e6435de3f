//! Histories of any length: the state after any sequence of updates and finalizations is the state
//! after one update with everything fed so far, up to bytes that are never looked at again.
use crate::c_b2s::*;
use crate::checks::*;
use crate::interp::*;
use crate::mem::*;
use crate::num::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// the state after one update with N bytes, on one of its paths
struct Form {
    h: Hist,
    /// segments that need not be as they are
    free: HashSet<usize>,
    /// the path condition is weaker than that of one update
    relaxed: bool,
}
#[derive(Default)]
struct Renamed {
    segs: Vec<Seg>,
    eqs: Vec<Lin>,
    cons: Vec<Lin>,
    /// path variables
    fresh: HashSet<T>,
    /// terms over them
    defs: Vec<T>,
}

impl Ck {
    fn state_obj(&self, h: &Hist) -> Option<(ObjId, Obj)> {
        let Rv::S(Val::P(p)) = h.p else { return None };
        Some((p.o, (*self.x.m.obj(&h.st, p.o)).clone()))
    }
    /// the same history from a state whose free bytes are anything
    fn widened(&self, f: &Form) -> Hist {
        let mut h = f.h.clone();
        if let Some((o, mut ob)) = self.state_obj(&h) {
            for i in &f.free {
                ob.segs[*i].k = K::Top;
            }
            h.st.set_obj(o, ob);
        }
        h
    }
    /// `d` is 0 if it is less than 1 in absolute value
    fn int_eq(&mut self, st: &mut St, d: L) -> bool {
        const S: i128 = 1 << 20;
        let mut up = lin_mul(self.x.m.t.l(d), S);
        up.c += S - 1;
        let mut dn = lin_mul(self.x.m.t.l(d), -S);
        dn.c += S - 1;
        if st.s.ge(&up) && st.s.ge(&dn) {
            let l = self.x.m.t.l(d).clone();
            st.store().add_eq(&l);
            return true;
        }
        false
    }
    /// the form for `n2` bytes instead of `n`, with path variables of its own
    fn renamed(&mut self, f: &Form, h0: &Hist, n: T, n2: L) -> Option<Renamed> {
        let mut out = Renamed::default();
        let (_, ob) = self.state_obj(&f.h)?;
        let mut keep: HashSet<T> = h0.st.s.dims.iter().copied().collect();
        for l in h0.st.s.cons.iter().chain(h0.st.s.sub.values()) {
            keep.extend(l.v.iter().map(|q| q.0));
        }
        keep.extend(h0.st.s.sub.keys());
        let s = f.h.st.s.clone();
        let mut dims: Vec<T> = s.dims.iter().copied().chain(s.sub.keys().copied()).collect();
        for l in s.cons.iter().chain(s.sub.values()) {
            dims.extend(l.v.iter().map(|q| q.0));
        }
        dims.sort();
        dims.dedup();
        dims.retain(|d| !keep.contains(d));
        let mut atoms: HashMap<A, T> = HashMap::new();
        let mut map: BTreeMap<T, Lin> = BTreeMap::new();
        let w = self.x.m.t.w(n);
        let e = self.x.m.t.l(n2).clone();
        let nt = self.x.m.t.mk_sum(w, e.clone());
        atoms.insert(self.x.m.t.as_atom(n)?, nt);
        map.insert(n, e);
        for d in dims.iter().filter(|d| **d != n) {
            if let Some(a) = self.x.m.t.as_atom(*d) {
                if matches!(self.x.m.t.atoms[a as usize], Atom::Sym { .. } | Atom::Unk { .. }) {
                    let w = self.x.m.t.w(*d);
                    self.x.kdims += 1;
                    let k = self.x.kdims;
                    let v = self.x.m.t.sym(&format!("k{}", k), w);
                    atoms.insert(a, v);
                    map.insert(*d, Lin { v: vec![(v, 1)], c: 0 });
                    out.fresh.insert(v);
                }
            }
        }
        let mut memo = HashMap::new();
        let at = atoms.clone();
        for d in dims.iter() {
            if map.contains_key(d) {
                continue;
            }
            let m2 = map.clone();
            let at = at.clone();
            let mut fa = move |_: &mut Terms, a: A| at.get(&a).copied();
            let mut fl = move |tm: &mut Terms, l: L| sub_lin(tm, l, &m2);
            let v = self.x.m.t.rebuild(*d, &mut HashMap::new(), &mut fa, &mut fl);
            map.insert(*d, Lin { v: vec![(v, 1)], c: 0 });
            out.defs.push(v);
        }
        let m2 = map.clone();
        let mut fa = move |_: &mut Terms, a: A| at.get(&a).copied();
        let mut fl = move |tm: &mut Terms, l: L| sub_lin(tm, l, &m2);
        for (t, l) in s.sub.iter() {
            if keep.contains(t) && l.v.iter().all(|q| keep.contains(&q.0)) {
                continue;
            }
            let l = self.x.m.t.lin(l.clone());
            let l = fl(&mut self.x.m.t, l);
            let l = self.x.m.t.l(l).clone();
            let v = match map.get(t) {
                Some(e) => e.clone(),
                None => Lin { v: vec![(*t, 1)], c: 0 },
            };
            out.eqs.push(lin_add(&v, &l, -1));
        }
        for l in &s.cons {
            let l = self.x.m.t.lin(l.clone());
            let l = fl(&mut self.x.m.t, l);
            out.cons.push(self.x.m.t.l(l).clone());
        }
        let t = &mut self.x.m.t;
        let mut segs = vec![];
        for s in &ob.segs {
            let k = match s.k {
                K::Cell(Val::I(v)) => K::Cell(Val::I(t.rebuild(v, &mut memo, &mut fa, &mut fl))),
                K::Cell(Val::P(p)) => {
                    let off = p.off.map(|o| fl(t, o));
                    let (lo, hi) = (fl(t, p.lo), fl(t, p.hi));
                    K::Cell(Val::P(Ptr { o: p.o, off, lo, hi }))
                }
                K::Src(a, d) => {
                    let a = t.rebuild_arr(a, &mut memo, &mut fa, &mut fl);
                    K::Src(a, fl(t, d))
                }
                K::Fill(v) => K::Fill(t.rebuild(v, &mut memo, &mut fa, &mut fl)),
                k => k,
            };
            segs.push(Seg { lo: fl(t, s.lo), hi: fl(t, s.hi), k });
        }
        for i in &f.free {
            segs[*i].k = K::Top;
        }
        out.segs = segs;
        Some(out)
    }
    /// the cells that are numbers of blocks of the same chain
    fn block_counts(&self, want: &[Seg], got: &[Seg]) -> Vec<(L, L)> {
        let mut out = vec![];
        for s in want {
            let K::Cell(Val::I(a)) = s.k else { continue };
            let Some(t) = got.iter().find(|t| t.lo == s.lo && t.hi == s.hi) else { continue };
            let K::Cell(Val::I(b)) = t.k else { continue };
            if a == b {
                continue;
            }
            let (mut u, mut v) = (vec![], vec![]);
            self.x.m.t.atoms_of(a, &mut u);
            self.x.m.t.atoms_of(b, &mut v);
            u.dedup();
            v.dedup();
            if let ([p], [q]) = (&u[..], &v[..]) {
                let (p, q) = (*p, *q);
                let (p, q) = (self.x.m.t.atoms[p as usize].clone(), self.x.m.t.atoms[q as usize].clone());
                if let (Atom::Chain { s: s1, n: n1, .. }, Atom::Chain { s: s2, n: n2, .. }) = (p, q) {
                    if s1 == s2 && n1 != n2 && !out.contains(&(n1, n2)) {
                        out.push((n1, n2));
                    }
                }
            }
        }
        out
    }
    fn can_split(&self, s: &Seg, at: L) -> bool {
        match s.k {
            K::Cell(_) => match (self.x.m.t.lconst(s.lo), self.x.m.t.lconst(s.hi), self.x.m.t.lconst(at)) {
                (Some(a), Some(b), Some(p)) => a <= p && p <= b,
                _ => false,
            },
            _ => true,
        }
    }
    /// which segments of `want` would have to be free for it to cover `got`
    fn cover(&mut self, mut st: St, mut want: Vec<(usize, Seg)>, mut got: Vec<Seg>, miss: &mut HashSet<usize>, fuel: &mut u32) -> Option<()> {
        loop {
            if st.s.empty() {
                return Some(());
            }
            let (Some((i, s)), Some(t)) = (want.last().copied(), got.last().copied()) else {
                return if want.is_empty() && got.is_empty() { Some(()) } else { None };
            };
            // ranges that are or may be empty
            let mut known = true;
            for (lo, hi, left) in [(s.lo, s.hi, true), (t.lo, t.hi, false)] {
                if self.x.m.le(&st, hi, lo) == Some(true) {
                    if left {
                        want.pop();
                    } else {
                        got.pop();
                    }
                    known = false;
                    break;
                }
            }
            if !known {
                continue;
            }
            let (lo, mut a, mut b) = (s.lo, s.hi, t.hi);
            let mut split = None;
            if self.x.m.le(&st, a, lo).is_none() {
                (a, b) = (s.hi, lo);
                split = Some(());
            } else if self.x.m.le(&st, b, t.lo).is_none() {
                (a, b) = (t.hi, t.lo);
                split = Some(());
            } else if !self.x.m.eq(&st, a, b) && self.x.m.le(&st, a, b).is_none() {
                split = Some(());
            }
            if split.is_some() {
                if *fuel == 0 {
                    return None;
                }
                *fuel -= 1;
                let d = self.x.m.t.lsub(b, a);
                let d = self.x.m.t.l(d).clone();
                let mut s2 = st.clone();
                s2.store().add_ge(&d);
                self.cover(s2, want.clone(), got.clone(), miss, fuel)?;
                let mut d = lin_mul(&d, -1);
                d.c -= 1;
                st.store().add_ge(&d);
                continue;
            }
            want.pop();
            got.pop();
            let (s, t) = if self.x.m.eq(&st, s.hi, t.hi) {
                (s, t)
            } else if self.x.m.le(&st, s.hi, t.hi) == Some(true) {
                if !self.can_split(&t, s.hi) {
                    return None;
                }
                let (p, q) = self.x.m.split_seg(&st, t, s.hi);
                got.push(q);
                (s, p)
            } else {
                if !self.can_split(&s, t.hi) {
                    return None;
                }
                let (p, q) = self.x.m.split_seg(&st, s, t.hi);
                want.push((i, q));
                (p, t)
            };
            if matches!(s.k, K::Top) || miss.contains(&i) {
                continue;
            }
            let same = match (s.k, t.k) {
                (K::Undef, K::Undef) => true,
                _ => self.x.m.segs_eq(&mut st, &[s], &[t]),
            };
            if !same {
                let free = match s.k {
                    K::Src(..) | K::Fill(_) | K::Undef => true,
                    K::Cell(Val::I(v)) => self.x.m.t.w(v) == 8,
                    _ => false,
                };
                if std::env::var("BSA_INDUCT").is_ok() {
                    eprintln!("  differs: {:?}\n  {}\n     from {:?}\n {}\n", i, self.show_seg(&s), fuel, self.show_seg(&t));
                }
                if !free {
                    return None;
                }
                miss.insert(i);
            }
        }
    }
    /// is the state of `x`, after all in all `x.len` bytes, one of the forms? Frees what need not be equal.
    fn covered(&mut self, forms: &mut [Form], h0: &Hist, n: T, x: &Hist) -> Option<bool> {
        let (_, got) = self.state_obj(x)?;
        if !x.st.odd.is_empty() {
            return None;
        }
        let got = got.segs;
        if let Some(v) = self.covered_by_all(forms, h0, n, x, &got) {
            let changed = (0..forms.len()).any(|i| v[i] != forms[i].free);
            for (f, v) in forms.iter_mut().zip(v) {
                f.free = v;
            }
            return Some(changed);
        }
        // the form that has to give up the least
        let mut best: Option<(usize, (usize, usize), HashSet<usize>, Vec<(usize, i128)>)> = None;
        for i in 0..forms.len() {
            if let Some((miss, relax)) = self.covered_by_one(&forms[i], h0, n, x, &got) {
                let cost = (miss.len() - forms[i].free.len(), relax.len());
                if best.as_ref().map_or(true, |b| cost < b.1) {
                    best = Some((i, cost, miss, relax));
                }
            }
        }
        let (i, cost, miss, relax) = best?;
        forms[i].free = miss;
        if !relax.is_empty() {
            forms[i].relaxed = true;
            let s = forms[i].h.st.store();
            for (k, c) in relax {
                s.cons[k].c += c;
            }
        }
        Some(cost != (0, 0))
    }
    /// whichever form's path condition holds
    fn covered_by_all(&mut self, forms: &[Form], h0: &Hist, n: T, x: &Hist, got: &[Seg]) -> Option<Vec<HashSet<usize>>> {
        let mut out = vec![];
        for f in forms {
            let mut miss = f.free.clone();
            let mut st = x.st.clone();
            let r = self.renamed(f, h0, n, x.len)?;
            for e in &r.eqs {
                st.store().add_eq(e);
            }
            for e in &r.cons {
                st.store().add_ge(e);
            }
            for v in r.fresh.iter().chain(&r.defs) {
                st.store().dims.insert(*v);
            }
            // relaxed forms do not exclude one another
            if f.relaxed {
                return None;
            }
            if !st.s.empty() {
                for (a, b) in self.block_counts(&r.segs, got) {
                    let d = self.x.m.t.lsub(a, b);
                    self.int_eq(&mut st, d);
                }
                let w: Vec<(usize, Seg)> = r.segs.iter().copied().enumerate().rev().collect();
                let g: Vec<Seg> = got.iter().copied().rev().collect();
                self.cover(st, w, g, &mut miss, &mut 64)?;
            }
            out.push(miss);
        }
        Some(out)
    }
    /// the path variables of the form are what the number of blocks says; relaxes its path condition
    fn covered_by_one(&mut self, f: &Form, h0: &Hist, n: T, x: &Hist, got: &[Seg]) -> Option<(HashSet<usize>, Vec<(usize, i128)>)> {
        let r = self.renamed(f, h0, n, x.len)?;
        let mut st = x.st.clone();
        let say = |s: &str| {
            if std::env::var("BSA_INDUCT").is_ok() {
                eprintln!("  not this form: {}", s)
            }
        };
        for v in r.fresh.iter().chain(&r.defs) {
            st.store().dims.insert(*v);
        }
        let mut eqs = vec![];
        for (a, b) in self.block_counts(&r.segs, got) {
            let d = self.x.m.t.lsub(a, b);
            eqs.push(self.x.m.t.l(d).clone());
        }
        eqs.extend(r.eqs.iter().cloned());
        for v in &r.defs {
            let l = self.x.m.lift(&mut st, *v);
            let l = self.x.m.t.l(l).clone();
            eqs.push(lin_add(&Lin { v: vec![(*v, 1)], c: 0 }, &l, -1));
        }
        for e in eqs {
            let e = st.s.apply(&e);
            if e.v.iter().any(|q| q.1.abs() == 1 && r.fresh.contains(&q.0)) {
                st.store().add_eq(&e);
            } else if !st.s.eq0(&e) {
                say("an equation");
                return None;
            }
        }
        let mut relax: Vec<(usize, i128)> = vec![];
        for (i, e) in r.cons.iter().enumerate() {
            let e = st.s.apply(e);
            if e.v.iter().any(|q| r.fresh.contains(&q.0)) {
                say("an unknown path variable");
                return None;
            }
            if st.s.ge(&e) {
                continue;
            }
            let at = |c: i128| Lin { v: e.v.clone(), c: e.c + c };
            let mut hi = 1i128;
            while hi <= 1 << 14 && !st.s.ge(&at(hi)) {
                hi *= 2;
            }
            if hi > 1 << 14 {
                let l = self.x.m.t.lin(r.cons[i].clone());
                let l2 = self.x.m.t.lin(e.clone());
                say(&format!("a path condition: {} or {}", self.x.m.t.show_lin(l, 3), self.x.m.t.show_lin(l2, 3)));
                return None;
            }
            let mut lo = hi / 2;
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if st.s.ge(&at(m)) {
                    hi = m
                } else {
                    lo = m
                }
            }
            relax.push((i, hi));
        }
        // the form has to make sense under the weaker condition
        if !relax.is_empty() {
            let (_, ob) = self.state_obj(&f.h)?;
            let mut s = (*f.h.st.s).clone();
            for (k, c) in &relax {
                s.cons[*k].c += c;
            }
            for q in &ob.segs {
                let d = self.x.m.t.lsub(q.hi, q.lo);
                if !s.ge(self.x.m.t.l(d)) {
                    say("the layout of the state");
                    return None;
                }
            }
        }
        let mut miss = f.free.clone();
        let w: Vec<(usize, Seg)> = r.segs.iter().copied().enumerate().rev().collect();
        let g: Vec<Seg> = got.iter().copied().rev().collect();
        if self.cover(st, w, g, &mut miss, &mut 64).is_none() {
            say("the contents");
            return None;
        }
        Some((miss, relax))
    }
    /// the states after any number of updates and finalizations; checks digests and counts on the way
    fn reachable(&mut self, kind: &str, h0: &Hist, max: i128) -> Rs<Result<Vec<Hist>, String>> {
        let dig = h0.dig();
        let fed = self.feed(h0, max)?;
        let Some(n) = fed.first().map(|h| self.x.m.t.l(h.len).clone()) else { return Ok(Ok(vec![])) };
        // the length of the one update
        let [(n, 1)] = n.v[..] else { return Ok(Err("the length of the input is not a variable".into())) };
        let mut forms: Vec<Form> = fed.into_iter().map(|h| Form { h, free: HashSet::new(), relaxed: false }).collect();
        if forms.iter().any(|f| !f.h.st.odd.is_empty()) {
            return Ok(Err("a wrong byte counter".into()));
        }
        for round in 0..6 {
            let mut changed = false;
            // nothing fed
            match self.covered(&mut forms, h0, n, h0) {
                Some(c) => changed |= c,
                None => return Ok(Err("a new state is not known to be the state after an empty update".into())),
            }
            for i in 0..forms.len() {
                let h1 = self.widened(&forms[i]);
                for mut h2 in self.feed(&h1, max)? {
                    let mut l = lin_mul(self.x.m.t.l(h2.len), -1);
                    l.c += max;
                    h2.st.store().add_ge(&l);
                    if h2.st.s.empty() {
                        continue;
                    }
                    match self.covered(&mut forms, h0, n, &h2) {
                        Some(c) => changed |= c,
                        None => return Ok(Err("the state after another update is not known to be one after a single update".into())),
                    }
                }
                for h2 in self.fin(&[dig], &format!("digest after any number of updates ({})", kind), &h1)? {
                    match self.covered(&mut forms, h0, n, &h2) {
                        Some(c) => changed |= c,
                        None => return Ok(Err("the state after finalization is not known to be the one before".into())),
                    }
                }
            }
            if std::env::var("BSA_INDUCT").is_ok() {
                eprintln!("{}: round {}, {} forms, free {:?}", kind, round, forms.len(), forms.iter().map(|f| f.free.len()).collect::<Vec<_>>());
            }
            if !changed {
                return Ok(Ok(forms.iter().map(|f| self.widened(f)).collect()));
            }
        }
        Ok(Err("no invariant was found".into()))
    }
    /// a third update of the states that two updates lead to but one does not
    pub fn third(&mut self, sp: bool, max: i128, part: Option<(usize, usize)>) -> Rs<()> {
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        for (kind, h0) in Self::part(starts, part) {
            let dig = h0.dig();
            let fed = self.feed(&h0, max)?;
            let n = fed.first().map(|h| self.x.m.t.l(h.len).v.clone()).unwrap_or_default();
            let [(n, 1)] = n[..] else { continue };
            let forms: Vec<Form> = fed.iter().map(|h| Form { h: h.clone(), free: HashSet::new(), relaxed: false }).collect();
            let mut known = 0;
            for h1 in &fed {
                for h2 in self.feed(h1, max)? {
                    if h2.st.odd.is_empty() {
                        let Some((_, got)) = self.state_obj(&h2) else { continue };
                        let mut ok = self.covered_by_all(&forms, &h0, n, &h2, &got.segs).is_some();
                        for f in &forms {
                            ok = ok || self.covered_by_one(f, &h0, n, &h2, &got.segs).map_or(false, |r| r.1.is_empty());
                        }
                        if ok {
                            known += 1;
                            continue;
                        }
                    }
                    for h3 in self.feed(&h2, max)? {
                        self.count(&["C18"], &format!("count after a third update ({})", kind), &h3)?;
                        self.fin(&[dig], &format!("digest after a third update ({})", kind), &h3)?;
                    }
                }
            }
            if known > 0 {
                self.okk(&[dig, "C18"], &format!("states after two updates that one update leads to as well ({})", kind));
            }
        }
        Ok(())
    }
    /// any number of updates and finalizations
    pub fn induct(&mut self, sp: bool, max: i128, part: Option<(usize, usize)>) -> Rs<()> {
        let starts = if sp { self.sp_starts()? } else { self.starts()? };
        self.guess = true;
        for (kind, h0) in Self::part(starts, part) {
            let dig = h0.dig();
            let what = format!("any number of updates and finalizations ({})", kind);
            match self.reachable(&kind, &h0, max)? {
                Err(why) => self.unk(&[dig, "C18", "C05"], &what, &why),
                Ok(hs) => {
                    for h in hs {
                        self.count(&["C18"], &format!("count after any number of updates ({})", kind), &h)?;
                    }
                    self.okk(&[dig, "C18", "C05"], &format!("{}: the state depends on what was fed only", what));
                }
            }
        }
        Ok(())
    }
}
fn sub_lin(tm: &mut Terms, l: L, map: &BTreeMap<T, Lin>) -> L {
    let e = tm.l(l).clone();
    if !e.v.iter().any(|q| map.contains_key(&q.0)) {
        return l;
    }
    let mut r = Lin { v: vec![], c: e.c };
    for (t, k) in &e.v {
        match map.get(t) {
            Some(x) => r = lin_add(&r, x, *k),
            None => r = lin_add(&r, &Lin { v: vec![(*t, 1)], c: 0 }, *k),
        }
    }
    tm.lin(r)
}
