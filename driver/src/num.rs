//! Numeric abstract domain: conjunctions of linear (in)equalities over integer dimensions
//! (polyhedra with integer tightening); entailment and emptiness by exact rational simplex.
use crate::term::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q {
    n: i128,
    d: i128,
}
struct Overflow;
type R<X> = Result<X, Overflow>;
fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Q {
    const Z: Q = Q { n: 0, d: 1 };
    fn i(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn new(n: i128, d: i128) -> Q {
        if n == 0 {
            return Q::Z;
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    fn mul(self, o: Q) -> R<Q> {
        if self.n == 0 || o.n == 0 {
            return Ok(Q::Z);
        }
        let (g1, g2) = (gcd(self.n, o.d), gcd(o.n, self.d));
        Ok(Q {
            n: (self.n / g1).checked_mul(o.n / g2).ok_or(Overflow)?,
            d: (self.d / g2).checked_mul(o.d / g1).ok_or(Overflow)?,
        })
    }
    fn inv(self) -> Q {
        if self.n < 0 {
            Q { n: -self.d, d: -self.n }
        } else {
            Q { n: self.d, d: self.n }
        }
    }
    fn add(self, o: Q) -> R<Q> {
        if self.n == 0 {
            return Ok(o);
        }
        if o.n == 0 {
            return Ok(self);
        }
        if self.d == 1 && o.d == 1 {
            return Ok(Q { n: self.n.checked_add(o.n).ok_or(Overflow)?, d: 1 });
        }
        let g = gcd(self.d, o.d);
        let n = self
            .n
            .checked_mul(o.d / g)
            .and_then(|x| o.n.checked_mul(self.d / g).and_then(|y| x.checked_add(y)))
            .ok_or(Overflow)?;
        let d = self.d.checked_mul(o.d / g).ok_or(Overflow)?;
        Ok(Q::new(n, d))
    }
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    fn sign(self) -> i32 {
        self.n.signum() as i32
    }
    fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
}

/// feasibility of { a.x + c >= 0 } over the rationals; returns a point if feasible
fn simplex(cons: &[Lin]) -> R<Option<HashMap<T, Q>>> {
    let mut vars: Vec<T> = vec![];
    let mut idx: HashMap<T, usize> = HashMap::new();
    for c in cons {
        for x in &c.v {
            idx.entry(x.0).or_insert_with(|| {
                vars.push(x.0);
                vars.len() - 1
            });
        }
    }
    // single-variable constraints become bounds of the variable
    let n = vars.len();
    let mut lo: Vec<Option<Q>> = vec![None; n];
    let mut hi: Vec<Option<Q>> = vec![None; n];
    let mut rows: Vec<Vec<Q>> = vec![]; // row over structural variables
    let mut rlo: Vec<Q> = vec![];
    for c in cons {
        match c.v.len() {
            0 => {
                if c.c < 0 {
                    return Ok(None);
                }
            }
            1 => {
                let (t, k) = c.v[0];
                let i = idx[&t];
                let b = Q::new(-c.c, k);
                if k > 0 {
                    if lo[i].map_or(true, |x| x.add(b.neg()).map_or(false, |d| d.sign() < 0)) {
                        lo[i] = Some(b);
                    }
                } else if hi[i].map_or(true, |x| x.add(b.neg()).map_or(false, |d| d.sign() > 0)) {
                    hi[i] = Some(b);
                }
            }
            _ => {
                let mut r = vec![Q::Z; n];
                for x in &c.v {
                    r[idx[&x.0]] = Q::i(x.1);
                }
                rows.push(r);
                rlo.push(Q::i(-c.c));
            }
        }
    }
    for i in 0..n {
        if let (Some(l), Some(h)) = (lo[i], hi[i]) {
            if h.add(l.neg())?.sign() < 0 {
                return Ok(None);
            }
        }
    }
    // general simplex (Dutertre, de Moura) with Bland's rule.
    // columns: nonbasic variables; rows: basic variables, row = sum of nonbasics
    let m = rows.len();
    let tot = n + m;
    let mut l: Vec<Option<Q>> = lo.clone();
    let mut h: Vec<Option<Q>> = hi.clone();
    for b in &rlo {
        l.push(Some(*b));
        h.push(None);
    }
    let mut val: Vec<Q> = vec![Q::Z; tot];
    for i in 0..n {
        val[i] = match (l[i], h[i]) {
            (Some(a), _) => a,
            (None, Some(b)) => b,
            _ => Q::Z,
        };
    }
    let mut basic: Vec<usize> = (n..tot).collect();
    let mut nonb: Vec<usize> = (0..n).collect();
    let mut tab = rows;
    for (r, &b) in basic.iter().enumerate() {
        let mut s = Q::Z;
        for j in 0..n {
            if tab[r][j].n != 0 {
                s = s.add(tab[r][j].mul(val[j])?)?;
            }
        }
        val[b] = s;
    }
    for _iter in 0..5000 {
        // violated basic variable with the smallest index
        let mut pick: Option<(usize, usize, bool)> = None;
        for (r, &b) in basic.iter().enumerate() {
            let below = l[b].map_or(Ok(false), |x| x.add(val[b].neg()).map(|d| d.sign() > 0))?;
            let above = h[b].map_or(Ok(false), |x| x.add(val[b].neg()).map(|d| d.sign() < 0))?;
            if below || above {
                if pick.map_or(true, |p| b < basic[p.0]) {
                    pick = Some((r, b, below));
                }
            }
        }
        let (r, b, below) = match pick {
            None => {
                return Ok(Some(vars.iter().enumerate().map(|(i, t)| (*t, val[i])).collect()));
            }
            Some(p) => p,
        };
        let target = if below { l[b].unwrap() } else { h[b].unwrap() };
        // entering variable
        let mut ent: Option<usize> = None;
        for j in 0..n {
            let a = tab[r][j];
            if a.n == 0 {
                continue;
            }
            let x = nonb[j];
            let up = (a.sign() > 0) == below; // need to increase x
            let can = if up {
                h[x].map_or(Ok(true), |q| q.add(val[x].neg()).map(|d| d.sign() > 0))?
            } else {
                l[x].map_or(Ok(true), |q| q.add(val[x].neg()).map(|d| d.sign() < 0))?
            };
            if can && ent.map_or(true, |e| x < nonb[e]) {
                ent = Some(j);
            }
        }
        let j = match ent {
            None => return Ok(None),
            Some(j) => j,
        };
        let x = nonb[j];
        let a = tab[r][j];
        let theta = target.add(val[b].neg())?.mul(a.inv())?;
        // update values
        val[b] = target;
        val[x] = val[x].add(theta)?;
        for (r2, &b2) in basic.iter().enumerate() {
            if r2 != r && tab[r2][j].n != 0 {
                val[b2] = val[b2].add(tab[r2][j].mul(theta)?)?;
            }
        }
        // pivot: x = (b - sum others)/a
        let inv = a.inv();
        let mut nr = vec![Q::Z; n];
        for k in 0..n {
            nr[k] = if k == j { inv } else { tab[r][k].mul(inv)?.neg() };
        }
        for r2 in 0..m {
            if r2 == r {
                continue;
            }
            let f = tab[r2][j];
            if f.n == 0 {
                continue;
            }
            tab[r2][j] = Q::Z;
            for k in 0..n {
                if nr[k].n != 0 {
                    tab[r2][k] = tab[r2][k].add(f.mul(nr[k])?)?;
                }
            }
        }
        tab[r] = nr;
        basic[r] = x;
        nonb[j] = b;
    }
    Err(Overflow)
}

#[derive(Clone, Default, PartialEq, Eq)]
pub struct Store {
    /// constraints `>= 0`, normalised under `sub`
    pub cons: Vec<Lin>,
    /// solved equalities
    pub sub: BTreeMap<T, Lin>,
    /// opaque boolean facts assumed on this path
    pub facts: BTreeMap<T, bool>,
    /// dimensions whose bounds were declared
    pub dims: std::collections::BTreeSet<T>,
    pub bottom: bool,
}

fn tighten(l: &mut Lin) {
    if l.v.is_empty() {
        return;
    }
    let mut g = 0;
    for x in &l.v {
        g = gcd(g, x.1);
    }
    if g > 1 {
        for x in l.v.iter_mut() {
            x.1 /= g;
        }
        l.c = l.c.div_euclid(g);
    }
}

impl Store {
    pub fn apply(&self, l: &Lin) -> Lin {
        if !l.v.iter().any(|x| self.sub.contains_key(&x.0)) {
            return l.clone();
        }
        let mut r = Lin { v: vec![], c: l.c };
        for (t, k) in &l.v {
            match self.sub.get(t) {
                Some(e) => r = lin_add(&r, e, *k),
                None => r = lin_add(&r, &Lin { v: vec![(*t, 1)], c: 0 }, *k),
            }
        }
        r
    }
    /// assume l >= 0
    pub fn add_ge(&mut self, l: &Lin) {
        let mut l = self.apply(l);
        tighten(&mut l);
        if l.v.is_empty() {
            if l.c < 0 {
                self.bottom = true;
            }
            return;
        }
        // drop if dominated by an existing constraint with the same direction
        for e in self.cons.iter_mut() {
            if e.v == l.v {
                if l.c < e.c {
                    e.c = l.c;
                    let n = Lin { v: l.v.iter().map(|x| (x.0, -x.1)).collect(), c: -l.c };
                    if let Some(o) = self.cons.iter().find(|q| q.v == n.v) {
                        if o.c == n.c {
                            self.add_eq(&l);
                        }
                    }
                }
                return;
            }
        }
        let n = Lin { v: l.v.iter().map(|x| (x.0, -x.1)).collect(), c: -l.c };
        let isq = self.cons.iter().any(|q| q.v == n.v && q.c == n.c);
        self.cons.push(l.clone());
        if isq {
            self.add_eq(&l);
        }
    }
    /// assume l == 0
    pub fn add_eq(&mut self, l: &Lin) {
        let l = self.apply(l);
        if l.v.is_empty() {
            if l.c != 0 {
                self.bottom = true;
            }
            return;
        }
        let mut g = 0;
        for x in &l.v {
            g = gcd(g, x.1);
        }
        if l.c % g != 0 {
            self.bottom = true;
            return;
        }
        let l = Lin { v: l.v.iter().map(|x| (x.0, x.1 / g)).collect(), c: l.c / g };
        // pivot: the newest dimension with a unit coefficient
        let mut piv: Option<(T, i128)> = None;
        for x in &l.v {
            if x.1.abs() == 1 && piv.map_or(true, |p| x.0 > p.0) {
                piv = Some(*x);
            }
        }
        match piv {
            Some((t, k)) => {
                // k*t + rest = 0  =>  t = -k*rest  (k = +-1)
                let mut rest = l.clone();
                rest.v.retain(|x| x.0 != t);
                let e = lin_mul(&rest, -k);
                for (_, s) in self.sub.iter_mut() {
                    if let Some(p) = s.v.iter().position(|x| x.0 == t) {
                        let kk = s.v[p].1;
                        let mut q = s.clone();
                        q.v.remove(p);
                        *s = lin_add(&q, &e, kk);
                    }
                }
                self.sub.insert(t, e);
                let old = std::mem::take(&mut self.cons);
                for c in old {
                    self.add_ge(&c);
                }
            }
            None => {
                let n = lin_mul(&l, -1);
                if !self.cons.contains(&l) {
                    self.cons.push(l);
                }
                if !self.cons.contains(&n) {
                    self.cons.push(n);
                }
            }
        }
    }
    /// constraints connected to the query
    fn relevant(&self, q: &Lin) -> Vec<Lin> {
        let mut seen: std::collections::HashSet<T> = q.v.iter().map(|x| x.0).collect();
        let mut take = vec![false; self.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in self.cons.iter().enumerate() {
                if !take[i] && c.v.iter().any(|x| seen.contains(&x.0)) {
                    take[i] = true;
                    ch = true;
                    for x in &c.v {
                        seen.insert(x.0);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        self.cons.iter().zip(take).filter(|x| x.1).map(|x| x.0.clone()).collect()
    }
    fn quick_min(&self, l: &Lin) -> Option<i128> {
        let mut s = l.c;
        for (t, k) in &l.v {
            let mut b: Option<i128> = None;
            for c in &self.cons {
                if c.v.len() == 1 && c.v[0].0 == *t {
                    let a = c.v[0].1;
                    if (a > 0) == (*k > 0) && a.abs() == 1 {
                        // a>0: t >= -c ; a<0: t <= c
                        let v = if a > 0 { -c.c } else { c.c };
                        b = Some(match b {
                            None => v,
                            Some(o) => {
                                if *k > 0 {
                                    o.max(v)
                                } else {
                                    o.min(v)
                                }
                            }
                        });
                    }
                }
            }
            s = s.checked_add(b?.checked_mul(*k)?)?;
        }
        Some(s)
    }
    /// is l >= 0 on every point?
    pub fn ge(&self, l: &Lin) -> bool {
        if self.bottom {
            return true;
        }
        let l = self.apply(l);
        if l.v.is_empty() {
            return l.c >= 0;
        }
        if self.cons.iter().any(|c| c.v == l.v && c.c <= l.c) {
            return true;
        }
        if self.quick_min(&l).map_or(false, |m| m >= 0) {
            return true;
        }
        let mut neg = lin_mul(&l, -1);
        neg.c -= 1;
        tighten(&mut neg);
        let mut cs = self.relevant(&l);
        cs.push(neg);
        match simplex(&cs) {
            Ok(None) => true,
            _ => false,
        }
    }
    pub fn eq0(&self, l: &Lin) -> bool {
        let l = self.apply(l);
        if l.v.is_empty() {
            return l.c == 0;
        }
        self.ge(&l) && self.ge(&lin_mul(&l, -1))
    }
    /// is the store certainly empty?
    pub fn empty(&self) -> bool {
        if self.bottom {
            return true;
        }
        matches!(simplex(&self.cons), Ok(None))
    }
    /// is there possibly a point with l >= 0?
    pub fn may_ge(&self, l: &Lin) -> bool {
        let mut n = lin_mul(l, -1);
        n.c -= 1;
        !self.ge(&n)
    }
    /// an integer point, found by fixing dimensions one after the other
    pub fn point(&self, prefer_small: bool, seed: u64) -> Option<HashMap<T, i128>> {
        let mut s = self.clone();
        let mut vars: Vec<T> = s.dims.iter().cloned().collect();
        for c in &s.cons {
            for x in &c.v {
                if !vars.contains(&x.0) {
                    vars.push(x.0);
                }
            }
        }
        for (t, e) in &s.sub {
            for x in &e.v {
                if !vars.contains(&x.0) {
                    vars.push(x.0);
                }
            }
            vars.retain(|v| v != t);
        }
        if s.bottom {
            return None;
        }
        let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        // variables that have nothing to do with each other are set separately
        let mut comp: HashMap<T, usize> = vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        for c in &s.cons {
            let Some(x) = c.v.first() else { continue };
            let a = comp[&x.0];
            for y in &c.v[1..] {
                let b = comp[&y.0];
                if a != b {
                    for z in comp.values_mut() {
                        if *z == b {
                            *z = a;
                        }
                    }
                }
            }
        }
        let mut out: HashMap<T, i128> = HashMap::new();
        let mut done: Vec<usize> = vec![];
        for v in &vars {
            let c = comp[v];
            if done.contains(&c) {
                continue;
            }
            done.push(c);
            let vs: Vec<T> = vars.iter().cloned().filter(|v| comp[v] == c).collect();
            let mut q = Store::default();
            q.cons = s.cons.iter().filter(|l| l.v.first().map_or(false, |x| comp[&x.0] == c)).cloned().collect();
            let mut budget = 4000;
            out.extend(q.fix(&vs, 0, prefer_small, &mut rng, &mut budget)?);
        }
        for (t, e) in &self.sub {
            let mut v = e.c;
            for (x, k) in &e.v {
                v += k * *out.get(x).unwrap_or(&0);
            }
            out.insert(*t, v);
        }
        Some(out)
    }
    fn bounds(&self, t: T) -> (Option<i128>, Option<i128>) {
        // bisection on entailment is costly; use unit constraints, then probe
        let (mut lo, mut hi) = (None, None);
        for c in &self.cons {
            if c.v.len() == 1 && c.v[0].0 == t {
                let a = c.v[0].1;
                if a > 0 {
                    let v = Q::new(-c.c, a);
                    let v = -(v.neg().floor());
                    lo = Some(lo.map_or(v, |o: i128| o.max(v)));
                } else {
                    let v = Q::new(c.c, -a).floor();
                    hi = Some(hi.map_or(v, |o: i128| o.min(v)));
                }
            }
        }
        (lo, hi)
    }
    fn fix(&mut self, vars: &[T], i: usize, small: bool, rng: &mut u64, budget: &mut i32) -> Option<HashMap<T, i128>> {
        if self.bottom || *budget <= 0 {
            return None;
        }
        *budget -= 1;
        let sol = match simplex(&self.cons) {
            Ok(Some(s)) => s,
            _ => return None,
        };
        if i == vars.len() {
            // equalities found on the way
            return Some(self.sub.iter().filter(|x| x.1.v.is_empty()).map(|x| (*x.0, x.1.c)).collect());
        }
        let t = vars[i];
        if self.sub.contains_key(&t) {
            return self.fix(vars, i + 1, small, rng, budget);
        }
        let (lo, hi) = self.bounds(t);
        let mut cands: Vec<i128> = vec![];
        let sv = sol.get(&t).cloned().unwrap_or(Q::Z).floor();
        if small {
            if let Some(l) = lo {
                cands.push(l);
            }
        } else {
            *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let l = lo.unwrap_or(0);
            let h = hi.unwrap_or(l + 1000).min(l + 700);
            cands.push(l + ((*rng >> 33) as i128).rem_euclid(h - l + 1));
            *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            cands.push(l + ((*rng >> 33) as i128).rem_euclid((h - l + 1).min(3)));
        }
        cands.push(sv);
        cands.push(sv + 1);
        if let Some(l) = lo {
            cands.push(l);
            cands.push(l + 1);
        }
        if let Some(h) = hi {
            if h < 1 << 40 {
                cands.push(h);
            }
        }
        let mut tried = vec![];
        for c in cands {
            if tried.contains(&c) || lo.map_or(false, |l| c < l) || hi.map_or(false, |h| c > h) {
                continue;
            }
            tried.push(c);
            let mut s = self.clone();
            s.add_eq(&Lin { v: vec![(t, 1)], c: -c });
            if let Some(mut r) = s.fix(vars, i + 1, small, rng, budget) {
                r.insert(t, c);
                return Some(r);
            }
        }
        None
    }
}
