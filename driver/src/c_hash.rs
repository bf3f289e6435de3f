//! Hash values: accessors, comparison, formatting.
use crate::c_b2s::*;
use crate::c_params::*;
use crate::checks::*;
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::report::*;
use crate::spec::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, HashSet};

pub const AS_REF: &str = "<blake2s_simd::Hash as std::convert::AsRef<[u8]>>::as_ref";
pub const EQ: &str = "<blake2s_simd::Hash as std::cmp::PartialEq>::eq";
pub const EQ_SLICE: &str = "<blake2s_simd::Hash as std::cmp::PartialEq<[u8]>>::eq";

impl Ck {
    /// a hash of n bytes of the message named `base`
    pub fn a_hash(&mut self, st: &St, n: i128, base: &str) -> Rs<(St, Rv, Vec<T>)> {
        let w = self.ptr_sz();
        let nv = self.u(w, n as u128);
        for (s, o) in self.make(st, "Params::new", &[])? {
            let p = self.ptr(&mut s.clone(), o);
            for s in self.set(s, &p, "Params::hash_length", nv.clone())? {
                for (mut s, o) in self.make(&s, "Params::to_state", &[p.clone()])? {
                    let sp = self.ptr(&mut s, o);
                    let arr = self.x.m.t.base(base, true);
                    let (z, l) = (self.lc(0), self.lc(3));
                    let a = self.slice_arg(&mut s, arr, z, l);
                    for (s, _) in self.total(&s, "State::update", &[sp.clone(), a.clone()])? {
                        for (mut s, h) in self.finalize(&s, &sp, "State::finalize")? {
                            // what it has to show
                            let mut v = self.pv_default();
                            v.hl = self.x.m.t.k(64, n as u128);
                            let w = self.want_of(&mut s, &v, arr, z, l);
                            let loc = self.loc_of("Hash::as_bytes");
                            self.digest(&["C22"], &format!("as_bytes of a {}-byte hash", n), &loc, &s, &h, &DigTree::One(w))?;
                            for (_, by, _) in self.hash_bytes(&s, &h)? {
                                return Ok((s, h, by[..n as usize].to_vec()));
                            }
                        }
                    }
                }
            }
        }
        unsup("no hash")
    }
    /// the bytes a slice reference shows
    pub fn slice_bytes(&mut self, st: &mut St, r: &Rv) -> Rs<Vec<T>> {
        let (p, m) = self.x.split_fat(r)?;
        let (p, off) = match p {
            Val::P(p) => match p.off {
                Some(o) => (p, o),
                None => return unsup("slice with unknown start"),
            },
            _ => return unsup("slice with unknown start"),
        };
        let len = match self.x.int(st, m) {
            Some(l) => l,
            None => return unsup("slice of unknown length"),
        };
        let n = match self.x.m.t.lconst(len) {
            Some(n) => n,
            None => return unsup("slice of open length"),
        };
        let mut by = vec![];
        let (z, hi) = (self.lc(0), self.x.m.obj(st, p.o).size);
        for i in 0..n {
            let q = self.x.m.t.laddc(off, i);
            match self.x.m.read_scalar(st, p.o, q, 1, z, hi)? {
                Val::I(t) => by.push(t),
                _ => {
                    let u = self.x.m.t.fresh_unk(8);
                    by.push(u)
                }
            }
        }
        Ok(by)
    }
    /// term-wise equality, confirmed when it fails
    pub fn same_bytes(&mut self, props: &[&str], what: &str, loc: &str, st: &mut St, got: &[T], want: &[T]) {
        if got.len() != want.len() {
            match self.x.confirm(st, &|_| Some(true)) {
                Some(w) => self.bad(props, what, &format!("{} bytes instead of {}", got.len(), want.len()), loc, &w),
                None => self.unk(props, what, "length"),
            }
            return;
        }
        for i in 0..got.len() {
            if !self.x.m.teq(st, got[i], want[i]) {
                let (g, w) = (got[i], want[i]);
                match self.x.confirm(st, &|ev| Some(ev.term(g)? != ev.term(w)?)) {
                    Some(p) => {
                        let m = format!("byte {} is {} instead of {}", i, self.x.m.t.show_d(g, 3), self.x.m.t.show_d(w, 3));
                        self.bad(props, what, &m, loc, &p);
                        return;
                    }
                    None => {
                        // equal wherever it was evaluated: compare as functions of the bytes involved
                        if !self.same_fn(st, g, w) {
                            let m = format!("byte {}: {} is not proved equal to {}", i, self.x.m.t.show_d(g, 3), self.x.m.t.show_d(w, 3));
                            self.unk(props, what, &m);
                            return;
                        }
                    }
                }
            }
        }
        self.okk(props, what);
    }
    /// equality of two terms that depend on one and the same value, over all its bytes
    pub fn same_fn(&mut self, st: &St, a: T, b: T) -> bool {
        let mut leaves = HashSet::new();
        for t in [a, b] {
            self.x.m.t.visit(t, &mut Default::default(), &mut |i, at| match at {
                Atom::F { .. } | Atom::Chain { .. } | Atom::Sym { .. } | Atom::Unk { .. } => {
                    leaves.insert(i);
                }
                Atom::Byte { arr, .. } => {
                    if !matches!(self.x.m.t.arrs[*arr as usize], ArrK::Const(_)) {
                        leaves.insert(i);
                    }
                }
                _ => {}
            });
        }
        if leaves.len() != 1 {
            return false;
        }
        let at = *leaves.iter().next().unwrap();
        let facts: Vec<(T, bool)> = st.s.facts.iter().map(|x| (*x.0, *x.1)).collect();
        let cons: Vec<Lin> = st.s.cons.iter().cloned().collect();
        for x in 0..256u128 {
            let mut ev = Eval::new(&self.x.m.t, HashMap::new(), 5);
            ev.set_atom(at, x | x << 8 | x << 16 | x << 24);
            if facts.iter().any(|(t, v)| ev.term(*t).map_or(false, |y| (y & 1 == 1) != *v)) {
                continue;
            }
            let mut skip = false;
            for c in &cons {
                let mut r = Some(c.c);
                for (t, k) in &c.v {
                    r = match (r, ev.term(*t)) {
                        (Some(r), Some(y)) => Some(r + k * y as i128),
                        _ => None,
                    };
                }
                skip |= r.map_or(false, |r| r < 0);
            }
            if skip {
                continue;
            }
            let (p, q) = (ev.term(a), ev.term(b));
            if p.is_none() || p != q || ev.lost {
                return false;
            }
        }
        true
    }
    pub fn hash_accessors(&mut self) -> Rs<()> {
        let st = self.x.new_st();
        for n in 1..=32 {
            let (s, h, want) = self.a_hash(&st, n, "M")?;
            for name in ["Hash::as_bytes", AS_REF] {
                let loc = self.loc_of(name);
                for (mut s, r) in self.total(&s, name, &[h.clone()])? {
                    let got = self.slice_bytes(&mut s, &r)?;
                    self.same_bytes(&["C22"], &format!("{} of a {}-byte hash", name, n), &loc, &mut s, &got, &want);
                }
            }
            // a copy shows the same
            for (mut s, o) in self.make(&s, "<blake2s_simd::Hash as std::clone::Clone>::clone", &[h.clone()])? {
                let p = self.ptr(&mut s, o);
                let loc = self.loc_of("Hash::as_bytes");
                for (mut s, r) in self.total(&s, "Hash::as_bytes", &[p])? {
                    let got = self.slice_bytes(&mut s, &r)?;
                    self.same_bytes(&["C22", "C21"], &format!("copy of a {}-byte hash", n), &loc, &mut s, &got, &want);
                }
            }
            self.hex(&s, &h, n, &want)?;
        }
        Ok(())
    }
    pub fn hex_of(&mut self, b: T) -> Vec<T> {
        let hi = self.x.m.t.slice(b, 4, 4);
        let lo = self.x.m.t.slice(b, 0, 4);
        let mut out = vec![];
        let tab = self.x.m.t.arr(ArrK::Const(b"0123456789abcdef".to_vec()));
        for d in [hi, lo] {
            let l = self.x.m.t.lin(Lin { v: vec![(d, 1)], c: 0 });
            out.push(self.x.m.t.byte(tab, l));
        }
        out
    }
    fn hex(&mut self, s: &St, h: &Rv, n: i128, want: &[T]) -> Rs<()> {
        let loc = self.loc_of("Hash::to_hex");
        let f = self.f("Hash::to_hex")?;
        let ty = self.x.ret_ty(f).unwrap();
        for (mut s, r) in self.total(s, "Hash::to_hex", &[h.clone()])? {
            let got = self.array_string(&mut s, &r, ty)?;
            let mut w = vec![];
            for b in want {
                w.extend(self.hex_of(*b));
            }
            self.same_bytes(&["C22"], &format!("to_hex of a {}-byte hash", n), &loc, &mut s, &got, &w);
        }
        Ok(())
    }
    /// the contents of an arrayvec::ArrayString
    fn array_string(&mut self, st: &mut St, v: &Rv, ty: Ty) -> Rs<Vec<T>> {
        let (def, args) = match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => (d, a),
            _ => return unsup("hex string type"),
        };
        let n = self.x.size(ty);
        let o = self.put(st, n, v);
        let (z, hi) = (self.lc(0), self.lc(n));
        let pl = self.x.place_at(o, z, hi, ty);
        let fields = def.variants()[0].fields();
        let (mut len, mut buf) = (None, None);
        for (i, f) in fields.iter().enumerate() {
            let fty = f.ty_with_args(&args);
            let off = {
                let q = self.x.field(pl.clone(), i, fty);
                q.off
            };
            let w = match i {
                _ if f.name == "len" => "len",
                _ if f.name == "xs" => "xs",
                _ => "",
            };
            if w == "len" {
                len = off
            } else if w == "xs" {
                buf = off
            }
        }
        let (Some(len), Some(buf)) = (len, buf) else { return unsup("hex string layout") };
        let n = match self.x.m.read_scalar(st, o, len, 1, z, hi)? {
            Val::I(t) => match self.x.m.t.as_const(t) {
                Some(n) => n as i128,
                None => return unsup("length of the hex string"),
            },
            _ => return unsup("length of the hex string"),
        };
        let mut out = vec![];
        for i in 0..n {
            let q = self.x.m.t.laddc(buf, i);
            match self.x.m.read_scalar(st, o, q, 1, z, hi)? {
                Val::I(t) => out.push(t),
                _ => return unsup("contents of the hex string"),
            }
        }
        Ok(out)
    }

    /// leaves of a tree of ors
    fn or_leaves(&mut self, t: T, out: &mut Vec<T>) {
        let n = self.x.m.t.not(t);
        if let Some(a) = self.x.m.t.as_atom(n) {
            if let Atom::Op { op: Op::And, args, .. } = self.x.m.t.atoms[a as usize].clone() {
                for x in args {
                    let x = self.x.m.t.not(x);
                    self.or_leaves(x, out);
                }
                return;
            }
        }
        if let Some(a) = self.x.m.t.as_atom(t) {
            if let Atom::Op { op: Op::Or, args, .. } = self.x.m.t.atoms[a as usize].clone() {
                for x in args {
                    self.or_leaves(x, out);
                }
                return;
            }
        }
        if self.x.m.t.as_const(t) != Some(0) {
            out.push(t);
        }
    }
    /// is the bit the equality of the two strings?
    fn eq_term(&mut self, r: T, a: &[T], b: &[T]) -> bool {
        let (x, y) = (self.x.m.t.concat(a), self.x.m.t.concat(b));
        let e = self.x.m.t.op(Op::Eq, 1, vec![x, y]);
        if e == r {
            return true;
        }
        let Some(at) = self.x.m.t.as_atom(r) else { return false };
        let args = match &self.x.m.t.atoms[at as usize] {
            Atom::Op { op: Op::Eq, args, .. } => args.clone(),
            _ => return false,
        };
        let t = match (self.x.m.t.as_const(args[0]), self.x.m.t.as_const(args[1])) {
            (_, Some(0)) => args[0],
            (Some(0), _) => args[1],
            _ => return false,
        };
        let mut leaves = vec![];
        self.or_leaves(t, &mut leaves);
        let mut want: Vec<T> = a.iter().zip(b).map(|(x, y)| self.x.m.t.xor(*x, *y)).collect();
        want.sort();
        leaves.sort();
        leaves.dedup();
        want.dedup();
        if leaves == want {
            return true;
        }
        let mut got = vec![];
        for l in leaves {
            // wider words
            let w = self.x.m.t.w(l);
            for i in 0..w / 8 {
                let s = self.x.m.t.slice(l, 8 * i, 8);
                if self.x.m.t.as_const(s) != Some(0) {
                    got.push(s);
                }
            }
        }
        got.sort();
        got.dedup();
        got == want
    }
    /// `r` has to be true exactly if the n shown bytes agree; evaluated for chosen digests
    fn eq_refute(&mut self, st: &St, r: T, a: &[T], b: &[T]) -> Option<String> {
        let n = a.len().min(b.len());
        let byte_atom = |c: &Ck, t: T| -> Option<(u32, u32)> {
            let tt = &c.x.m.t.terms[t as usize];
            if tt.ps.len() == 1 && tt.ps[0].xs.len() == 1 && tt.ps[0].c == 0 {
                Some(tt.ps[0].xs[0])
            } else {
                None
            }
        };
        // j < 0: equal; j < n: differ in byte j; beyond: bytes that are not shown differ
        for j in -1..40i64 {
            let mut av: HashMap<u32, u128> = HashMap::new();
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let base = (17 * i + 3) as u128 & 0xff;
                for (k, t) in [x, y].iter().enumerate() {
                    let (at, off) = byte_atom(self, **t)?;
                    let v = if k == 1 && i as i64 == j { base ^ 0x40 } else { base };
                    let e = av.entry(at).or_insert(0);
                    *e = (*e & !(0xffu128 << off)) | v << off;
                }
            }
            if a == b && j >= 0 {
                continue;
            }
            let mut ev = Eval::new(&self.x.m.t, HashMap::new(), 5 + j.max(0) as u64);
            let mut ok = true;
            for (at, v) in &av {
                // unshown bytes of the same word vary with j
                let w = self.x.m.t.aw(*at);
                let mut v = *v;
                for q in 0..w / 8 {
                    let shown = a.iter().chain(b.iter()).any(|t| byte_atom(self, *t) == Some((*at, 8 * q)));
                    if !shown {
                        v |= ((*at as u128 * 7 + q as u128 + j.max(0) as u128) & 0xff) << (8 * q);
                    }
                }
                ev.set_atom(*at, v);
            }
            for (t, b) in &st.s.facts {
                match ev.term(*t) {
                    Some(x) if (x & 1 == 1) == *b => {}
                    _ => ok = false,
                }
            }
            if !ok {
                continue;
            }
            let want = j < 0 || j >= n as i64;
            match ev.term(r) {
                Some(x) if !ev.lost => {
                    if (x & 1 == 1) != want {
                        return Some(if j < 0 {
                            "digests that agree in all bytes".into()
                        } else if j < n as i64 {
                            format!("digests of {} bytes that differ in byte {} only", n, j)
                        } else {
                            format!("digests of {} bytes that agree in all of them", n)
                        });
                    }
                }
                _ => {}
            }
        }
        None
    }
    fn eq_case(&mut self, what: &str, name: &str, st: &St, args: &[Rv], a: &[T], b: &[T], same_len: bool) -> Rs<()> {
        let loc = self.loc_of(name);
        for (mut s, r) in self.total(st, name, args)? {
            let r = match self.x.sc(&r, 1) {
                Val::I(t) => self.x.m.t.slice(t, 0, 1),
                _ => {
                    self.unk(&["C16"], what, "result not tracked");
                    continue;
                }
            };
            let r = self.x.m.canon(&mut s, r);
            if !same_len {
                match self.x.m.t.as_const(r) {
                    Some(0) => self.okk(&["C16"], what),
                    _ => match self.x.confirm_true(&s, r) {
                        Some(w) => self.bad(&["C16"], what, "strings of different lengths compare equal", &loc, &w),
                        None => self.unk(&["C16"], what, "not proved false"),
                    },
                }
                continue;
            }
            if a == b && self.x.m.t.as_const(r) == Some(1) || a != b && self.eq_term(r, a, b) {
                self.okk(&["C16"], what);
                continue;
            }
            match self.eq_refute(&s, r, a, b) {
                Some(w) => self.bad(&["C16"], what, "the comparison is not equality of all bytes", &loc, &w),
                None => self.unk(&["C16"], what, &format!("{} is not proved to be the equality", self.x.m.t.show_d(r, 2))),
            }
        }
        Ok(())
    }
    pub fn hash_eq(&mut self) -> Rs<()> {
        let st = self.x.new_st();
        for n in 1..=32i128 {
            let (s, h1, b1) = self.a_hash(&st, n, "M")?;
            // hash with hash
            self.eq_case("a hash equals itself", EQ, &s, &[h1.clone(), h1.clone()], &b1, &b1, true)?;
            let (s2, h2, b2) = self.a_hash(&s, n, "M2")?;
            self.eq_case("two hashes of the same length", EQ, &s2, &[h1.clone(), h2.clone()], &b1, &b2, true)?;
            for n2 in [n - 1, n + 1, 32, 1] {
                if n2 < 1 || n2 > 32 || n2 == n {
                    continue;
                }
                let (s2, h2, b2) = self.a_hash(&s, n2, "M2")?;
                self.eq_case("two hashes of different lengths", EQ, &s2, &[h1.clone(), h2.clone()], &b1, &b2, false)?;
                let (s2, h2, b2) = self.a_hash(&s, n2, "M")?;
                self.eq_case("two hashes of different lengths", EQ, &s2, &[h1.clone(), h2.clone()], &b1, &b2, false)?;
            }
            // hash with slice
            let mut s2 = s.clone();
            let arr = self.x.m.t.base("S", true);
            let (z, l) = (self.lc(0), self.lc(n));
            let a = self.slice_arg(&mut s2, arr, z, l);
            let sb = self.x.m.bytes(arr, z, n);
            let mut bs = vec![];
            for i in 0..n {
                bs.push(self.x.m.t.slice(sb, 8 * i as u32, 8));
            }
            let args = self.flat(&h1, &a);
            self.eq_case("hash and slice of the same length", EQ_SLICE, &s2, &args, &b1, &bs, true)?;
            // the digest itself as a slice
            for (s3, r) in self.total(&s, "Hash::as_bytes", &[h1.clone()])? {
                let args = self.flat(&h1, &r);
                self.eq_case("hash and its own bytes", EQ_SLICE, &s3, &args, &b1, &b1, true)?;
            }
            // any other length
            for (lo, hi) in [(0, n - 1), (n + 1, 1 << 62)] {
                let mut s2 = s.clone();
                let w = self.ptr_sz();
                let t = self.x.m.t.sym("S_len", w);
                let l = self.x.m.lift(&mut s2, t);
                let (mut e1, mut e2) = (self.x.m.t.l(l).clone(), lin_mul(self.x.m.t.l(l), -1));
                e1.c -= lo;
                e2.c += hi;
                s2.store().add_ge(&e1);
                s2.store().add_ge(&e2);
                let a = self.slice_arg(&mut s2, arr, z, l);
                let args = self.flat(&h1, &a);
                self.eq_case("hash and slice of another length", EQ_SLICE, &s2, &args, &b1, &[], false)?;
            }
        }
        Ok(())
    }
    fn flat(&mut self, a: &Rv, b: &Rv) -> Vec<Rv> {
        vec![a.clone(), b.clone()]
    }
}
