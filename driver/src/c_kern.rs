//! The compression kernels against RFC 7693.
use crate::checks::*;
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::term::*;
use rustc_public::mir::Mutability;
use rustc_public::ty::*;

/// the inputs of n lanes
pub struct Lanes {
    pub h: Vec<[T; 8]>,
    pub m: Vec<Arr>,
    pub t: Vec<T>,
    pub f0: Vec<T>,
    pub f1: Vec<T>,
}
/// what an argument is, by its type
#[derive(Clone, Copy, PartialEq, Debug)]
enum A1 {
    /// &mut [u32; 8]
    State,
    /// &mut [vector; 8]
    States(usize),
    Block,
    /// &[vector; 16]
    Blocks(usize),
    U64,
    U32,
    /// a vector of words, by value or by reference
    Words(usize, bool),
}
const SIMPLE: [&str; 2] = ["portable::compress", "sse41::compress"];
const MULTI: [&str; 4] = ["portable::compress8", "sse41::compress4_transposed", "avx2::compress8", "avx2::compress8_transposed_all"];
const VEC: [(&str, &str); 2] = [("portable::vectorize_words8", "portable::compress8_vectorized"), ("avx2::vectorize_words8", "avx2::compress8_vectorized")];

impl Ck {
    /// pointers to functions in a returned tuple or struct, by field
    pub fn fn_fields(&mut self, st: &St, v: &Rv, ty: Ty) -> Rs<Vec<FnId>> {
        use rustc_public::abi::FieldsShape;
        let n = self.x.size(ty);
        let p = self.x.m.ptr;
        let lay = self.x.layout(ty);
        let offs: Vec<i128> = match &lay.fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as i128).collect(),
            _ => vec![0],
        };
        let mut s = st.clone();
        let o = self.put(&mut s, n, v);
        let mut out = vec![];
        for off in offs {
            let (q, z, h) = (self.lc(off), self.lc(0), self.lc(n));
            match self.x.m.read_scalar(&s, o, q, p, z, h)? {
                Val::F(f) => out.push(f),
                _ => return unsup("a field is not a known function"),
            }
        }
        Ok(out)
    }
    pub fn lanes(&mut self, n: usize) -> Lanes {
        let mut l = Lanes { h: vec![], m: vec![], t: vec![], f0: vec![], f1: vec![] };
        for i in 0..n {
            let mut h = [0; 8];
            for j in 0..8 {
                h[j] = self.x.m.t.secret_sym(&format!("h{}_{}", i, j), 32);
            }
            l.h.push(h);
            l.m.push(self.x.m.t.base(&format!("block{}", i), true));
            l.t.push(self.x.m.t.sym(&format!("count{}", i), 64));
            l.f0.push(self.x.m.t.sym(&format!("lastblock{}", i), 32));
            l.f1.push(self.x.m.t.sym(&format!("lastnode{}", i), 32));
        }
        l
    }
    /// an object made of 32-bit words
    fn words_obj(&mut self, st: &mut St, w: &[T], native: bool) -> ObjId {
        let mut segs = vec![];
        for (i, t) in w.iter().enumerate() {
            let t = if native && self.x.m.big_endian { self.x.m.bswap(*t) } else { *t };
            let (lo, hi) = (self.lc(4 * i as i128), self.lc(4 * i as i128 + 4));
            segs.push(Seg { lo, hi, k: K::Cell(Val::I(t)) });
        }
        let size = self.lc(4 * w.len() as i128);
        st.new_root(Obj { size, segs, al: 5 })
    }
    fn read_word(&mut self, st: &St, o: ObjId, i: usize, native: bool) -> Rs<T> {
        let size = self.x.m.obj(st, o).size;
        let (q, z) = (self.lc(4 * i as i128), self.lc(0));
        match self.x.m.read_scalar(st, o, q, 4, z, size)? {
            Val::I(t) => Ok(if native && self.x.m.big_endian { self.x.m.bswap(t) } else { t }),
            _ => unsup("an output word is not tracked"),
        }
    }
    fn block_obj(&mut self, st: &mut St, a: Arr) -> ObjId {
        let (z, n) = (self.lc(0), self.lc(64));
        st.new_root(Obj { size: n, segs: vec![Seg { lo: z, hi: n, k: K::Src(a, z) }], al: 0 })
    }
    fn block_words(&mut self, a: Arr) -> [T; 16] {
        let mut m = [0; 16];
        for j in 0..16 {
            let b: Vec<T> = (0..4)
                .map(|q| {
                    let l = self.lc(4 * j as i128 + q);
                    self.x.m.t.byte(a, l)
                })
                .collect();
            m[j] = self.x.m.t.concat(&b);
        }
        m
    }
    fn classify(&mut self, f: FnId) -> Option<Vec<A1>> {
        let inst = self.x.fns[f as usize];
        let sig = inst.ty().kind().fn_sig()?.skip_binder();
        let mut out = vec![];
        for ty in sig.inputs().to_vec() {
            let (t, r, mu) = match ty.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, m)) => (t, true, m == Mutability::Mut),
                _ => (ty, false, false),
            };
            if matches!(t.kind(), TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..))) {
                return None;
            }
            let n = self.x.size(t);
            let len = self.x.array_len(t).map(|x| x as i128);
            let words = self.x.words_of(t)?;
            let native = words.iter().all(|w| w.2);
            let elem = match t.kind() {
                TyKind::RigidTy(RigidTy::Array(e, _)) => Some(self.x.size(e)),
                _ => None,
            };
            let w4 = words.iter().all(|w| w.1 == 4) && words.len() as i128 * 4 == n;
            out.push(match (r, mu, n, len) {
                (true, true, 32, Some(8)) if w4 && native => A1::State,
                (true, true, _, Some(8)) if w4 && elem? > 4 => A1::States((elem? / 4) as usize),
                (true, false, 64, Some(64)) => A1::Block,
                (true, false, _, Some(16)) if w4 && elem? > 4 => A1::Blocks((elem? / 4) as usize),
                (false, false, 8, None) if words.len() == 1 && native => A1::U64,
                (false, false, 4, None) if native => A1::U32,
                (_, false, 16 | 32, _) if w4 => A1::Words((n / 4) as usize, r),
                _ => return None,
            });
        }
        Some(out)
    }
    /// call a kernel on symbolic lanes; `states`: existing state object
    fn kernel_lanes(&mut self, st: &St, f: FnId, l: &Lanes, states: Option<ObjId>) -> Rs<Vec<(St, Vec<ObjId>)>> {
        let Some(sh) = self.classify(f) else { return unsup("the arguments of this function are not recognised") };
        let n = l.h.len();
        let mut st = st.clone();
        let mut args = vec![];
        let mut objs = vec![];
        let (mut ns, mut nb, mut nt, mut nf, mut nw) = (0, 0, 0, 0, 0);
        let native = true;
        for a in &sh {
            match *a {
                A1::State => {
                    if ns >= n {
                        return unsup("too many states");
                    }
                    let o = self.words_obj(&mut st, &l.h[ns], native);
                    objs.push(o);
                    args.push(self.ptr(&st, o));
                    ns += 1;
                }
                A1::States(k) => {
                    if k != n {
                        return unsup("number of lanes");
                    }
                    let o = match states {
                        Some(o) => o,
                        None => {
                            let mut w = vec![];
                            for j in 0..8 {
                                for i in 0..n {
                                    w.push(l.h[i][j]);
                                }
                            }
                            self.words_obj(&mut st, &w, false)
                        }
                    };
                    objs.push(o);
                    args.push(self.ptr(&st, o));
                    ns = n;
                }
                A1::Block => {
                    if nb >= n {
                        return unsup("too many blocks");
                    }
                    let o = self.block_obj(&mut st, l.m[nb]);
                    args.push(self.ptr(&st, o));
                    nb += 1;
                }
                A1::Blocks(k) => {
                    if k != n {
                        return unsup("number of lanes");
                    }
                    let bw: Vec<[T; 16]> = l.m.iter().map(|a| self.block_words(*a)).collect();
                    let mut w = vec![];
                    for j in 0..16 {
                        for i in 0..n {
                            w.push(bw[i][j]);
                        }
                    }
                    let o = self.words_obj(&mut st, &w, false);
                    args.push(self.ptr(&st, o));
                    nb = n;
                }
                A1::U64 => {
                    if nt >= n {
                        return unsup("too many counters");
                    }
                    args.push(Rv::S(Val::I(l.t[nt])));
                    nt += 1;
                }
                A1::U32 => {
                    if nf >= 2 * n {
                        return unsup("too many flags");
                    }
                    let t = if nf < n { l.f0[nf] } else { l.f1[nf - n] };
                    args.push(Rv::S(Val::I(t)));
                    nf += 1;
                }
                A1::Words(k, r) => {
                    if k != n || nw >= 4 {
                        return unsup("number of words");
                    }
                    let w: Vec<T> = (0..n)
                        .map(|i| match nw {
                            0 => self.x.m.t.slice(l.t[i], 0, 32),
                            1 => self.x.m.t.slice(l.t[i], 32, 32),
                            2 => l.f0[i],
                            _ => l.f1[i],
                        })
                        .collect();
                    let o = self.words_obj(&mut st, &w, r);
                    if r {
                        args.push(self.ptr(&st, o));
                    } else {
                        let segs = self.x.m.obj(&st, o).segs.clone();
                        args.push(Rv::B(segs));
                    }
                    nw += 1;
                }
            }
        }
        if ns != n || nb != n || !((nt == n && nf == 2 * n && nw == 0) || (nt == 0 && nf == 0 && nw == 4)) {
            return unsup("the arguments of this function are not recognised");
        }
        self.x.steps = 0;
        self.x.standalone += 1;
        let r = self.x.call(st, f, args);
        self.x.standalone -= 1;
        Ok(r?.into_iter().map(|(s, _)| (s, objs.clone())).collect())
    }
    fn want_lanes(&mut self, l: &Lanes) -> Vec<[T; 8]> {
        let mut out = vec![];
        for i in 0..l.h.len() {
            let m = self.block_words(l.m[i]);
            let (t0, t1) = (self.x.m.t.slice(l.t[i], 0, 32), self.x.m.t.slice(l.t[i], 32, 32));
            out.push(self.x.f_atoms(FArgs { h: l.h[i], m, t0, t1, f0: l.f0[i], f1: l.f1[i] }));
        }
        out
    }
    fn lanes_of(&mut self, st: &St, objs: &[ObjId], n: usize, rows: bool) -> Rs<Vec<[T; 8]>> {
        let mut out = vec![];
        for i in 0..n {
            let mut h = [0; 8];
            for j in 0..8 {
                h[j] = if objs.len() == n && n > 1 || n == 1 {
                    self.read_word(st, objs[i], j, true)?
                } else if rows {
                    self.read_word(st, objs[0], 8 * i + j, true)?
                } else {
                    self.read_word(st, objs[0], n * j + i, false)?
                };
            }
            out.push(h);
        }
        Ok(out)
    }
    fn cmp_lanes(&mut self, props: &[&str], what: &str, loc: &str, st: &St, got: &[[T; 8]], want: &[[T; 8]]) {
        let mut st = st.clone();
        for i in 0..want.len() {
            for j in 0..8 {
                let (g, w) = (got[i][j], want[i][j]);
                if g == w || self.x.m.teq(&mut st, g, w) {
                    continue;
                }
                match self.x.confirm(&st, &|ev| Some(ev.term(g)? != ev.term(w)?)) {
                    Some(p) => self.bad(props, what, &format!("word {} of lane {} differs from RFC 7693's compression of that lane", j, i), loc, &p),
                    None => self.unk(props, what, &format!("word {} of lane {} is not proved to be RFC 7693's", j, i)),
                }
                return;
            }
        }
        for _ in 0..want.len() {
            self.okk(props, what);
        }
    }
    fn fn_loc(&self, f: FnId) -> String {
        use rustc_public::CrateDef;
        span_str(&Some(self.x.fns[f as usize].def.span()))
    }
    fn one_kernel(&mut self, prop: &str, f: FnId, n: usize) {
        let name = self.x.fnames[f as usize].clone();
        let what = format!("{} is F in every lane", name);
        let loc = self.fn_loc(f);
        let st = self.x.new_st();
        let l = self.lanes(n);
        let r = self.kernel_lanes(&st, f, &l, None);
        let want = self.want_lanes(&l);
        let r = r.and_then(|v| {
            for (s, o) in v {
                let got = self.lanes_of(&s, &o, n, false)?;
                self.cmp_lanes(&[prop], &what, &loc, &s, &got, &want);
            }
            Ok(())
        });
        if let Err(e) = r {
            let e = self.err(e);
            self.unk(&[prop], &what, &e);
        }
    }
    /// the word matrix form: transpose, compress, transpose back
    fn pair_kernel(&mut self, v: FnId, c: FnId) {
        let (vn, cn) = (self.x.fnames[v as usize].clone(), self.x.fnames[c as usize].clone());
        let what = format!("{} between two {} is F in every lane", cn, vn);
        let what2 = format!("{} twice restores the words", vn);
        let loc = self.fn_loc(c);
        let l = self.lanes(8);
        let want = self.want_lanes(&l);
        let r = (|| -> Rs<()> {
            let mut st = self.x.new_st();
            let w: Vec<T> = l.h.iter().flat_map(|h| h.iter().cloned()).collect();
            let o = self.words_obj(&mut st, &w, true);
            let p = self.ptr(&st, o);
            self.x.standalone += 1;
            let a = self.x.call(st.clone(), v, vec![p.clone()]);
            self.x.standalone -= 1;
            for (s, _) in a? {
                self.x.standalone += 1;
                let b = self.x.call(s.clone(), v, vec![p.clone()]);
                self.x.standalone -= 1;
                for (s, _) in b? {
                    let got = self.lanes_of(&s, &[o], 8, true)?;
                    let h = l.h.clone();
                    self.cmp_lanes(&["C02"], &what2, &loc, &s, &got, &h);
                }
                for (s, _) in self.kernel_lanes(&s, c, &l, Some(o))? {
                    self.x.standalone += 1;
                    let b = self.x.call(s.clone(), v, vec![p.clone()]);
                    self.x.standalone -= 1;
                    for (s, _) in b? {
                        let got = self.lanes_of(&s, &[o], 8, true)?;
                        self.cmp_lanes(&["C02"], &what, &loc, &s, &got, &want);
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            let e = self.err(e);
            self.unk(&["C02"], &what, &e);
        }
    }
    /// a kernel that a build for this processor need not have
    fn absent(&self, n: &str) -> bool {
        let a: Vec<String> = std::env::args().collect();
        let t = a.windows(2).find(|w| w[0] == "--target").map(|w| w[1].clone());
        let x86 = t.map_or(true, |t| t.starts_with("x86_64") || t.starts_with("i686"));
        !x86 && (n.starts_with("sse41::") || n.starts_with("avx2::"))
    }
    pub fn kernels(&mut self) -> Rs<()> {
        let mut done: Vec<FnId> = vec![];
        let mut pairs: Vec<(FnId, FnId)> = vec![];
        for n in SIMPLE {
            match self.f(n) {
                Ok(f) => {
                    done.push(f);
                    self.one_kernel("C01", f, 1);
                }
                Err(_) if self.absent(n) => {}
                Err(_) => self.unk(&["C01"], n, "no such function"),
            }
        }
        for n in MULTI {
            match self.f(n) {
                Ok(f) => {
                    done.push(f);
                    let k = if n.contains("compress4") { 4 } else { 8 };
                    self.one_kernel("C02", f, k);
                }
                Err(_) if self.absent(n) => {}
                Err(_) => self.unk(&["C02"], n, "no such function"),
            }
        }
        for (v, c) in VEC {
            match (self.f(v), self.f(c)) {
                (Ok(v), Ok(c)) => pairs.push((v, c)),
                _ if self.absent(c) => {}
                _ => self.unk(&["C02"], c, "no such function"),
            }
        }
        // whatever run-time dispatch selects
        let st = self.x.new_st();
        if let Ok(d) = self.f("default_compress_impl") {
            let ty = self.x.ret_ty(d).unwrap();
            for (s, v) in self.call(&st, "default_compress_impl", &[])? {
                let fs = self.fn_fields(&s, &v, ty)?;
                for f in &fs {
                    let Some(sh) = self.classify(*f) else { continue };
                    let k = sh.iter().filter(|a| **a == A1::State).count();
                    if k > 0 && !done.contains(f) {
                        done.push(*f);
                        self.one_kernel(if k == 1 { "C01" } else { "C02" }, *f, k);
                    }
                }
                let vs: Vec<FnId> = fs.iter().cloned().filter(|f| self.classify(*f) == Some(vec![A1::States(8)])).collect();
                let cs: Vec<FnId> = fs.iter().cloned().filter(|f| self.classify(*f).map(|s| s.len() > 1 && s[0] == A1::States(8)).unwrap_or(false)).collect();
                if let ([v], [c]) = (&vs[..], &cs[..]) {
                    if !pairs.contains(&(*v, *c)) {
                        pairs.push((*v, *c));
                    }
                }
            }
        }
        for (v, c) in pairs {
            self.pair_kernel(v, c);
        }
        Ok(())
    }
}
