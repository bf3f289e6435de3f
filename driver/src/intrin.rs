//! Built-in semantics: compiler intrinsics, SIMD primitives, feature detection, formatting.
use crate::interp::*;
use crate::mem::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

/// something handed to the formatting machinery
#[derive(Clone)]
pub struct FmtCall {
    pub what: String,
    pub segs: Vec<Seg>,
    pub st: St,
    pub stack: Vec<String>,
}

type Outs = Vec<(St, Rv)>;

fn strip_generics(name: &str) -> String {
    let mut d = 0;
    let mut out = String::new();
    let b: Vec<char> = name.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '<' => d += 1,
            '>' if i > 0 && b[i - 1] == '-' => {}
            '>' => d -= 1,
            c => {
                if d == 0 {
                    out.push(c);
                }
            }
        }
        i += 1;
    }
    while out.contains("::::") {
        out = out.replace("::::", "::");
    }
    out.trim_end_matches("::").to_string()
}

pub fn targ(inst: &Instance, i: usize) -> Option<Ty> {
    inst.args().0.iter().filter_map(|a| a.ty()).nth(i).copied()
}

impl X {
    fn bits(&mut self, v: &Rv, n: i128) -> Option<T> {
        match self.sc(v, n) {
            Val::I(t) => Some(t),
            _ => None,
        }
    }
    fn simd_elem(&mut self, ty: Ty) -> Option<(Ty, usize)> {
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = ty.kind() {
            let f = d.variants().get(0)?.fields();
            let t = f.get(0)?.ty_with_args(&a);
            if let TyKind::RigidTy(RigidTy::Array(e, n)) = t.kind() {
                return Some((e, n.eval_target_usize().ok()? as usize));
            }
            return None;
        }
        None
    }
    fn elems(&mut self, v: &Rv, ty: Ty) -> Rs<Option<Vec<T>>> {
        let (e, n) = match self.simd_elem(ty) {
            Some(x) => x,
            None => return unsup("simd type"),
        };
        let es = self.size(e);
        let t = match self.bits(v, es * n as i128) {
            Some(t) => t,
            None => return Ok(None),
        };
        Ok(Some((0..n).map(|i| self.m.t.slice(t, (8 * es) as u32 * i as u32, 8 * es as u32)).collect()))
    }
    fn top_rv(&mut self, n: i128) -> Rv {
        if n == 0 {
            return Rv::B(vec![]);
        }
        let (z, e) = (self.m.t.lc(0), self.m.t.lc(n));
        Rv::B(vec![Seg { lo: z, hi: e, k: K::Top }])
    }
    pub fn ret_ty(&mut self, f: FnId) -> Option<Ty> {
        let k = self.fns[f as usize].ty().kind();
        match k {
            TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::FnPtr(..)) => k.fn_sig().map(|s| s.skip_binder().output()),
            _ => None,
        }
    }
    /// bytes a pointer value points at (the extent it was derived from)
    pub fn pointee(&mut self, st: &mut St, v: Val, n: Option<L>) -> Vec<Seg> {
        if let Val::P(p) = v {
            let off = p.off.unwrap_or(p.lo);
            let n = match n {
                Some(n) => n,
                None => self.m.t.lsub(p.hi, off),
            };
            if self.m.t.lconst(n) == Some(0) {
                return vec![];
            }
            if p.off.is_some() {
                if let Ok(s) = self.m.read_range(st, p.o, off, n) {
                    return s;
                }
            }
        }
        let (lo, hi) = (self.m.t.lc(0), self.m.t.lc(1));
        vec![Seg { lo, hi, k: K::Top }]
    }
    pub fn builtin(&mut self, st: &St, f: FnId, name: &str, args: &[Rv]) -> Rs<Option<Outs>> {
        let inst = self.fns[f as usize];
        let mut st = st.clone();
        if let Some(n) = inst.intrinsic_name() {
            let n = n.to_string();
            if let Some(r) = self.intrinsic(&mut st, f, &inst, &n, args)? {
                return Ok(Some(r));
            }
            // intrinsics with a fallback body
            if inst.has_body() {
                return Ok(None);
            }
            return unsup(format!("intrinsic {}", n));
        }
        if name.ends_with(" as std::clone::Clone>::clone") && self.fb(f).is_none() && args.len() == 1 {
            // built-in copy (function pointers, arrays of Copy values, ...)
            let ty = self.ret_ty(f).unwrap();
            let p = self.m.ptr;
            let v = self.sc(&args[0], p);
            let pl = self.place_of(&mut st, v, None, ty)?;
            let v = self.read_place(&mut st, &pl)?;
            return Ok(Some(vec![(st, v)]));
        }
        let plain = strip_generics(name);
        if plain.contains("__is_feature_detected") {
            let feat = plain.rsplit("::").next().unwrap().to_string();
            let id = self.m.t.name(&format!("feature:{}", feat));
            let k = self.m.t.k(32, id as u128);
            let c = self.m.t.op(Op::Feature, 1, vec![k]);
            let v = self.bool_val(c);
            return Ok(Some(vec![(st, Rv::S(v))]));
        }
        if plain.ends_with("::pshufb128") || plain.ends_with("::pshufb") || plain.ends_with("avx2::pshufb") {
            let ty = match inst.ty().kind().fn_sig() {
                Some(s) => s.skip_binder().inputs()[0],
                None => return unsup("pshufb"),
            };
            let (a, m) = match (self.elems(&args[0], ty)?, self.elems(&args[1], ty)?) {
                (Some(a), Some(m)) => (a, m),
                _ => {
                    let n = self.size(ty);
                    let r = self.top_rv(n);
                    return Ok(Some(vec![(st, r)]));
                }
            };
            let mut out = vec![];
            for (i, x) in m.iter().enumerate() {
                let c = match self.m.t.as_const(*x) {
                    Some(c) => c,
                    None => return unsup("variable byte shuffle"),
                };
                if c & 0x80 != 0 {
                    out.push(self.m.t.k(8, 0));
                } else {
                    out.push(a[(i / 16) * 16 + (c & 15) as usize]);
                }
            }
            let t = self.m.t.concat(&out);
            return Ok(Some(vec![(st, Rv::S(Val::I(t)))]));
        }
        if plain.contains("core::fmt::") || plain.contains("std::fmt::") || plain.starts_with("fmt::") || name.contains("::fmt::Formatter") {
            return self.fmt_call(&mut st, f, &inst, &plain, args);
        }
        Ok(None)
    }

    // ---------- formatting
    fn record(&mut self, st: &mut St, what: &str, segs: Vec<Seg>) {
        let stack = self.stack.iter().map(|x| x.0.clone()).collect();
        st.log.push(self.fmt.len() as u32);
        self.fmt.push(FmtCall { what: what.to_string(), segs, st: st.clone(), stack });
    }
    pub fn is_local_fn(&self, f: FnId) -> bool {
        // implementations written in (or derived in) the crate under analysis
        self.fns[f as usize].def.krate().is_local
    }
    /// a value of type `ty` behind `p` is shown
    fn show_value(&mut self, st: &mut St, what: &str, ty: Ty, v: Val, meta: Option<Val>, g: Option<FnId>) -> Rs<()> {
        if let Some(g) = g {
            if self.is_local_fn(g) {
                let fo = self.formatter(st);
                return self.nested(st, g, v, fo);
            }
        }
        let mut ty = ty;
        let mut v = v;
        let mut meta = meta;
        for _ in 0..6 {
            match ty.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
                    let p = self.place_of(st, v, None, ty)?;
                    let q = self.deref(st, &p, t)?;
                    v = match (q.o, q.off) {
                        (Some(o), off) => Val::P(Ptr { o, off, lo: q.lo, hi: q.hi }),
                        _ => Val::Top,
                    };
                    meta = q.meta;
                    ty = t;
                }
                _ => break,
            }
        }
        let n = match ty.kind() {
            TyKind::RigidTy(RigidTy::Str) => match meta {
                Some(m) => self.int(st, m),
                None => None,
            },
            TyKind::RigidTy(RigidTy::Slice(e)) => {
                let es = self.size(e);
                match meta {
                    Some(m) => self.int(st, m).map(|l| self.m.t.lmul(l, es)),
                    None => None,
                }
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                if let Some(Val::F(g)) = meta {
                    if self.is_local_fn(g) {
                        let fo = self.formatter(st);
                        return self.nested(st, g, v, fo);
                    }
                }
                None
            }
            _ => {
                // local types go through their own implementation
                if let Some(g) = self.fmt_impl(ty, what) {
                    if self.is_local_fn(g) {
                        let fo = self.formatter(st);
                        return self.nested(st, g, v, fo);
                    }
                    // array strings show their initialised part only
                    if self.fnames[g as usize].contains("ArrayString") {
                        return self.show_arraystring(st, what, ty, v);
                    }
                }
                let n = self.size(ty);
                Some(self.m.t.lc(n))
            }
        };
        let segs = self.pointee(st, v, n);
        self.record(st, what, segs);
        Ok(())
    }
    /// an implementation of the crate shows a value
    fn nested(&mut self, st: &mut St, g: FnId, v: Val, fo: Val) -> Rs<()> {
        let mut outs = self.call(st.clone(), g, vec![Rv::S(v), Rv::S(fo)])?;
        match outs.pop() {
            Some((s, _)) if outs.is_empty() => st.log = s.log,
            _ => st.log.push(u32::MAX),
        }
        Ok(())
    }
    fn show_arraystring(&mut self, st: &mut St, what: &str, ty: Ty, v: Val) -> Rs<()> {
        // `deref` to &str, then the text itself
        let g = self.fmt_impl(ty, what).unwrap();
        // the Display body starts by dereferencing; find the Deref call in it
        if let Some(fb) = self.fb(g) {
            for b in &fb.body.blocks {
                if let rustc_public::mir::TerminatorKind::Call { func, .. } = &b.terminator.kind {
                    if let Ok(t) = func.ty(fb.body.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                            if d.name().to_string().ends_with("deref") {
                                let i = Instance::resolve(d, &a).map_err(|e| Er::Unsup(format!("{:?}", e)))?;
                                let id = self.fnid(i);
                                for (mut s, r) in self.call(st.clone(), id, vec![Rv::S(v)])? {
                                    let (p, m) = self.split_fat(&r)?;
                                    let n = self.int(&mut s, m);
                                    let segs = self.pointee(&mut s, p, n);
                                    self.record(&mut s, what, segs);
                                    st.log = s.log.clone();
                                }
                                return Ok(());
                            }
                        }
                    }
                }
            }
        }
        let n = self.size(ty);
        let n = self.m.t.lc(n);
        let segs = self.pointee(st, v, Some(n));
        self.record(st, what, segs);
        Ok(())
    }
    fn fmt_impl(&mut self, ty: Ty, what: &str) -> Option<FnId> {
        let tr = if what.contains("new_display") {
            "Display"
        } else if what.contains("lower_hex") {
            "LowerHex"
        } else if what.contains("upper_hex") {
            "UpperHex"
        } else {
            "Debug"
        };
        let td = rustc_public::all_trait_decls().into_iter().find(|t| {
            let n = t.name().to_string();
            n.ends_with(&format!("fmt::{}", tr))
        })?;
        for it in td.associated_items() {
            let n = it.def_id.name().to_string();
            if n.ends_with("::fmt") {
                let fd = FnDef(it.def_id.def_id());
                let ga = GenericArgs(vec![GenericArgKind::Type(ty)]);
                let i = Instance::resolve(fd, &ga).ok()?;
                return Some(self.fnid(i));
            }
        }
        None
    }
    /// method implementing a single-method formatting trait for unsized coercions
    pub fn dyn_fmt(&mut self, ty: Ty, tr: &str) -> Option<FnId> {
        let w = match tr.rsplit("::").next().unwrap_or("") {
            "Debug" => "new_debug",
            "Display" => "new_display",
            "LowerHex" => "lower_hex",
            "UpperHex" => "upper_hex",
            _ => return None,
        };
        self.fmt_impl(ty, w)
    }
    pub fn formatter(&mut self, st: &mut St) -> Val {
        let size = self.m.t.lc(256);
        let ob = self.m.new_obj(size, K::Top);
        let o = st.new_root(ob);
        let z = self.m.t.lc(0);
        Val::P(Ptr { o, off: Some(z), lo: z, hi: size })
    }
    /// The options of the placeholders of a template (encoded as documented at `fmt::Arguments`): a
    /// precision cuts the text recorded for its argument, anything else but the defaults marks it.
    fn placeholders(&mut self, st: &mut St, segs: &[Seg]) {
        let n = match segs.last().and_then(|s| self.m.t.lconst(s.hi)) {
            Some(n) if n < 4096 => n,
            _ => return,
        };
        let size = self.m.t.lc(n);
        let z = self.m.t.lc(0);
        let mut tmp = st.clone();
        let o = tmp.new_root(Obj { size, segs: segs.to_vec(), al: 0 });
        let mut b = vec![];
        for i in 0..n {
            let q = self.m.t.lc(i);
            match self.m.read_scalar(&tmp, o, q, 1, z, size) {
                Ok(Val::I(t)) => match self.m.t.as_const(t) {
                    Some(c) => b.push(c as usize),
                    None => return,
                },
                _ => return,
            }
        }
        b.resize(b.len() + 12, 0);
        // (argument, precision, other options)
        let mut ph: Vec<(usize, Option<usize>, bool)> = vec![];
        let (mut i, mut arg) = (0, 0);
        while i < n as usize {
            let c = b[i];
            i += 1;
            let w = |i: usize| b[i] + 256 * b[i + 1];
            match c {
                0 => break,
                1..=0x7f => i += c,
                0x80 => i += 2 + w(i),
                0x81..=0xbf => return,
                _ => {
                    let (mut prec, mut odd) = (None, c & 0x30 != 0);
                    if c & 1 != 0 {
                        // sign, alternate form, zero padding, hexadecimal debug forms
                        odd |= (w(i) | w(i + 2) << 16) >> 21 & 0x3f != 0;
                        i += 4;
                    }
                    if c & 2 != 0 {
                        odd |= w(i) != 0;
                        i += 2;
                    }
                    if c & 4 != 0 {
                        prec = Some(w(i));
                        i += 2;
                    }
                    if c & 8 != 0 {
                        arg = w(i);
                        i += 2;
                    }
                    ph.push((arg, prec, odd));
                    arg += 1;
                }
            }
        }
        if ph.iter().all(|x| x.1.is_none() && !x.2) {
            return;
        }
        let k = ph.iter().map(|x| x.0 + 1).max().unwrap_or(0);
        // the arguments are the records before this one
        let l = st.log.len();
        let mine: Vec<usize> = if l >= k { st.log[l - k..].iter().map(|x| *x as usize).collect() } else { vec![] };
        let plain = mine.len() == k && mine.iter().all(|x| *x < self.fmt.len() && self.fmt[*x].what.starts_with("new_"));
        for (a, prec, odd) in ph {
            if !plain {
                // which argument is meant is not known
                for x in st.log.clone() {
                    if (x as usize) < self.fmt.len() {
                        self.fmt[x as usize].what += "(opts)";
                    }
                }
                return;
            }
            let c = &mut self.fmt[mine[a]];
            match prec {
                Some(p) if !odd && c.what == "new_display" => {
                    let mut s = c.segs.clone();
                    let full = s.last().and_then(|x| self.m.t.lconst(x.hi));
                    let mut ok = false;
                    if let Some(h) = full {
                        ok = h <= p as i128;
                        if !ok {
                            let pl = self.m.t.lc(p as i128);
                            let hl = self.m.t.lc(h);
                            if let Ok(at) = self.m.cut(&tmp, &mut s, hl, pl) {
                                s.truncate(at);
                                ok = true;
                                c.segs = s;
                            }
                        }
                    }
                    if !ok {
                        c.what += "(opts)";
                    }
                }
                None if !odd => {}
                _ => c.what += "(opts)",
            }
        }
    }
    fn fmt_call(&mut self, st: &mut St, f: FnId, inst: &Instance, plain: &str, args: &[Rv]) -> Rs<Option<Outs>> {
        let last = plain.rsplit("::").next().unwrap_or("").to_string();
        let rty = self.ret_ty(f);
        let rn = match rty {
            Some(t) => self.size(t),
            None => return Ok(None),
        };
        if self.is_local_fn(f) {
            return Ok(None);
        }
        let p = self.m.ptr;
        if plain.contains("Argument") && last.starts_with("new") && !plain.contains("Arguments") {
            let ty = targ(inst, 0);
            if let Some(ty) = ty {
                let (v, meta) = if self.layout(ty).is_unsized() {
                    let (a, b) = self.split_fat(&args[0])?;
                    (a, Some(b))
                } else {
                    (self.sc(&args[0], p), None)
                };
                self.show_value(st, &last, ty, v, meta, None)?;
            }
            let r = self.top_rv(rn);
            return Ok(Some(vec![(st.clone(), r)]));
        }
        if plain.contains("Arguments") {
            // the fixed text
            if let (Some(sig), Some(a)) = (inst.ty().kind().fn_sig().map(|s| s.skip_binder()), args.first()) {
                if let Some(to) = sig.inputs().first().and_then(|t| t.kind().builtin_deref(true)) {
                    let (v, n) = if self.layout(to.ty).is_unsized() {
                        let (v, m) = self.split_fat(a)?;
                        (v, self.int(st, m))
                    } else {
                        let n = self.size(to.ty);
                        (self.sc(a, p), Some(self.m.t.lc(n)))
                    };
                    let segs = self.pointee(st, v, n);
                    if last == "new" {
                        self.placeholders(st, &segs);
                    }
                    self.record(st, "text", segs);
                }
            }
            let r = self.top_rv(rn);
            return Ok(Some(vec![(st.clone(), r)]));
        }
        if plain.contains("Formatter") || plain.contains("builders") || plain.contains("Debug") || last == "fmt" || last.starts_with("write") {
            let sig = inst.ty().kind().fn_sig().map(|s| s.skip_binder());
            if let Some(sig) = sig {
                let ins = sig.inputs().to_vec();
                for (i, a) in args.iter().enumerate() {
                    if i >= ins.len() {
                        break;
                    }
                    if let Some(to) = ins[i].kind().builtin_deref(true) {
                        let tn = format!("{:?}", to.ty.kind());
                        if tn.contains("Formatter") || tn.contains("builders::") || tn.contains("DebugStruct") || tn.contains("DebugTuple") || tn.contains("DebugList") || tn.contains("Arguments") {
                            continue;
                        }
                        let (v, meta) = if self.layout(to.ty).is_unsized() {
                            let (a, b) = self.split_fat(a)?;
                            (a, Some(b))
                        } else {
                            (self.sc(a, p), None)
                        };
                        self.show_value(st, &last, to.ty, v, meta, None)?;
                    }
                }
            }
            // builders return themselves
            if let Some(t) = rty {
                if t.kind().is_ref() && rn == p && !args.is_empty() {
                    let v = self.sc(&args[0], p);
                    return Ok(Some(vec![(st.clone(), Rv::S(v))]));
                }
                // Result<(), Error> / bool: a byte nobody tracks
            }
            if rn == 1 {
                // success or failure, the same for the same output so far
                let id = self.m.t.sym(&format!("fmt_error{}", st.log.len()), 1);
                let v = self.bool_val(id);
                return Ok(Some(vec![(st.clone(), Rv::S(v))]));
            }
            let r = self.top_rv(rn);
            return Ok(Some(vec![(st.clone(), r)]));
        }
        Ok(None)
    }

    // ---------- intrinsics
    fn intrinsic(&mut self, st: &mut St, f: FnId, inst: &Instance, n: &str, args: &[Rv]) -> Rs<Option<Outs>> {
        let p = self.m.ptr;
        let pw = 8 * p as u32;
        let t0 = targ(inst, 0);
        let one = |x: &St, v: Rv| Ok(Some(vec![(x.clone(), v)]));
        let unit = Rv::B(vec![]);
        match n {
            "size_of" => {
                let s = self.size(t0.unwrap());
                let v = self.k(pw, s as u128);
                return one(st, Rv::S(v));
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let a = self.layout(t0.unwrap()).abi_align;
                let v = self.k(pw, a as u128);
                return one(st, Rv::S(v));
            }
            "size_of_val" => {
                let ty = t0.unwrap();
                if self.layout(ty).is_unsized() {
                    let (_, m) = self.split_fat(&args[0])?;
                    let es = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Slice(e)) => self.size(e),
                        TyKind::RigidTy(RigidTy::Str) => 1,
                        _ => return unsup("size_of_val"),
                    };
                    if let Val::I(t) = m {
                        let w = self.m.t.w(t);
                        let c = self.m.t.k(w, es as u128);
                        return one(st, Rv::S(Val::I(self.m.t.mul(t, c))));
                    }
                    return one(st, Rv::S(Val::Top));
                }
                let s = self.size(ty);
                let v = self.k(pw, s as u128);
                return one(st, Rv::S(v));
            }
            "align_of_val" => {
                let a = self.layout(t0.unwrap()).abi_align;
                let v = self.k(pw, a as u128);
                return one(st, Rv::S(v));
            }
            "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" | "volatile_copy_memory" => {
                let es = self.size(t0.unwrap());
                let (mut s, mut d, c) = (self.sc(&args[0], p), self.sc(&args[1], p), self.sc(&args[2], p));
                if n.starts_with("volatile") {
                    std::mem::swap(&mut s, &mut d);
                }
                if n == "copy_nonoverlapping" {
                    self.overlap_check(st, s, d, c, es)?;
                }
                self.memcpy(st, s, d, c, es)?;
                return one(st, unit);
            }
            "write_bytes" | "volatile_set_memory" => {
                let es = self.size(t0.unwrap());
                let (d, b, c) = (self.sc(&args[0], p), self.sc(&args[1], 1), self.sc(&args[2], p));
                let len = match self.int(st, c) {
                    Some(l) => self.m.t.lmul(l, es),
                    None => return unsup("write_bytes of untracked length"),
                };
                if self.m.t.lconst(len) == Some(0) {
                    return one(st, unit);
                }
                let z = self.m.t.lc(0);
                let k = match b {
                    Val::I(t) => K::Fill(t),
                    _ => K::Top,
                };
                let pl = self.place_of(st, d, None, Ty::bool_ty())?;
                self.store_range(st, &pl, len, &[Seg { lo: z, hi: len, k }])?;
                return one(st, unit);
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
                let ty = t0.unwrap();
                let v = self.sc(&args[0], p);
                let pl = self.place_of(st, v, None, ty)?;
                let r = self.read_place(st, &pl)?;
                return one(st, r);
            }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
                let ty = t0.unwrap();
                let v = self.sc(&args[0], p);
                let pl = self.place_of(st, v, None, ty)?;
                self.write_place(st, &pl, &args[1])?;
                return one(st, unit);
            }
            "typed_swap_nonoverlapping" => {
                let ty = t0.unwrap();
                let (a, b) = (self.sc(&args[0], p), self.sc(&args[1], p));
                let pa = self.place_of(st, a, None, ty)?;
                let pb = self.place_of(st, b, None, ty)?;
                let va = self.read_place(st, &pa)?;
                let vb = self.read_place(st, &pb)?;
                self.write_place(st, &pa, &vb)?;
                self.write_place(st, &pb, &va)?;
                return one(st, unit);
            }
            "offset" | "arith_offset" => {
                // T is the pointer type for `offset`, the pointee for `arith_offset`
                let ty = t0.unwrap();
                let e = if n == "offset" { ty.kind().builtin_deref(true).unwrap().ty } else { ty };
                let es = self.size(e);
                let (a, d) = (self.sc(&args[0], p), self.sc(&args[1], p));
                let v = self.ptr_add(st, a, d, es, false)?;
                return one(st, Rv::S(v));
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let es = self.size(t0.unwrap());
                let (a, b) = (self.sc(&args[0], p), self.sc(&args[1], p));
                if let (Val::P(x), Val::P(y)) = (a, b) {
                    if x.o == y.o {
                        if let (Some(u), Some(v)) = (x.off, y.off) {
                            let d = self.m.t.lsub(u, v);
                            let l = self.m.t.l(d).clone();
                            if l.c % es == 0 && l.v.iter().all(|q| q.1 % es == 0) {
                                let q = Lin { v: l.v.iter().map(|q| (q.0, q.1 / es)).collect(), c: l.c / es };
                                let t = self.m.t.mk_sum(pw, q);
                                return one(st, Rv::S(Val::I(t)));
                            }
                            return unsup("pointer difference");
                        }
                    }
                }
                return one(st, Rv::S(Val::Top));
            }
            "ptr_mask" => return unsup("ptr_mask"),
            "ptr_metadata" => {
                let r = self.ret_ty(f).unwrap();
                if self.size(r) == 0 {
                    return one(st, unit);
                }
                let (_, m) = self.split_fat(&args[0])?;
                return one(st, Rv::S(m));
            }
            "aggregate_raw_ptr" => {
                let r = self.ret_ty(f).unwrap();
                if self.size(r) == p {
                    return one(st, args[0].clone());
                }
                let a = self.sc(&args[0], p);
                let b = self.sc(&args[1], p);
                let v = self.fat(a, b);
                return one(st, v);
            }
            "slice_get_unchecked" => {
                // <ItemPtr, SlicePtr, T>(slice_ptr, index) -> ItemPtr
                let e = targ(inst, 2).unwrap();
                let es = self.size(e);
                let (a, _) = self.split_fat(&args[0])?;
                let i = self.sc(&args[1], p);
                let v = self.ptr_add(st, a, i, es, false)?;
                return one(st, Rv::S(v));
            }
            "black_box" | "transmute" | "transmute_unchecked" | "likely" | "unlikely" => return one(st, args[0].clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => return one(st, unit),
            "assume" => {
                if let Val::I(t) = self.sc(&args[0], 1) {
                    let b = self.m.t.slice(t, 0, 1);
                    if !self.decide(st, b)? {
                        return Err(Er::Dead);
                    }
                }
                return one(st, unit);
            }
            "unreachable" => {
                self.event(EvK::Undef, st, "code declared unreachable is reached".into(), false);
                return Err(Er::Dead);
            }
            "abort" | "abort_immediate" => {
                self.event(EvK::Panic, st, "abort".into(), false);
                return Err(Er::Dead);
            }
            "needs_drop" => {
                let i = Instance::resolve_drop_in_place(t0.unwrap());
                let v = self.k(8, !i.is_empty_shim() as u128);
                return one(st, Rv::S(v));
            }
            "ub_checks" | "contract_checks" => {
                let v = self.k(8, 0);
                return one(st, Rv::S(v));
            }
            "overflow_checks" => {
                let v = self.k(8, 1);
                return one(st, Rv::S(v));
            }
            "is_val_statically_known" => {
                let v = self.k(8, 0);
                return one(st, Rv::S(v));
            }
            "discriminant_value" => {
                let v = self.sc(&args[0], p);
                let pl = self.place_of(st, v, None, t0.unwrap())?;
                let r = self.ret_ty(f).unwrap();
                let w = 8 * self.size(r) as u32;
                let d = self.discriminant(st, &pl, w)?;
                return one(st, Rv::S(d));
            }
            "const_eval_select" => {
                let k = inst.args().0.iter().filter_map(|a| a.ty()).copied().collect::<Vec<_>>();
                // ARG, F, G, RET: run time uses G
                let g = k[2];
                let (i, clos) = match g.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => (Instance::resolve(d, &a).map_err(|e| Er::Unsup(format!("{:?}", e)))?, false),
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => (Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| Er::Unsup(format!("{:?}", e)))?, true),
                    _ => return unsup("const_eval_select"),
                };
                let id = self.fnid(i);
                let tup = k[0];
                let mut v = vec![];
                if clos {
                    v.push(args[2].clone());
                }
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = tup.kind() {
                    let total = self.size(tup);
                    let segs = self.segs_of(&args[0], total);
                    let size = self.m.t.lc(total);
                    let o = st.new_root(Obj { size, segs, al: 0 });
                    for (i, ty) in ts.iter().enumerate() {
                        let z = self.m.t.lc(0);
                        let pl = Place_ { o: Some(o), off: Some(z), lo: z, hi: size, ty: tup, meta: None, variant: None };
                        let q = self.field(pl, i, *ty);
                        v.push(self.read_place(st, &q)?);
                    }
                    let fr = std::rc::Rc::make_mut(&mut st.fr[0]);
                    fr.pop();
                }
                return Ok(Some(self.call(st.clone(), id, v)?));
            }
            "select_unpredictable" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let c = self.sc(&args[0], 1);
                return match c {
                    Val::I(t) => {
                        let b = self.m.t.slice(t, 0, 1);
                        let r = if self.decide(st, b)? { args[1].clone() } else { args[2].clone() };
                        one(st, r)
                    }
                    _ => {
                        let r = self.top_rv(sz);
                        one(st, r)
                    }
                };
            }
            "caller_location" => return one(st, Rv::S(Val::Top)),
            "type_name" => {
                let r = self.top_rv(2 * p);
                return one(st, r);
            }
            "raw_eq" | "compare_bytes" => {
                let (a, b) = (self.sc(&args[0], p), self.sc(&args[1], p));
                let len = if n == "raw_eq" {
                    let s = self.size(t0.unwrap());
                    Some(self.m.t.lc(s))
                } else {
                    let c = self.sc(&args[2], p);
                    self.int(st, c)
                };
                let len = match len {
                    Some(l) => l,
                    None => return unsup("comparison of untracked length"),
                };
                let (pa, pb) = (self.place_of(st, a, None, Ty::bool_ty())?, self.place_of(st, b, None, Ty::bool_ty())?);
                let (sa, sb) = (self.load_range(st, &pa, len)?, self.load_range(st, &pb, len)?);
                if self.standalone == 0 && (self.segs_secret(&sa) || self.segs_secret(&sb)) {
                    self.event(EvK::VarTime, st, "bytes compared with a comparison that stops at the first difference".into(), false);
                }
                let w = if n == "raw_eq" { 8 } else { 32 };
                let c = match (self.m.t.lconst(len), self.bits_of_segs(&sa), self.bits_of_segs(&sb)) {
                    (Some(0), _, _) => self.m.t.k(1, 1),
                    (Some(_), Some(x), Some(y)) if self.m.t.w(x) == self.m.t.w(y) => self.m.t.op(Op::Eq, 1, vec![x, y]),
                    _ => self.m.t.fresh_unk(1),
                };
                let r = if n == "raw_eq" {
                    self.m.t.zext(c, w)
                } else {
                    // 0 when equal, something else otherwise
                    let nc = self.m.t.not(c);
                    self.m.t.zext(nc, w)
                };
                return one(st, Rv::S(Val::I(r)));
            }
            "rotate_left" | "rotate_right" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let (x, s) = (self.sc(&args[0], sz), self.sc(&args[1], 4));
                return match (x, s) {
                    (Val::I(x), Val::I(s)) => match self.m.t.as_const(s) {
                        Some(c) => {
                            let w = self.m.t.w(x);
                            let c = (c as u32) % w;
                            let r = if n == "rotate_left" { self.m.t.rotl(x, c) } else { self.m.t.rotr(x, c) };
                            one(st, Rv::S(Val::I(r)))
                        }
                        None => unsup("variable rotate"),
                    },
                    _ => one(st, Rv::S(Val::Top)),
                };
            }
            "bswap" => {
                let sz = self.size(t0.unwrap());
                return match self.sc(&args[0], sz) {
                    Val::I(x) => {
                        let r = self.m.bswap(x);
                        one(st, Rv::S(Val::I(r)))
                    }
                    _ => one(st, Rv::S(Val::Top)),
                };
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let sz = self.size(t0.unwrap());
                let op = match n {
                    "ctpop" => Op::Popcnt,
                    "ctlz" | "ctlz_nonzero" => Op::Clz,
                    _ => Op::Ctz,
                };
                return match self.sc(&args[0], sz) {
                    Val::I(x) => {
                        let w = self.m.t.w(x);
                        let r = self.m.t.op(op, w, vec![x]);
                        let r = if w > 32 { self.m.t.slice(r, 0, 32) } else { self.m.t.zext(r, 32) };
                        one(st, Rv::S(Val::I(r)))
                    }
                    _ => one(st, Rv::S(Val::Top)),
                };
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "disjoint_bitor" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let op = match n {
                    "wrapping_add" => BinOp::Add,
                    "wrapping_sub" => BinOp::Sub,
                    "wrapping_mul" => BinOp::Mul,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::ShrUnchecked,
                };
                let ty2 = targ(inst, 1).unwrap_or(ty);
                let sz2 = if n.ends_with("shl") || n.ends_with("shr") { self.size(ty2) } else { sz };
                let (a, b) = (self.sc(&args[0], sz), self.sc(&args[1], sz2));
                if matches!(n, "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr") {
                    if let (Val::I(x), Val::I(y)) = (a, b) {
                        let signed = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                        if self.overflow(st, op, x, y, signed)? {
                            self.event(EvK::Oob, st, format!("{} overflows (undefined behaviour)", n), false);
                            return Err(Er::Dead);
                        }
                    }
                }
                let v = self.binop(st, op, a, b, ty, ty2)?;
                return one(st, Rv::S(v));
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let op = match n {
                    "add_with_overflow" => BinOp::Add,
                    "sub_with_overflow" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (a, b) = (self.sc(&args[0], sz), self.sc(&args[1], sz));
                let v = self.binop(st, op, a, b, ty, ty)?;
                let signed = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                let o = match (a, b) {
                    (Val::I(x), Val::I(y)) => {
                        let b = self.overflow(st, op, x, y, signed)?;
                        self.k(8, b as u128)
                    }
                    _ => Val::Top,
                };
                let r = self.ret_ty(f).unwrap();
                let total = self.size(r);
                let v = self.pair(v, sz, o, sz, 1, total);
                return one(st, v);
            }
            "saturating_add" | "saturating_sub" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let signed = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                if signed {
                    return unsup("signed saturation");
                }
                let op = if n == "saturating_add" { BinOp::Add } else { BinOp::Sub };
                let (a, b) = (self.sc(&args[0], sz), self.sc(&args[1], sz));
                if let (Val::I(x), Val::I(y)) = (a, b) {
                    let w = self.m.t.w(x);
                    if self.overflow(st, op, x, y, false)? {
                        let v = if n == "saturating_add" { self.k(w, mask(w)) } else { self.k(w, 0) };
                        return one(st, Rv::S(v));
                    }
                    let v = self.binop(st, op, a, b, ty, ty)?;
                    return one(st, Rv::S(v));
                }
                return one(st, Rv::S(Val::Top));
            }
            "integer_min" | "integer_max" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let signed = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                let (a, b) = (self.sc(&args[0], sz), self.sc(&args[1], sz));
                return match self.cmp_vals(st, a, b, signed) {
                    Some((lt, _)) => {
                        let l = self.decide(st, lt)?;
                        let r = if l == (n == "integer_min") { a } else { b };
                        one(st, Rv::S(r))
                    }
                    None => one(st, Rv::S(Val::Top)),
                };
            }
            "three_way_compare" => {
                let ty = t0.unwrap();
                let sz = self.size(ty);
                let (a, b) = (self.sc(&args[0], sz), self.sc(&args[1], sz));
                let v = self.binop(st, BinOp::Cmp, a, b, ty, ty)?;
                return one(st, Rv::S(v));
            }
            "variant_count" => return unsup("variant_count"),
            _ => {}
        }
        if n.starts_with("atomic_") {
            self.event(EvK::Effect, st, format!("atomic operation {}", n), false);
            return unsup(format!("atomic {}", n));
        }
        if n.starts_with("simd_") {
            return self.simd(st, f, inst, n, args);
        }
        Ok(None)
    }
    fn overlap_check(&mut self, st: &mut St, s: Val, d: Val, c: Val, es: i128) -> Rs<()> {
        if let (Val::P(a), Val::P(b)) = (s, d) {
            if a.o == b.o {
                if let (Some(x), Some(y), Some(l)) = (a.off, b.off, self.int(st, c)) {
                    let n = self.m.t.lmul(l, es);
                    let z = self.m.t.lc(0);
                    if self.m.le(st, n, z) == Some(true) {
                        return Ok(());
                    }
                    let (xe, ye) = (self.m.t.ladd(x, n), self.m.t.ladd(y, n));
                    if self.m.le(st, xe, y) != Some(true) && self.m.le(st, ye, x) != Some(true) {
                        self.event(EvK::Oob, st, "copy_nonoverlapping of ranges that may overlap".into(), false);
                    }
                }
            }
        }
        Ok(())
    }
    pub fn bits_of_segs(&mut self, s: &[Seg]) -> Option<T> {
        let mut n = 0;
        for x in s {
            n += self.m.t.lconst(x.hi)? - self.m.t.lconst(x.lo)?;
        }
        if n == 0 {
            return None;
        }
        match self.sc(&Rv::B(s.to_vec()), n) {
            Val::I(t) => Some(t),
            _ => None,
        }
    }
    pub fn segs_secret(&mut self, s: &[Seg]) -> bool {
        s.iter().any(|x| match x.k {
            K::Cell(Val::I(t)) | K::Fill(t) => self.m.t.secret(t),
            K::Src(a, _) => self.m.t.arr_secret(a),
            _ => false,
        })
    }
    fn simd(&mut self, st: &mut St, f: FnId, inst: &Instance, n: &str, args: &[Rv]) -> Rs<Option<Outs>> {
        let t0 = match targ(inst, 0) {
            Some(t) => t,
            None => return unsup(n),
        };
        let rty = self.ret_ty(f).unwrap();
        let rsz = self.size(rty);
        let top = |x: &mut X, st: &St| {
            let r = x.top_rv(rsz);
            Ok(Some(vec![(st.clone(), r)]))
        };
        let done = |x: &mut X, st: &St, v: Vec<T>| {
            let t = x.m.t.concat(&v);
            Ok(Some(vec![(st.clone(), Rv::S(Val::I(t)))]))
        };
        match n {
            "simd_add" | "simd_sub" | "simd_xor" | "simd_or" | "simd_and" | "simd_shl" | "simd_shr" | "simd_mul" | "simd_eq" => {
                let (a, b) = match (self.elems(&args[0], t0)?, self.elems(&args[1], t0)?) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return top(self, st),
                };
                let mut out = vec![];
                let e = self.simd_elem(t0).unwrap().0;
                let signed = matches!(e.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                for (x, y) in a.into_iter().zip(b) {
                    let w = self.m.t.w(x);
                    out.push(match n {
                        "simd_add" => self.m.t.add(x, y),
                        "simd_sub" => self.m.t.sub(x, y),
                        "simd_mul" => self.m.t.mul(x, y),
                        "simd_xor" => self.m.t.xor(x, y),
                        "simd_or" => self.m.t.or(x, y),
                        "simd_and" => self.m.t.and(x, y),
                        "simd_eq" => {
                            let c = self.m.t.op(Op::Eq, 1, vec![x, y]);
                            self.m.t.sext(c, w)
                        }
                        _ => {
                            let c = match self.m.t.as_const(y) {
                                Some(c) => c,
                                None => return unsup("variable vector shift"),
                            };
                            if c >= w as u128 {
                                return unsup("vector shift out of range");
                            }
                            if n == "simd_shl" {
                                self.m.t.shl(x, c as u32)
                            } else if signed {
                                let s = self.m.t.slice(x, c as u32, w - c as u32);
                                self.m.t.sext(s, w)
                            } else {
                                self.m.t.shr(x, c as u32)
                            }
                        }
                    });
                }
                done(self, st, out)
            }
            "simd_shuffle" | "simd_shuffle_const_generic" => {
                let idx: Vec<u128> = {
                    let it = match targ(inst, 1) {
                        Some(t) => t,
                        None => return unsup("simd_shuffle"),
                    };
                    let v = match self.elems(&args[2], it)? {
                        Some(v) => v,
                        None => return unsup("simd_shuffle index"),
                    };
                    v.iter().filter_map(|x| self.m.t.as_const(*x)).collect()
                };
                let (a, b) = match (self.elems(&args[0], t0)?, self.elems(&args[1], t0)?) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return top(self, st),
                };
                let mut all = a;
                all.extend(b);
                let mut out = vec![];
                for i in idx {
                    if i as usize >= all.len() {
                        return unsup("simd_shuffle range");
                    }
                    out.push(all[i as usize]);
                }
                done(self, st, out)
            }
            "simd_insert" | "simd_insert_dyn" => {
                let i = match self.sc(&args[1], 4) {
                    Val::I(t) => self.m.t.as_const(t),
                    _ => None,
                };
                let (i, mut a) = match (i, self.elems(&args[0], t0)?) {
                    (Some(i), Some(a)) => (i, a),
                    _ => return top(self, st),
                };
                let es = self.m.t.w(a[0]) as i128 / 8;
                match self.sc(&args[2], es) {
                    Val::I(t) => a[i as usize] = t,
                    _ => return top(self, st),
                }
                done(self, st, a)
            }
            "simd_extract" | "simd_extract_dyn" => {
                let i = match self.sc(&args[1], 4) {
                    Val::I(t) => self.m.t.as_const(t),
                    _ => None,
                };
                match (i, self.elems(&args[0], t0)?) {
                    (Some(i), Some(a)) => done(self, st, vec![a[i as usize]]),
                    _ => top(self, st),
                }
            }
            "simd_splat" => {
                let (e, k) = match self.simd_elem(rty) {
                    Some(x) => x,
                    None => return unsup("splat"),
                };
                let es = self.size(e);
                match self.sc(&args[0], es) {
                    Val::I(t) => done(self, st, vec![t; k]),
                    _ => top(self, st),
                }
            }
            "simd_cast" | "simd_as" => {
                let (e, _) = match self.simd_elem(rty) {
                    Some(x) => x,
                    None => return unsup("simd_cast"),
                };
                let w = 8 * self.size(e) as u32;
                let fe = match self.simd_elem(t0) {
                    Some(x) => x.0,
                    None => return unsup("simd_cast"),
                };
                let signed = matches!(fe.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                match self.elems(&args[0], t0)? {
                    Some(a) => {
                        let mut out = vec![];
                        for x in a {
                            let fw = self.m.t.w(x);
                            out.push(if w <= fw {
                                self.m.t.slice(x, 0, w)
                            } else if signed {
                                self.m.t.sext(x, w)
                            } else {
                                self.m.t.zext(x, w)
                            });
                        }
                        done(self, st, out)
                    }
                    None => top(self, st),
                }
            }
            _ => unsup(format!("intrinsic {}", n)),
        }
    }

    // ---------- target features
    pub fn features_of(&mut self, f: FnId) -> Vec<String> {
        if let Some(v) = self.tfeat.get(&f) {
            return v.clone();
        }
        let inst = self.fns[f as usize];
        let v = crate::features_of_def(inst);
        self.tfeat.insert(f, v.clone());
        v
    }
    pub fn check_features(&mut self, st: &St, f: FnId) {
        let need = self.features_of(f);
        if need.is_empty() {
            return;
        }
        self.n_feat += 1;
        // features of the enclosing functions hold already
        let mut have: Vec<String> = crate::global_features();
        for g in self.fstack.clone() {
            have.extend(self.features_of(g));
        }
        for (t0, b) in st.s.facts.clone().iter() {
            // facts may be stored complemented
            let mut t = *t0;
            if !*b {
                t = self.m.t.not(t);
            }
            if let Some(a) = self.m.t.as_atom(t) {
                if let Atom::Op { op: Op::Feature, args, .. } = &self.m.t.atoms[a as usize] {
                    if let Some(c) = self.m.t.as_const(args[0]) {
                        let n = self.m.t.names[c as usize].clone();
                        have.push(n.trim_start_matches("feature:").to_string());
                    }
                }
            }
        }
        let have = crate::feature_closure(&have);
        let miss: Vec<String> = need.iter().filter(|x| !have.contains(*x)).cloned().collect();
        if !miss.is_empty() && self.standalone == 0 {
            let name = self.fnames[f as usize].clone();
            // only the boundary matters: a call between functions of the crate under analysis
            self.event(EvK::Feature, st, format!("{} needs target feature(s) {} which were not detected on this path", name, miss.join(",")), false);
        }
    }
}
