//! The properties: entry points, specifications, verdicts.
use crate::interp::*;
use crate::kernel::*;
use crate::mem::*;
use crate::report::*;
use crate::spec::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Ck {
    pub x: X,
    pub fns: BTreeMap<String, Vec<FnId>>,
    pub rep: Report,
    /// lengths are capped in this run
    pub capped: Option<i128>,
    /// this run starts from states that need not all be reachable
    pub guess: bool,
    pub want: HashSet<String>,
    /// the property secret-dependent control flow is reported under
    pub secret_prop: Option<&'static str>,
    pub seen: HashMap<String, u32>,
    /// properties that a panic breaks as well
    pub cur: Vec<String>,
}
/// decided from what happens during all runs
pub const EVENT_PROPS: [&str; 5] = ["C13", "C14", "C15", "C20", "C21"];

/// paths into the core library as they are with std
pub fn std_name(n: &str) -> String {
    n.replace(" core::", " std::")
}

impl Ck {
    pub fn new() -> Ck {
        let mut x = X::new();
        let mut fns: BTreeMap<String, Vec<FnId>> = BTreeMap::new();
        for it in rustc_public::all_local_items() {
            if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
                continue;
            }
            if let Ok(i) = Instance::try_from(it) {
                let n = std_name(&it.name().to_string());
                let f = x.fnid(i);
                fns.entry(n).or_default().push(f);
            }
        }
        Ck { x, fns, rep: Report::default(), capped: None, guess: false, want: HashSet::new(), secret_prop: Some("C15"), seen: HashMap::new(), cur: vec![] }
    }
    pub fn f(&self, name: &str) -> Rs<FnId> {
        match self.fns.get(&format!("blake2s_simd::{}", name)).or_else(|| self.fns.get(name)) {
            Some(v) => Ok(v[0]),
            None => unsup(format!("no function {}", name)),
        }
    }
    pub fn call(&mut self, st: &St, name: &str, args: &[Rv]) -> Rs<Vec<(St, Rv)>> {
        let f = self.f(name)?;
        self.x.steps = 0;
        self.x.call(st.clone(), f, args.to_vec())
    }
    pub fn lc(&mut self, c: i128) -> L {
        self.x.m.t.lc(c)
    }
    /// a new object holding a value
    pub fn put(&mut self, st: &mut St, ty_size: i128, v: &Rv) -> ObjId {
        let segs = self.x.segs_of(v, ty_size);
        let size = self.lc(ty_size);
        st.new_root(Obj { size, segs, al: 5 })
    }
    pub fn ptr(&mut self, st: &St, o: ObjId) -> Rv {
        let size = self.x.m.obj(st, o).size;
        let z = self.lc(0);
        Rv::S(Val::P(Ptr { o, off: Some(z), lo: z, hi: size }))
    }
    pub fn ptr_sz(&self) -> u32 {
        8 * self.x.m.ptr as u32
    }
    /// a fresh byte slice: part [off, off+len) of the named array
    pub fn slice_arg(&mut self, st: &mut St, arr: Arr, off: L, len: L) -> Rv {
        let z = self.lc(0);
        let segs = vec![Seg { lo: z, hi: len, k: K::Src(arr, off) }];
        let o = st.new_root(Obj { size: len, segs, al: 0 });
        let w = self.ptr_sz();
        let e = self.x.m.t.l(len).clone();
        let lt = self.x.m.t.mk_sum(w, e);
        self.x.fat(Val::P(Ptr { o, off: Some(z), lo: z, hi: len }), Val::I(lt))
    }
    pub fn u(&mut self, w: u32, c: u128) -> Rv {
        let t = self.x.m.t.k(w, c);
        Rv::S(Val::I(t))
    }
    pub fn ret_size(&mut self, name: &str) -> Rs<i128> {
        let f = self.f(name)?;
        match self.x.ret_ty(f) {
            Some(t) => Ok(self.x.size(t)),
            None => unsup("return type"),
        }
    }
    /// assume a one-bit term
    pub fn assume(&mut self, st: &St, c: T, v: bool) -> Vec<St> {
        let mut out = vec![];
        let mut w = vec![st.clone()];
        while let Some(mut s) = w.pop() {
            match self.x.decide(&mut s, c) {
                Ok(b) => {
                    if b == v {
                        out.push(s)
                    }
                }
                Err(e) => {
                    if let Ok(v) = self.x.split(s, e) {
                        w.extend(v)
                    }
                }
            }
        }
        out
    }
    pub fn sym_len(&mut self, st: &mut St, name: &str, max: i128) -> L {
        let w = self.ptr_sz();
        let t = self.x.m.t.sym(name, w);
        let l = self.x.m.lift(st, t);
        let mut e = lin_mul(self.x.m.t.l(l), -1);
        e.c += max;
        st.store().add_ge(&e);
        l
    }
}



impl Ck {
    pub fn wanted(&self, props: &[&str]) -> bool {
        self.want.is_empty() || props.iter().chain(EVENT_PROPS.iter()).any(|p| self.want.contains(*p))
    }
    /// run a scenario for all lengths; if that is not possible, for short ones
    fn scenario(&mut self, props: &[&str], what: &str, f: &dyn Fn(&mut Ck, i128) -> Rs<()>) {
        let t = std::time::Instant::now();
        // no object is larger than half the address space
        let most: i128 = if self.x.m.ptr == 8 { 1 << 61 } else { (1 << (8 * self.x.m.ptr - 1)) - 1 };
        let r = self.guarded(what, most, f);
        if std::env::var("BSA_TIME").is_ok() {
            eprintln!("scenario {}: {:?} {:?}", what, t.elapsed(), r.as_ref().err());
        }
        if let Err(why) = r {
            let mut all: Vec<&str> = props.to_vec();
            all.extend(["C13", "C15", "C20"]);
            self.unk(&all, what, &why);
            self.rep.save();
            for cap in [200i128, 64] {
                self.capped = Some(cap);
                let r = self.guarded(what, cap, f);
                self.capped = None;
                match r {
                    Ok(()) => break,
                    Err(why) => self.unk(&all, &format!("{} (lengths up to {})", what, cap), &why),
                }
            }
        }
    }
    fn guarded(&mut self, what: &str, cap: i128, f: &dyn Fn(&mut Ck, i128) -> Rs<()>) -> Result<(), String> {
        let (c0, b0, f0, k0) = (self.x.n_checks, self.x.n_branches, self.x.n_feat, self.x.n_calls);
        self.x.ev.clear();
        self.guess = false;
        let r = f(self, cap);
        let bad = self.events(what);
        self.guess = false;
        let (c, b, ft, k) = (self.x.n_checks - c0, self.x.n_branches - b0, self.x.n_feat - f0, self.x.n_calls - k0);
        if r.is_ok() {
            let mut q = |p: &str, n: u64, w: &str| {
                if !bad.contains(p) && n > 0 {
                    self.rep.ok_n(p, &format!("{}: {}", what, w), n)
                }
            };
            q("C13", c, "memory accesses inside the objects they belong to");
            q("C14", ft, "calls that need a CPU feature, made only after it was detected");
            if let Some(p) = self.secret_prop {
                q(p, c + b, "branches and addresses independent of secret data");
            }
            q("C21", k, "calls without effects on anything but their arguments");
            q("C20", k, "calls that cannot panic");
        }
        r.map_err(|e| self.err(e))
    }
    /// what went wrong during a scenario
    fn events(&mut self, what: &str) -> HashSet<String> {
        let mut out = HashSet::new();
        for e in std::mem::take(&mut self.x.ev) {
            let prop = match e.k {
                EvK::Panic => "C20",
                EvK::Oob | EvK::Undef | EvK::Write => "C13",
                EvK::Feature => "C14",
                EvK::Effect => "C21",
                EvK::SecretAddr | EvK::SecretBranch | EvK::VarTime => match self.secret_prop {
                    Some(p) => p,
                    None => continue,
                },
            };
            let mut ps: Vec<String> = vec![prop.to_string()];
            ps.extend(e.also.iter().filter(|p| *p != prop).cloned());
            out.extend(ps.iter().cloned());
            ps.retain(|p| self.want.is_empty() || self.want.contains(p.as_str()));
            if ps.is_empty() {
                continue;
            }
            let ps: Vec<&str> = ps.iter().map(|p| p.as_str()).collect();
            let prop = ps.join(" ");
            let func = e.stack.iter().rev().find(|f| self.x.own.contains(*f)).cloned().unwrap_or_default();
            let key = format!("{} {:?} {} {}", prop, e.k, func, e.loc);
            let n = self.seen.entry(key).or_default();
            if *n >= 8 {
                continue;
            }
            *n += 1;
            let ob = format!("{}: {:?}", what, e.k);
            let msg = format!("{} in {}", e.msg, func);
            let st = e.st.clone().unwrap();
            if e.vague {
                self.unk(&ps, &ob, &format!("cannot exclude: {} at {}", msg, e.loc));
                continue;
            }
            let wit = match (e.k, e.c) {
                (EvK::SecretAddr | EvK::SecretBranch | EvK::VarTime, Some(c)) => self.x.confirm_secret(&st, c),
                _ => self.x.confirm(&st, &|_| Some(true)),
            };
            match wit {
                Some(w) => {
                    self.bad(&ps, &ob, &msg, &e.loc, &w);
                    *self.seen.get_mut(&format!("{} {:?} {} {}", prop, e.k, func, e.loc)).unwrap() = 8;
                }
                None => self.unk(&ps, &ob, &format!("no concrete input found for: {} at {}", msg, e.loc)),
            }
        }
        out
    }
}

impl Ck {
    pub fn show_rv(&self, v: &Rv) -> String {
        match v {
            Rv::S(v) => self.show_val(v),
            Rv::B(s) => s.iter().map(|s| self.show_seg(s)).collect::<Vec<_>>().join("; "),
        }
    }
    pub fn show_val(&self, v: &Val) -> String {
        match v {
            Val::I(t) => self.x.m.t.show_d(*t, 3),
            Val::F(f) => self.x.fnames[*f as usize].clone(),
            v => format!("{:?}", v),
        }
    }
    pub fn show_seg(&self, s: &Seg) -> String {
        let t = &self.x.m.t;
        let k = match &s.k {
            K::Cell(v) => self.show_val(v),
            K::Src(a, d) => format!("{}[.+{}]", t.show_arr(*a), t.show_lin(*d, 3)),
            K::Fill(v) => format!("fill {}", t.show_d(*v, 3)),
            k => format!("{:?}", k),
        };
        format!("[{},{}) {}", t.show_lin(s.lo, 3), t.show_lin(s.hi, 3), k)
    }
    pub fn show_store(&self, st: &St) -> String {
        let t = &self.x.m.t;
        let lin = |l: &Lin| -> String {
            let mut s = format!("{}", l.c);
            for (x, k) in &l.v {
                s += &format!(" + {}*{}", k, t.show_d(*x, 2));
            }
            s
        };
        let mut o = vec![];
        for c in &st.s.cons {
            o.push(format!("{} >= 0", lin(c)));
        }
        for (x, e) in &st.s.sub {
            o.push(format!("{} = {}", t.show_d(*x, 2), lin(e)));
        }
        for (x, b) in &st.s.facts {
            o.push(format!("{} is {}", t.show_d(*x, 2), b));
        }
        o.join(", ")
    }
    pub fn show_st(&self, st: &St, o: ObjId) -> String {
        let ob = self.x.m.obj(st, o);
        format!("{{{}}} {}", self.show_store(st), ob.segs.iter().map(|s| self.show_seg(s)).collect::<Vec<_>>().join("; "))
    }
}



extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
}
pub struct Job {
    props: Vec<&'static str>,
    what: String,
    secret: Option<&'static str>,
    f: Box<dyn Fn(&mut Ck, i128) -> Rs<()>>,
}
/// the scenarios
fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut add = |props: &[&'static str], what: &str, secret: Option<&'static str>, f: Box<dyn Fn(&mut Ck, i128) -> Rs<()>>| v.push(Job { props: props.to_vec(), what: what.into(), secret, f });
    let c15 = Some("C15");
    // the longest first
    for part in 0..4 {
        add(&["C09", "C10", "C05", "C18"], "BLAKE2sp histories", c15, Box::new(move |c, max| c.histories(true, max, Some((part, 4)))));
    }
    for part in 0..2 {
        add(&["C19"], "BLAKE2sp io::Write", c15, Box::new(move |c, max| c.writes(true, max, Some((part, 2)))));
    }
    add(&["C09", "C10"], "BLAKE2sp default forms", c15, Box::new(|c, max| c.sp_defaults(max)));
    add(&["C01", "C02"], "compression kernels", c15, Box::new(|c, _| c.kernels()));
    add(&["C03", "C04", "C05", "C18"], "BLAKE2s histories", c15, Box::new(|c, max| c.histories(false, max, None)));
    for part in 0..4 {
        add(&["C10", "C18"], "BLAKE2sp third update", c15, Box::new(move |c, max| c.third(true, max, Some((part, 4)))));
    }
    add(&["C04", "C18"], "BLAKE2s three updates", c15, Box::new(|c, max| c.three(false, max, None)));
    add(&["C04", "C05", "C18"], "BLAKE2s histories of any length", c15, Box::new(|c, max| c.induct(false, max, None)));
    for part in 0..4 {
        add(&["C10", "C05", "C18"], "BLAKE2sp histories of any length", c15, Box::new(move |c, max| c.induct(true, max, Some((part, 4)))));
    }
    add(&["C03", "C04"], "BLAKE2s default forms", c15, Box::new(|c, max| c.b2s_defaults(max)));
    add(&["C04", "C05"], "BLAKE2s last node", c15, Box::new(|c, max| c.b2s_last_node(max)));
    add(&["C21"], "BLAKE2s clones", c15, Box::new(|c, max| c.clones(false, max)));
    add(&["C21"], "BLAKE2sp clones", c15, Box::new(|c, max| c.clones(true, max)));
    add(&["C21"], "clones of parameters", c15, Box::new(|c, _| c.value_clones()));
    for part in 0..3 {
        add(&["C19"], "BLAKE2s io::Write", c15, Box::new(move |c, max| c.writes(false, max, Some((part, 3)))));
    }
    add(&["C03", "C11", "C12"], "BLAKE2s parameters", c15, Box::new(|c, _| c.b2s_params()));
    add(&["C11"], "BLAKE2s setter ranges", c15, Box::new(|c, _| c.ranges(false)));
    add(&["C11"], "BLAKE2sp setter ranges", c15, Box::new(|c, _| c.ranges(true)));
    add(&["C09", "C11", "C12"], "BLAKE2sp parameters", c15, Box::new(|c, _| c.sp_params()));
    for n in [8, 4] {
        add(&["C07"], &format!("hash{}_exact", n), c15, Box::new(move |c, max| c.exact(n, max)));
    }
    for part in 0..4 {
        add(&["C08"], "hash8", c15, Box::new(move |c, max| c.hash8(max, &[part, part + 4])));
    }
    add(&["C08"], "hash8 with a key", c15, Box::new(|c, _| c.hash8_keyed()));
    for part in 0..4 {
        add(&["C06", "C18"], "update8", c15, Box::new(move |c, max| c.update8(max, &[part, part + 4])));
        add(&["C06", "C05", "C18"], "finalize8", c15, Box::new(move |c, max| c.finalize8(max, &[part, part + 4])));
    }
    // what is done with a digest afterwards is up to the caller
    add(&["C22"], "hash accessors", None, Box::new(|c, _| c.hash_accessors()));
    add(&["C17", "C22"], "formatting", None, Box::new(|c, _| c.debug()));
    add(&["C16"], "hash comparison", Some("C16"), Box::new(|c, _| c.hash_eq()));
    v
}
impl Ck {
    fn run_job(&mut self, j: &Job) {
        self.secret_prop = j.secret;
        self.scenario(&j.props, &j.what, &*j.f);
        for f in self.x.seen_fns.iter().filter(|f| self.x.own.contains(*f)) {
            self.rep.fns.insert(f.clone());
        }
        let st = [
            ("functions_interpreted", self.x.seen_fns.len() as u64),
            ("calls", self.x.n_calls),
            ("blocks", self.x.n_blocks),
            ("loops_accelerated", self.x.n_loops),
            ("memory_accesses_checked", self.x.n_checks),
            ("case_splits", self.x.n_branches),
            ("feature_checks", self.x.n_feat),
        ];
        for (k, v) in st {
            self.rep.stats.insert(k.into(), v);
        }
    }
}

pub fn run() {
    let mut c = Ck::new();
    if let Some(w) = std::env::var("BSA_PROPS").ok().filter(|w| !w.is_empty()) {
        c.want = w.split(',').map(|s| s.to_string()).collect();
    }
    let out = std::env::var("BSA_OUT").ok();
    let only = std::env::var("BSA_ONLY").ok();
    let js: Vec<Job> = jobs().into_iter().filter(|j| c.wanted(&j.props) && only.as_ref().map_or(true, |o| j.what.contains(o.as_str()))).collect();
    let par: usize = std::env::var("BSA_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit: u64 = std::env::var("BSA_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
    let total: u64 = std::env::var("BSA_TOTAL").ok().and_then(|s| s.parse().ok()).unwrap_or(100000);
    match &out {
        Some(o) if par > 0 => {
            // every scenario in a process of its own, starting from here
            let t0 = std::time::Instant::now();
            let mut run: Vec<(i32, usize, std::time::Instant)> = vec![];
            let mut next = 0;
            let file = |i: usize| format!("{}.{}", o, i);
            while next < js.len() || !run.is_empty() {
                while next < js.len() && run.len() < par {
                    if t0.elapsed().as_secs() > total {
                        let mut all = js[next].props.clone();
                        all.extend(EVENT_PROPS);
                        c.unk(&all, &js[next].what, "no time was left for this scenario");
                        next += 1;
                        continue;
                    }
                    let _ = std::fs::remove_file(file(next));
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        c.rep = Report { file: Some(file(next)), ..Report::default() };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.run_job(&js[next])));
                        if r.is_err() {
                            c.unk(&js[next].props, &js[next].what, "the analyser failed");
                        }
                        c.rep.save();
                        unsafe { _exit(if r.is_ok() { 0 } else { 1 }) }
                    }
                    run.push((pid, next, std::time::Instant::now()));
                    next += 1;
                }
                let mut i = 0;
                let mut any = false;
                while i < run.len() {
                    let (pid, n, t) = run[i];
                    let mut st = 0;
                    let w = unsafe { waitpid(pid, &mut st, 1) };
                    let late = t.elapsed().as_secs() > limit || t0.elapsed().as_secs() > total;
                    if w == 0 && late {
                        unsafe {
                            kill(pid, 9);
                            waitpid(pid, &mut st, 0);
                        }
                    }
                    if w != 0 || late {
                        run.swap_remove(i);
                        any = true;
                        c.rep.load(&file(n));
                        let _ = std::fs::remove_file(file(n));
                        if st != 0 {
                            let why = if late { "the analysis did not finish in time" } else { "the analyser failed" };
                            let mut all = js[n].props.clone();
                            all.extend(EVENT_PROPS);
                            c.unk(&all, &js[n].what, why);
                        }
                    } else {
                        i += 1;
                    }
                }
                if !any {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
            }
            if std::env::var("BSA_TIME").is_ok() {
                eprintln!("all scenarios: {:?}", t0.elapsed());
            }
        }
        _ => {
            for j in &js {
                c.run_job(j)
            }
        }
    }
    let fl = format!("[{}]", c.rep.fns.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","));
    let stats = format!("{{{}}}", c.rep.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let txt = c.rep.json(&[("functions".into(), fl), ("stats".into(), stats)]);
    match out {
        Some(f) => std::fs::write(f, &txt).unwrap(),
        None => println!("{}", txt),
    }
}
