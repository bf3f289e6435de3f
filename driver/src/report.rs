//! Obligations and their outcomes.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Bad {
    pub prop: String,
    pub what: String,
    pub msg: String,
    pub loc: String,
    pub witness: String,
}
#[derive(Default)]
pub struct Report {
    /// (property, obligation) -> number of cases proved
    pub ok: BTreeMap<(String, String), u64>,
    pub bad: Vec<Bad>,
    pub unk: BTreeMap<(String, String), (u64, String)>,
    pub notes: BTreeMap<String, String>,
    /// functions of the crate that were interpreted
    pub fns: BTreeSet<String>,
    pub stats: BTreeMap<String, u64>,
    /// where this run keeps its results
    pub file: Option<String>,
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn cap(s: &str) -> String {
    s.chars().take(600).collect()
}
impl Report {
    pub fn ok(&mut self, p: &str, what: &str) {
        *self.ok.entry((p.into(), what.into())).or_default() += 1;
    }
    pub fn ok_n(&mut self, p: &str, what: &str, n: u64) {
        *self.ok.entry((p.into(), what.into())).or_default() += n;
    }
    pub fn unk(&mut self, p: &str, what: &str, why: &str) {
        let e = self.unk.entry((p.into(), what.into())).or_insert((0, cap(why)));
        e.0 += 1;
    }
    pub fn bad(&mut self, p: &str, what: &str, msg: &str, loc: &str, wit: &str) {
        if self.bad.iter().filter(|b| b.prop == p).count() < 40 {
            self.bad.push(Bad { prop: p.into(), what: what.into(), msg: cap(msg), loc: loc.into(), witness: cap(wit) });
            // whatever happens to this run, the finding is kept
            self.save();
        }
    }
    pub fn json(&self, extra: &[(String, String)]) -> String {
        let mut o = String::from("{\n");
        o += "\"ok\": [";
        o += &self.ok.iter().map(|((p, w), n)| format!("[{},{},{}]", esc(p), esc(w), n)).collect::<Vec<_>>().join(",\n");
        o += "],\n\"bad\": [";
        o += &self
            .bad
            .iter()
            .map(|b| format!("{{\"prop\":{},\"what\":{},\"msg\":{},\"loc\":{},\"witness\":{}}}", esc(&b.prop), esc(&b.what), esc(&b.msg), esc(&b.loc), esc(&b.witness)))
            .collect::<Vec<_>>()
            .join(",\n");
        o += "],\n\"unk\": [";
        o += &self.unk.iter().map(|((p, w), (n, y))| format!("[{},{},{},{}]", esc(p), esc(w), n, esc(y))).collect::<Vec<_>>().join(",\n");
        o += "],\n\"notes\": {";
        o += &self.notes.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",\n");
        o += "}";
        for (k, v) in extra {
            o += &format!(",\n{}: {}", esc(k), v);
        }
        o += "\n}\n";
        o
    }
    pub fn save(&self) {
        let f = match &self.file {
            Some(f) => f,
            None => return,
        };
        let c = |s: &str| s.replace(['\t', '\n', '\r'], " ");
        let mut o = String::new();
        for ((p, w), n) in &self.ok {
            o += &format!("ok\t{}\t{}\t{}\n", p, c(w), n);
        }
        for ((p, w), (n, y)) in &self.unk {
            o += &format!("unk\t{}\t{}\t{}\t{}\n", p, c(w), n, c(y));
        }
        for b in &self.bad {
            o += &format!("bad\t{}\t{}\t{}\t{}\t{}\n", b.prop, c(&b.what), c(&b.msg), c(&b.loc), c(&b.witness));
        }
        for (k, v) in &self.notes {
            o += &format!("note\t{}\t{}\n", c(k), c(v));
        }
        for k in &self.fns {
            o += &format!("fn\t{}\n", c(k));
        }
        for (k, v) in &self.stats {
            o += &format!("stat\t{}\t{}\n", k, v);
        }
        let t = format!("{}.part", f);
        if std::fs::write(&t, o).is_ok() {
            let _ = std::fs::rename(&t, f);
        }
    }
    pub fn load(&mut self, f: &str) -> bool {
        let s = match std::fs::read_to_string(f) {
            Ok(s) => s,
            Err(_) => return false,
        };
        for l in s.lines() {
            let x: Vec<&str> = l.split('\t').collect();
            match (x[0], x.len()) {
                ("ok", 4) => self.ok_n(x[1], x[2], x[3].parse().unwrap_or(1)),
                ("unk", 5) => {
                    let e = self.unk.entry((x[1].into(), x[2].into())).or_insert((0, x[4].into()));
                    e.0 += x[3].parse::<u64>().unwrap_or(1);
                }
                ("bad", 6) => self.bad(x[1], x[2], x[3], x[4], x[5]),
                ("note", 3) => {
                    self.notes.insert(x[1].into(), x[2].into());
                }
                ("fn", 2) => {
                    self.fns.insert(x[1].into());
                }
                ("stat", 3) => *self.stats.entry(x[1].into()).or_default() += x[2].parse::<u64>().unwrap_or(0),
                _ => {}
            }
        }
        true
    }
}
