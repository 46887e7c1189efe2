//! Sidecar contract files. A block starts with a line `=== <head>`.
//!   === fn <key>          contract of a function (or constant); sections below
//!   === impl <key> | trait <key> | mod <path> | type <key> | after <key> | root | tail   raw Verus text
//!   === skip <key>        do not extract
//! Function sections: `ret: x`, `requires:`, `ensures:` (clauses start with `[tag]`), `start:`,
//! `exit:`, `loop:` (one per loop in source order), `attr: ...`, `returns: ...`.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Clause {
    pub tag: String,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct FnSpec {
    pub ret: String,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub returns: String,
    pub start: String,
    pub exit: Vec<Clause>,
    /// read `&self` as `&mut self` (interior mutability made explicit)
    pub recv_mut: bool,
    pub loops: Vec<String>,
    /// names the contract uses for locals: (name, beginning of the initialiser)
    pub binds: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub skip: bool,
}
impl Default for FnSpec {
    fn default() -> Self {
        FnSpec { ret: "r".into(), requires: vec![], ensures: vec![], returns: String::new(), start: String::new(), exit: vec![], recv_mut: false, loops: vec![], binds: vec![], attrs: vec![], skip: false }
    }
}
#[derive(Default, Clone)]
pub struct Spec {
    pub fns: BTreeMap<String, FnSpec>,
    pub raw: BTreeMap<String, String>,
    pub skip: BTreeSet<String>,
}

impl Spec {
    pub fn load(files: &[String]) -> Spec {
        let mut s = Spec::default();
        for f in files {
            let txt = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
            let mut head: Option<String> = None;
            let mut body = String::new();
            for l in txt.lines().chain(std::iter::once("=== end")) {
                if let Some(h) = l.strip_prefix("=== ") {
                    if let Some(h0) = head.take() {
                        s.block(&h0, &body);
                    }
                    head = Some(h.trim().to_string());
                    body.clear();
                } else if !l.starts_with("#!") {
                    body.push_str(l);
                    body.push('\n');
                }
            }
        }
        s
    }
    fn block(&mut self, head: &str, body: &str) {
        if let Some(k) = head.strip_prefix("fn ") {
            let k = k.trim().to_string();
            assert!(!self.fns.contains_key(&k), "duplicate contract for {}", k);
            self.fns.insert(k, Self::parse_fn(body));
        } else if let Some(k) = head.strip_prefix("skip ") {
            self.skip.insert(k.trim().to_string());
        } else if head == "end" {
        } else {
            let e = self.raw.entry(head.to_string()).or_default();
            e.push_str(body);
        }
    }
    fn parse_fn(body: &str) -> FnSpec {
        let mut f = FnSpec::default();
        let mut sec = String::new();
        let mut buf = String::new();
        fn flush(f: &mut FnSpec, sec: &str, buf: &mut String) {
            match sec {
                "requires" => f.requires.extend(clauses(buf)),
                "ensures" => f.ensures.extend(clauses(buf)),
                "start" => f.start.push_str(buf),
                "exit" => f.exit.extend(clauses(buf)),
                "loop" => f.loops.push(buf.clone()),
                "" => {}
                o => panic!("section {}", o),
            }
            buf.clear();
        }
        for l in body.lines() {
            let t = l.trim();
            if let Some(x) = l.strip_prefix("ret:") {
                f.ret = x.trim().into();
            } else if let Some((n, x)) = l.strip_prefix("bind:").and_then(|x| x.split_once('=')) {
                f.binds.push((n.trim().into(), x.trim().into()));
            } else if let Some(x) = l.strip_prefix("attr:") {
                f.attrs.push(x.trim().into());
            } else if let Some(x) = l.strip_prefix("returns:") {
                f.returns = x.trim().into();
            } else if l.trim_end() == "receiver: &mut self" {
                f.recv_mut = true;
            } else if t == "skip" && !l.starts_with(' ') {
                f.skip = true;
            } else if ["requires:", "ensures:", "start:", "exit:", "loop:"].contains(&l.trim_end()) {
                flush(&mut f, &sec, &mut buf);
                sec = l.trim_end().trim_end_matches(':').to_string();
            } else {
                buf.push_str(l);
                buf.push('\n');
            }
        }
        flush(&mut f, &sec, &mut buf);
        f
    }
    /// does any contract or raw text belong to this impl?
    pub fn has_impl(&self, key: &str) -> bool {
        let p = format!("{}::", key);
        self.raw.contains_key(&format!("impl {}", key))
            || self.fns.range(p.clone()..).next().map_or(false, |(k, _)| k.starts_with(&p))
    }
    pub fn keep_uncontracted_impl(&self, tname: &str) -> bool {
        ["Serializable", "Deserializable", "Frameable", "Encryptor"].contains(&tname)
    }
}

fn clauses(s: &str) -> Vec<Clause> {
    let mut v: Vec<Clause> = vec![];
    for l in s.lines() {
        let t = l.trim_start();
        if t.starts_with('[') && t.contains(']') && !t.starts_with("[[") {
            let e = t.find(']').unwrap();
            v.push(Clause { tag: t[1..e].to_string(), text: format!("{}\n", &t[e + 1..]) });
        } else if let Some(c) = v.last_mut() {
            c.text.push_str(l);
            c.text.push('\n');
        } else if !t.is_empty() {
            v.push(Clause { tag: String::new(), text: format!("{}\n", l) });
        }
    }
    v.retain(|c| !c.text.trim().is_empty());
    v
}
