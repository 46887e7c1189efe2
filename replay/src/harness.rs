use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn fill(&mut self, v: &mut [u8]) {
        for c in v.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a = [0u8; 32];
        self.fill(&mut a);
        a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

pub struct Rec {
    prop: String,
    out: String,
    pub rng: Rng,
    end: Instant,
    budget: u64,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<(String, String)>,
    pub rule: String,
}

thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

impl Rec {
    pub fn new(prop: &str, seed: u64, budget: u64, out: &str) -> Rec {
        std::panic::set_hook(Box::new(|i| {
            let m = format!("{}", i);
            LAST.with(|l| *l.borrow_mut() = m);
        }));
        Rec {
            prop: prop.into(),
            out: out.into(),
            rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(77)),
            end: Instant::now() + Duration::from_secs(budget),
            budget,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fails: vec![],
            rule: "directed boundary cases, then seeded random ones; each compared with an independent oracle; non-trivial: not seen before in this run".into(),
        }
    }
    /// time and failures left
    pub fn more(&self) -> bool {
        Instant::now() < self.end && self.fails.len() < 8
    }
    /// evaluations allowed, scaled with the time budget
    pub fn cap(&self, n: u64) -> u64 {
        n * (self.budget / 15).max(1)
    }
    pub fn full(&self) -> bool {
        self.fails.len() >= 8
    }
    pub fn case<H: Hash>(&mut self, h: &H) {
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            let mut s = DefaultHasher::new();
            h.hash(&mut s);
            self.distinct.insert(s.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut s = f();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, what: impl Into<String>, input: impl Into<String>) {
        let (w, i) = (what.into(), input.into());
        if self.fails.len() < 8 && !self.fails.iter().any(|f| f.0 == w) {
            self.fails.push((w, i));
            self.write();
        }
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String, input: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(what(), input());
        }
        ok
    }
    /// runs `f`; a panic is a failure of `what`
    pub fn guard<T>(&mut self, what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let m = LAST.with(|l| l.borrow().clone());
                self.fail(format!("panic in {}", what), format!("{}\n  {}", input(), m));
                None
            }
        }
    }
    fn write(&self) {
        let q = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let f: Vec<String> = self.fails.iter().map(|(w, i)| format!("{{\"what\":{},\"input\":{}}}", q(w), q(&clip(i)))).collect();
        let s: Vec<String> = self.samples.iter().map(|s| q(s)).collect();
        let j = format!(
            "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
            q(&self.prop), self.evals, self.distinct.len(), q(&self.rule), s.join(","), f.join(",")
        );
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, j).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
    }
    pub fn done(&mut self) {
        self.write()
    }
}

pub fn clip(s: &str) -> String {
    s.chars().take(3000).collect()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!(".. ({} bytes)", b.len()));
    }
    s
}
