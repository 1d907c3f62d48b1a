//! Case bookkeeping, generators and minimisation shared by all properties.
use std::collections::{BTreeSet, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn string(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

/// Outcome of one evaluation of an executable contract.
pub enum Res {
    /// the contract held; true if the case exercised the interesting part
    Ok(bool),
    /// the case is outside the contract's precondition (or a hook is not available)
    Skip,
    Fail(String),
}
pub fn ok() -> Res {
    Res::Ok(true)
}
pub fn eq(what: &str, got: &str, want: &str) -> Res {
    if got == want { Res::Ok(true) } else { Res::Fail(format!("{what}: got {got:?}, expected {want:?}")) }
}

pub struct Viol {
    pub what: String,
    pub input: String,
    pub detail: String,
}
pub struct Ctx {
    pub tier: String,
    pub shard: usize,
    pub shards: usize,
    counter: usize,
    pub rng: Rng,
    pub evals: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: Vec<(String, String)>,
    /// replay mode: evaluate only this contract, on this input
    pub replay: Option<(String, String)>,
    pub known_hit: Vec<String>,
    pub whats: BTreeSet<String>,
    pub start: Instant,
    pub budget: Duration,
    pub bounds: Vec<String>,
    pub max_viols: usize,
}

fn hash(a: &str, b: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut h);
    b.hash(&mut h);
    h.finish()
}

impl Ctx {
    /// shard `k` of `n` evaluates every n-th enumerated case and 1/n of the random ones
    pub fn new(tier: &str, seed: u64, budget: u64, shard: usize, shards: usize) -> Self {
        Ctx {
            tier: tier.into(),
            shard,
            shards,
            counter: 0,
            rng: Rng::new(seed.wrapping_mul(1000).wrapping_add(shard as u64)),
            evals: 0,
            skipped: 0,
            nontrivial: 0,
            seen: HashSet::new(),
            samples: vec![],
            viols: vec![],
            known: vec![],
            replay: None,
            known_hit: vec![],
            whats: BTreeSet::new(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            bounds: vec![],
            max_viols: std::env::var("HD_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(3),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// number of random cases
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough() { quick * 12 } else { quick }
    }
    /// bound on exhaustively enumerated lengths
    pub fn len(&self, quick: usize) -> usize {
        if self.thorough() { quick + 1 } else { quick }
    }
    pub fn stop(&self) -> bool {
        self.viols.len() >= self.max_viols || self.start.elapsed() > self.budget
    }
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.to_string());
    }

    /// Evaluate a contract on one input string; a failing input is minimised.
    pub fn check(&mut self, what: &str, input: &str, f: &dyn Fn(&str) -> Res) {
        let replay = self.replay.take();
        let input = match &replay {
            Some((w, i)) if w == what => i.as_str(),
            Some(_) => {
                self.replay = replay;
                return;
            }
            None => input,
        };
        self.check_one(what, input, f);
        if replay.is_some() {
            self.budget = Duration::ZERO;
        }
    }
    fn check_one(&mut self, what: &str, input: &str, f: &dyn Fn(&str) -> Res) {
        if self.stop() {
            return;
        }
        self.evals += 1;
        match guarded(f, input) {
            Res::Skip => self.skipped += 1,
            Res::Ok(nt) => {
                if nt && self.seen.len() < 4_000_000 && self.seen.insert(hash(what, input)) {
                    self.nontrivial += 1;
                    if self.whats.insert(what.to_string()) || (self.samples.len() < 40 && self.nontrivial.is_power_of_two()) {
                        self.samples.push(format!("{what}: {input:?}"));
                    }
                }
            }
            Res::Fail(first) => {
                if self.known.iter().any(|k| k.0 == what && k.1 == input) {
                    let m = format!("{what} on {input:?}: {first}");
                    if !self.known_hit.contains(&m) {
                        self.known_hit.push(m);
                    }
                    return;
                }
                if self.viols.iter().any(|v| v.what == what) {
                    return;
                }
                let (min, detail) = minimise(f, input, first);
                self.viols.push(Viol { what: what.into(), input: min, detail });
            }
        }
    }

    /// all strings over the alphabet up to a length
    pub fn exhaustive(&mut self, what: &str, alphabet: &str, max: usize, f: &dyn Fn(&str) -> Res) {
        let al: Vec<char> = alphabet.chars().collect();
        self.bound(&format!("{what}: every string of length <= {max} over {alphabet:?}"));
        for len in 0..=max {
            let mut idx = vec![0usize; len];
            loop {
                if self.stop() {
                    return;
                }
                let s: String = idx.iter().map(|i| al[*i]).collect();
                self.counter += 1;
                if self.counter % self.shards == self.shard {
                    self.check(what, &s, f);
                }
                let mut k = len;
                let mut done = true;
                while k > 0 {
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < al.len() {
                        done = false;
                        break;
                    }
                    idx[k] = 0;
                }
                if done {
                    break;
                }
            }
        }
    }
    /// seeded random strings over an alphabet
    pub fn random(&mut self, what: &str, alphabet: &str, max: usize, n: usize, f: &dyn Fn(&str) -> Res) {
        let al: Vec<char> = alphabet.chars().collect();
        let n = self.n(n);
        self.bound(&format!("{what}: {n} seeded random strings of length <= {max} over {alphabet:?}"));
        for _ in 0..n.div_ceil(self.shards) {
            if self.stop() {
                return;
            }
            let s = self.rng.string(&al, max);
            self.check(what, &s, f);
        }
    }
    /// seeded random cases from a generator
    pub fn generated(&mut self, what: &str, n: usize, g: &dyn Fn(&mut Rng) -> String, f: &dyn Fn(&str) -> Res) {
        let n = self.n(n);
        self.bound(&format!("{what}: {n} seeded random cases"));
        for _ in 0..n.div_ceil(self.shards) {
            if self.stop() {
                return;
            }
            let mut r = Rng::new(self.rng.next());
            let s = g(&mut r);
            self.check(what, &s, f);
        }
    }
}

fn guarded(f: &dyn Fn(&str) -> Res, input: &str) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(input))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Res::Fail(format!("panicked: {m}"))
        }
    }
}

fn minimise(f: &dyn Fn(&str) -> Res, input: &str, first: String) -> (String, String) {
    let mut cur: Vec<char> = input.chars().collect();
    let mut detail = first;
    let t0 = Instant::now();
    let mut chunk = cur.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        let mut shrunk = false;
        while i < cur.len() && t0.elapsed() < Duration::from_secs(10) {
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            let s: String = t.iter().collect();
            if let Res::Fail(d) = guarded(f, &s) {
                cur = t;
                detail = d;
                shrunk = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            if !shrunk || t0.elapsed() > Duration::from_secs(10) {
                break;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
    (cur.into_iter().collect(), detail)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
