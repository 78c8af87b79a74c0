//! Shared monitoring machinery for the colorz checks.
pub mod alloc_count;
pub mod codes;
pub mod collect;
pub mod decide;
pub mod flags;
pub mod gen;
pub mod hooks;
pub mod spy;
#[macro_use]
pub mod names;
pub mod model;
pub mod oracle;
pub mod rng;
pub mod sgr;
pub mod spec;
pub mod sys;
pub mod trap;

pub use rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Which colorz feature set this binary was built with.
pub const STD: bool = cfg!(feature = "f-std");
pub const SC: bool = cfg!(feature = "f-sc");
pub const STRIP: bool = cfg!(feature = "f-strip");

pub fn config_name() -> String {
    let mut v = vec![];
    if STD {
        v.push("std")
    }
    if SC {
        v.push("supports-color")
    }
    if STRIP {
        v.push("strip-colors")
    }
    if cfg!(feature = "f-alloc") {
        v.push("alloc")
    }
    if v.is_empty() {
        v.push("default")
    }
    format!("{}/{}", v.join("+"), if cfg!(debug_assertions) { "debug" } else { "release" })
}

const MAX_VIOL: usize = 5;
const MAX_DISTINCT: usize = 2_000_000;

/// What one workload observed.
#[derive(Default)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub args: Vec<String>,
    /// executions judged by an oracle
    pub evals: u64,
    /// distinct non-trivial ones, by hash of the case
    seen: HashSet<u64>,
    /// distinct by construction (complete enumerations)
    pub enumerated: u64,
    pub samples: Vec<String>,
    pub viol: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub rule: String,
    pub inconclusive: Vec<String>,
    /// facts compared between processes
    pub notes: BTreeMap<String, String>,
}

thread_local! {
    static CASE: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Note the case being run, so that a panic can be reported with it.
pub fn case(s: impl FnOnce() -> String) {
    CASE.with(|c| *c.borrow_mut() = s());
}

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

static HARNESS_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

impl Ctx {
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ salt.wrapping_mul(0xff51afd7ed558ccd))
    }
    pub fn child(&self) -> Ctx {
        Ctx { seed: self.seed, thorough: self.thorough, args: self.args.clone(), ..Ctx::default() }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn full(&self) -> bool {
        self.viol.len() >= MAX_VIOL
    }
    /// One judged execution; `key` identifies the case if it is non-trivial.
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            if self.seen.len() < MAX_DISTINCT {
                self.seen.insert(k);
            }
        }
    }
    /// Note a distinct non-trivial case without counting another execution.
    pub fn mark(&mut self, key: u64) {
        if self.seen.len() < MAX_DISTINCT {
            self.seen.insert(key);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(name) {
            *x += n
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn note(&mut self, name: &str, v: impl Into<String>) {
        self.notes.insert(name.to_string(), v.into());
    }
    pub fn sample(&mut self, max: usize, s: impl FnOnce() -> String) {
        if self.samples.len() < max {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, what: impl Into<String>) {
        if self.viol.len() < MAX_VIOL {
            let w = what.into();
            eprintln!("violation: {w}");
            self.viol.push(w);
        }
    }
    pub fn expect(&mut self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.violation(what());
        }
    }
    pub fn judge(&mut self, r: Result<(), String>) {
        if let Err(e) = r {
            self.violation(e);
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.enumerated += o.enumerated;
        for k in o.seen {
            if self.seen.len() >= MAX_DISTINCT {
                break;
            }
            self.seen.insert(k);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        for v in o.viol {
            if self.viol.len() < MAX_VIOL {
                self.viol.push(v);
            }
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.inconclusive.extend(o.inconclusive);
    }
    pub fn distinct(&self) -> u64 {
        self.seen.len() as u64 + self.enumerated
    }

    /// Run `f`; a panic that comes from anywhere but this harness is a violation.
    pub fn guard(&mut self, label: &str, f: impl FnOnce(&mut Ctx)) {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if r.is_err() {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let case = CASE.with(|c| c.borrow().clone());
            if from_harness(&loc, &msg) {
                HARNESS_PANIC.lock().unwrap().push(format!("{label}: {msg} at {loc} (case {case})"));
            } else {
                self.violation(format!("{label}: panicked: {msg} at {loc}; case: {case}"));
            }
        }
    }

    /// Run `f(i, ctx)` for i in 0..parts on up to 8 threads and merge.
    pub fn parallel(&mut self, label: &str, parts: u64, f: impl Fn(u64, &mut Ctx) + Sync) {
        let next = std::sync::atomic::AtomicU64::new(0);
        let results = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..parts.min(8) {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= parts {
                            break;
                        }
                        let mut c = self.child();
                        c.guard(label, |c| f(i, c));
                        results.lock().unwrap().push((i, c));
                    }
                });
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|x| x.0);
        for (_, c) in rs {
            self.merge(c);
        }
    }
}

/// A panic raised by this harness itself (as opposed to colorz, or std on behalf of colorz).
fn from_harness(loc: &str, msg: &str) -> bool {
    (loc.starts_with("src/") || loc.contains("/harness/")) && !msg.contains("a formatting trait implementation returned an error")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

/// Entry point of every check binary: `--out FILE --seed N [--thorough] [extra...]`.
/// Exit code 0: held, 1: violated, 3: harness error, 4: inconclusive.
pub fn run(id: &str, rule: &str, f: impl FnOnce(&mut Ctx)) -> ! {
    let mut ctx = Ctx { rule: rule.to_string(), ..Ctx::default() };
    let mut out = String::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--out" => out = it.next().expect("--out"),
            "--seed" => ctx.seed = it.next().and_then(|s| s.parse().ok()).expect("--seed"),
            "--thorough" => ctx.thorough = true,
            _ => ctx.args.push(a),
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
    ctx.guard(id, f);
    let hp = HARNESS_PANIC.lock().unwrap().clone();
    let status = if !ctx.viol.is_empty() {
        1
    } else if !hp.is_empty() {
        3
    } else if !ctx.inconclusive.is_empty() || ctx.evals == 0 {
        4
    } else {
        0
    };
    let counters = ctx
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{v}", json_str(k)))
        .collect::<Vec<_>>()
        .join(",");
    let notes = ctx.notes.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect::<Vec<_>>().join(",");
    let body = format!(
        "{{\"id\":{},\"config\":{},\"seed\":{},\"status\":{status},\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":{},\"violations\":{},\"counters\":{{{counters}}},\"inconclusive\":{},\"harness\":{},\"notes\":{{{notes}}}}}\n",
        json_str(id),
        json_str(&config_name()),
        ctx.seed,
        ctx.evals,
        ctx.distinct(),
        json_str(&ctx.rule),
        json_list(&ctx.samples),
        json_list(&ctx.viol),
        json_list(&ctx.inconclusive),
        json_list(&hp),
    );
    for h in &hp {
        eprintln!("harness error: {h}");
    }
    if out.is_empty() {
        print!("{body}");
    } else {
        std::fs::write(&out, body).expect("write --out");
    }
    std::process::exit(status)
}
