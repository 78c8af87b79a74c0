//! Nothing but the given destination is written to, and nothing outside the crate is changed.
#[path = "../../../freestanding/src/ops.rs"]
#[allow(dead_code)]
mod ops;

use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{Style, StyledValue};
use mon::model::*;
use mon::sys::Outcome;
use mon::{gen, hash_of, trap, Ctx, Rng};
use ops::{Rand, OPS};
use std::fmt::{self, Write as _};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const STREAMS4: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];

/// what the process is like, as far as it can be told without system calls
fn process_state() -> Vec<(std::ffi::OsString, std::ffi::OsString)> {
    std::env::vars_os().collect()
}

/// what the program itself has printed, without a newline
const PENDING: &str = "pending";

struct Log(Vec<String>, u64);
impl Log {
    /// after `what`: what was tried meanwhile?
    fn check(&mut self, what: impl FnOnce() -> String, from: usize) {
        self.1 += 1;
        let now = trap::SEEN.load(SeqCst);
        if now > from && self.0.len() < 3 {
            let calls: Vec<String> = trap::calls()[from.min(trap::MAX)..].iter().take(6).map(|c| format!("{}[{:#x}, {:#x}, {:#x}]", trap::name(c[0]), c[1], c[2], c[3])).collect();
            self.0.push(format!("{} made the system call {}", what(), calls.join(", ")));
        }
    }
}
fn watch<T>(l: &mut Log, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
    let from = trap::SEEN.load(SeqCst);
    let t = f();
    l.check(what, from);
    t
}

struct Fails(usize);
impl fmt::Write for Fails {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

static HOOK: AtomicU64 = AtomicU64::new(0);

/// Runs in a forked child with nearly all system calls refused.
fn confined(seed: u64, n: u64, order: u64) -> Vec<String> {
    let mut l = Log(vec![], 0);
    let mut r = Rng::new(seed);
    // (before the environment is looked at; no other thread is running)
    for n in ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CLICOLOR", "TERM", "COLORTERM", "CI"] {
        match r.below(4) {
            0 => {}
            1 => std::env::remove_var(n),
            k => std::env::set_var(n, ["0", "1"][k as usize - 2]),
        }
    }
    let env = process_state();
    // not yet written: it must stay so
    print!("{PENDING}");
    let mut text = String::with_capacity(1 << 16);
    // which streams are first asked about, and how, differs by `order`
    let first: [u64; 2] = [order % 4, order / 4 % 4];
    for k in first {
        let st = [Stream::Stdout, Stream::Stderr][(k % 2) as usize];
        if k < 2 {
            watch(&mut l, || format!("should_color for {st:?}"), || mode::should_color(Some(st), &[ColorKind::Rgb]));
        } else {
            watch(&mut l, || format!("writing a value for {st:?}"), || {
                let _ = write!(text, "{}", StyledValue::new("x", Style::new().fg(colorz::css::Red).bg(colorz::ansi::Blue), Some(st)));
            });
        }
    }
    #[cfg(feature = "f-std")]
    watch(&mut l, || "reading the mode from the environment".into(), || {
        mode::set_coloring_mode_from_env();
        Mode::from_env()
    });
    for i in 0..n {
        let k = r.idx(OPS.len());
        let at = r.u64();
        let (name, op) = OPS[k];
        text.clear();
        let _ = watch(&mut l, || format!("{name}, random state {at:#x} (operation {i})"), || op(&mut Rand(at), &mut text, &STREAMS4));
        if i % 16 == 0 {
            let set = Settings::random(&mut r);
            watch(&mut l, || format!("{set:?}"), || set.install());
            let (s, _) = gen::style(&mut r);
            let st = *r.pick(&OPT_STREAMS);
            let budget = r.idx(60);
            watch(&mut l, || format!("{s:?} on {st:?} into a failing sink"), || {
                let _ = write!(Fails(budget), "{}{:?}{}", StyledValue::new("a", s, st), s.apply(), s.clear());
            });
            watch(&mut l, || format!("{s:?} on {st:?} around a panicking value"), || {
                struct P;
                impl fmt::Display for P {
                    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                        std::panic::resume_unwind(Box::new(1))
                    }
                }
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(Fails(1000), "{}", StyledValue::new(P, s, st))));
            });
            watch(&mut l, || "parsing".into(), || {
                for t in ["red", "#12", "#abcdef", "300", "nope", "", "12", "#zz"] {
                    let _ = (t.parse::<colorz::Color>(), t.parse::<Mode>(), t.parse::<Stream>());
                }
            });
        }
        if l.0.len() >= 3 {
            break;
        }
    }
    // what may still be waiting in a buffer of the standard library
    let from = trap::SEEN.load(SeqCst);
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    if from < trap::MAX {
        let tried: Vec<_> = trap::calls()[from..].to_vec();
        if !(tried.len() == 1 && tried[0][0] == 1 && tried[0][1] == 1 && tried[0][3] == PENDING.len() as u64) {
            l.0.push(format!("something was written to the standard output or error through their buffers: {} bytes were pending at first, flushed were {tried:x?}", PENDING.len()));
        }
    }
    // the panic hook is the one we set
    let was = HOOK.load(SeqCst);
    let from = trap::SEEN.load(SeqCst);
    let _ = std::panic::catch_unwind(|| panic!("on purpose"));
    if HOOK.load(SeqCst) != was + 1 {
        l.0.push("the panic hook was replaced".into());
    }
    l.check(|| "a panic of the program".into(), from);
    if process_state() != env {
        l.0.push(format!("the environment was changed from {env:?} to {:?}", process_state()));
    }
    let n = l.1;
    let mut v = l.0;
    v.push(format!("{n}"));
    v
}

fn main() {
    mon::run(
        "C26",
        "random sequences of all public operations (formatting by every trait, direct codes, parsing, settings, decisions, first detections in every order, failing sinks, panicking \
         values) in forked processes in which every system call but memory management, waiting and terminal queries is recorded and refused by a seccomp filter; the standard \
         streams' buffers, the environment and the panic hook are examined afterwards. Distinct: first detections and random operations differ",
        |c: &mut Ctx| {
            std::panic::set_hook(Box::new(|_| {
                HOOK.fetch_add(1, SeqCst);
            }));
            // the monitor itself: each of these must be noticed
            for k in 0..6 {
                let ch = mon::sys::spawn_fd(move |fd| {
                    if !trap::close_in(fd) {
                        return "no filter".into();
                    }
                    match k {
                        0 => drop(std::io::stderr().write_all(b"x")),
                        1 => drop(std::fs::metadata("/")),
                        2 => drop(std::fs::File::open("/dev/null")),
                        3 => {
                            print!("x");
                            drop(std::io::stdout().flush())
                        }
                        4 => drop(std::process::Command::new("/nonexistent").spawn()),
                        _ => drop(std::thread::Builder::new().spawn(|| ())),
                    }
                    format!("{}", trap::SEEN.load(SeqCst))
                });
                match ch.wait(60_000) {
                    Outcome::Said(s) if s.parse::<u64>().is_ok_and(|n| n > 0) => c.count("probes of the monitor noticed", 1),
                    // refused while it had all signals blocked
                    Outcome::Signal(31, _) => c.count("probes of the monitor noticed", 1),
                    o => c.inconclusive.push(format!("the system call monitor does not work here (probe {k}: {o:?})")),
                }
            }
            if !c.inconclusive.is_empty() {
                return;
            }
            let n = c.n(4_000, 100_000);
            for round in 0..c.n(2, 4) {
                for order in 0..16 {
                    let seed = c.seed * 1000 + order + round * 100;
                    let ch = mon::sys::spawn_fd(move |fd| if trap::close_in(fd) { confined(seed, n, order).join("\n\u{1e}\n") } else { "no filter".into() });
                    let what = format!("first detections in order {order}, seed {seed}");
                    match ch.wait(c.n(120_000, 600_000) as i32) {
                        Outcome::Said(s) => {
                            let mut v: Vec<&str> = s.split("\n\u{1e}\n").collect();
                            match v.pop().and_then(|x| x.parse::<u64>().ok()) {
                                Some(k) => {
                                    c.evals += k;
                                    for i in 0..k {
                                        c.mark(hash_of(&(seed, i)));
                                    }
                                    c.count("operations watched", k);
                                    for x in v {
                                        c.violation(format!("{what}: {x}"));
                                    }
                                }
                                None if s.is_empty() => c.violation(format!("{what}: an operation ended the process")),
                                None => c.inconclusive.push(format!("{what}: the child said {s:?}")),
                            }
                        }
                        Outcome::Signal(31, _) => c.violation(format!("{what}: a system call was made with all signals blocked, as when starting a thread or process")),
                        Outcome::Signal(k, s) => c.inconclusive.push(format!("{what}: signal {k}, {s:?}")),
                        Outcome::Hung => c.inconclusive.push(format!("{what}: hung")),
                    }
                    if c.full() {
                        return;
                    }
                }
            }
            c.sample(1, || format!("{n} operations after first detections in 16 orders: no system call"));
        },
    )
}
