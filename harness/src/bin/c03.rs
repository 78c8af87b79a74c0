//! Concurrent first use of stream detection never gives a wrong answer.
//!
//! Detection asks the C library's isatty; this program provides isatty itself, gives the true
//! answer, and holds callers back so that detections overlap in chosen ways.
use colorz::mode::{self, ColorKind, Stream};
use mon::decide::{random_kinds, style_kinds};
use mon::model::*;
use mon::sys::Outcome;
use mon::{gen, hash_of, Rng};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

static PLAN: AtomicU32 = AtomicU32::new(0);
static THREADS: AtomicU32 = AtomicU32::new(0);
static INSIDE: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static PEAK: AtomicU32 = AtomicU32::new(0);
static ENTERED: AtomicU32 = AtomicU32::new(0);
static LOG: Mutex<Vec<(u8, u8)>> = Mutex::new(Vec::new());
thread_local! { static ME: std::cell::Cell<u8> = const { std::cell::Cell::new(255) }; }

fn log(ev: u8) {
    let me = ME.with(|m| m.get());
    LOG.lock().unwrap().push((me, ev));
}

fn until(ms: u64, f: impl Fn() -> bool) {
    let t = Instant::now();
    while !f() && t.elapsed() < Duration::from_millis(ms) {
        std::thread::yield_now();
    }
}

/// Replaces the C library's isatty for this whole program.
#[no_mangle]
pub extern "C" fn isatty(fd: i32) -> i32 {
    let plan = PLAN.load(SeqCst);
    let me = ME.with(|m| m.get());
    if plan == 0 || me == 255 || !(1..=2).contains(&fd) {
        return mon::hooks::is_tty(fd) as i32;
    }
    let s = (fd - 1) as usize;
    log(1 + s as u8);
    let order = ENTERED.fetch_add(1, SeqCst);
    let n = INSIDE[s].fetch_add(1, SeqCst) + 1;
    PEAK.fetch_max(n, SeqCst);
    match plan % 8 {
        // everybody inside before anybody leaves
        1 => until(2, || ENTERED.load(SeqCst) >= THREADS.load(SeqCst)),
        // leave one by one, in order of entry
        2 => std::thread::sleep(Duration::from_micros(150 * order as u64)),
        // the first one leaves last
        3 if order == 0 => std::thread::sleep(Duration::from_millis(2)),
        // odd threads are slow
        4 if me % 2 == 1 => std::thread::sleep(Duration::from_micros(700)),
        // stdout detection is slow, stderr is not; and the other way round
        5 if fd == 1 => std::thread::sleep(Duration::from_millis(1)),
        6 if fd == 2 => std::thread::sleep(Duration::from_millis(1)),
        7 => {
            for _ in 0..(me as u32 * 37 + plan / 8) % 100 {
                std::thread::yield_now();
            }
        }
        _ => {}
    }
    let r = mon::hooks::is_tty(fd) as i32;
    INSIDE[s].fetch_sub(1, SeqCst);
    log(3 + s as u8);
    r
}

#[derive(Clone, Debug)]
enum Ask {
    Function(Stream, Vec<ColorKind>),
    Default(Vec<ColorKind>),
    Style(Stream, Box<(mon::decide::RtStyle, mon::spec::Wants)>),
    Value(Stream, Box<(mon::decide::RtStyle, mon::spec::Wants)>),
}

impl Ask {
    fn random(r: &mut Rng, only: Option<Stream>) -> Ask {
        let s = only.unwrap_or(*r.pick(&[Stream::Stdout, Stream::Stderr]));
        match r.below(8) {
            0..=4 => Ask::Function(s, random_kinds(r)),
            5 => Ask::Default(random_kinds(r)),
            6 => Ask::Style(s, Box::new(gen::style(r))),
            _ => Ask::Value(s, Box::new(gen::style(r))),
        }
    }
    /// the answer, and the right one
    fn run(&self, truth: &Truth, default: Stream) -> Result<bool, String> {
        let d = |s: Stream, k: &[ColorKind]| !mon::STRIP && truth.allows(s == Stream::Stdout, k);
        let (got, want) = match self {
            Ask::Function(s, k) => (mode::should_color(Some(*s), k), d(*s, k)),
            Ask::Default(k) => (mode::should_color(None, k), d(default, k)),
            Ask::Style(s, x) => (x.0.should_color(*s), d(*s, &style_kinds(&x.1))),
            Ask::Value(s, x) => {
                let t = mon::decide::value_text(0, "t", x.0, Some(*s));
                let want = d(*s, &style_kinds(&x.1));
                if want {
                    if let Err(e) = mon::oracle::judge_wrapped(&t, "t", &x.1) {
                        return Err(format!("{self:?}: {e}, expected colored output"));
                    }
                    return Ok(true);
                }
                (t != "t", want)
            }
        };
        if got == want {
            Ok(got)
        } else {
            Err(format!("{self:?} was answered {got}, expected {want}"))
        }
    }
}

/// One fresh process: threads race for the first decisions.
fn attempt(mut r: Rng, truth: Truth, plan: u32) -> String {
    let n = 2 + r.idx(7);
    let only = match r.below(3) {
        0 => Some(Stream::Stdout),
        1 => Some(Stream::Stderr),
        _ => None,
    };
    let default = *r.pick(&[Stream::Stdout, Stream::Stderr]);
    mode::set_default_stream(default);
    PLAN.store(plan, SeqCst);
    THREADS.store(n as u32, SeqCst);
    let plans: Vec<Vec<Ask>> = (0..n).map(|_| (0..3).map(|i| Ask::random(&mut r, if i == 0 { only } else { None })).collect()).collect();
    let barrier = Barrier::new(n);
    // threads that go on asking until all others have had their first answers
    let pollers: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    let (settled, polls) = (AtomicU32::new(0), AtomicU32::new(0));
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for (i, asks) in plans.iter().enumerate() {
            let (barrier, bad, settled, polls, poll) = (&barrier, &bad, &settled, &polls, pollers[i]);
            sc.spawn(move || {
                ME.with(|m| m.set(i as u8));
                barrier.wait();
                for (j, a) in asks.iter().enumerate() {
                    let res = std::panic::catch_unwind(|| a.run(&truth, default)).unwrap_or_else(|_| Err(format!("{a:?} panicked")));
                    match res {
                        Ok(x) => log(5 + x as u8),
                        Err(e) => bad.lock().unwrap().push(format!("thread {i} of {n}, decision {j}: {e}")),
                    }
                }
                settled.fetch_add(1, SeqCst);
                let (t, mut k) = (Instant::now(), 0u32);
                let fns: Vec<_> = [vec![], vec![ColorKind::Ansi], vec![ColorKind::Xterm], vec![ColorKind::Rgb]]
                    .into_iter()
                    .flat_map(|k| [Ask::Function(Stream::Stdout, k.clone()), Ask::Function(Stream::Stderr, k)])
                    .filter(|a| only.is_none() || matches!(a, Ask::Function(s, _) if Some(*s) == only))
                    .collect();
                while poll && settled.load(SeqCst) < n as u32 && t.elapsed() < Duration::from_millis(4) {
                    k += 1;
                    if let Err(e) = fns[k as usize % fns.len()].run(&truth, default) {
                        bad.lock().unwrap().push(format!("thread {i} of {n}, poll {k}: {e}"));
                        break;
                    }
                }
                polls.fetch_add(k, SeqCst);
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    for s in [Stream::Stdout, Stream::Stderr] {
        for k in KINDS {
            for list in [vec![], vec![k], vec![ColorKind::Ansi, k]] {
                if let Err(e) = Ask::Function(s, list).run(&truth, default) {
                    bad.push(format!("later, alone: {e}"));
                }
            }
        }
    }
    let log = LOG.lock().unwrap().clone();
    let asked = log.iter().filter(|x| x.1 == 1 || x.1 == 2).count();
    if bad.is_empty() {
        format!("OK {} {} {} {}", n as u32 * 3 + 24 + polls.load(SeqCst), PEAK.load(SeqCst), asked, hash_of(&log))
    } else {
        bad.truncate(4);
        format!("BAD {} (plan {plan}, event log (thread, 1/2 enter, 3/4 leave isatty for stdout/stderr, 5/6 answered no/yes): {log:?})", bad.join("; "))
    }
}

fn main() {
    mon::run(
        "C03",
        "each attempt is a forked fresh process in which 2-8 threads leave a barrier and make their first three Stdout/Stderr decisions (function, style, \
         value; random color kinds); the process's own isatty holds detections so that they overlap in eight ways. Non-trivial: at least two threads were \
         inside detection of the same stream at once; distinct by the order of enter/leave/answer events",
        |c| {
            let truth = Truth::measure();
            c.count(&format!("stdout/stderr support {:?}/{:?}", truth.stdout, truth.stderr), 1);
            let r = c.rng(0xc03);
            let n = c.n(800, 12000);
            let mut hung = 0;
            let mut next = 0;
            let mut running = std::collections::VecDeque::new();
            while next < n || !running.is_empty() {
                while next < n && running.len() < 4 {
                    let plan = next as u32 + 8;
                    let rr = r.fork(next);
                    running.push_back((next, mon::sys::spawn(move || attempt(rr, truth, plan))));
                    next += 1;
                }
                let (i, ch) = running.pop_front().unwrap();
                match ch.wait(40_000) {
                    Outcome::Said(s) if s.starts_with("OK ") => {
                        let f: Vec<u64> = s[3..].split(' ').map(|x| x.parse().unwrap()).collect();
                        c.evals += f[0];
                        c.count("attempts", 1);
                        c.count("terminal queries", f[2]);
                        c.count(&format!("attempts with {} threads detecting one stream at once", f[1]), 1);
                        if f[1] >= 2 {
                            c.mark(f[3]);
                        }
                        c.sample(2, || format!("attempt {i}: peak {} concurrent detections, {} terminal queries", f[1], f[2]));
                    }
                    Outcome::Said(s) if s.starts_with("BAD ") => {
                        c.evals += 1;
                        c.violation(format!("attempt {i}, streams {truth:?}: {}", &s[4..]));
                    }
                    Outcome::Signal(s, t) => c.violation(format!("attempt {i}: died of signal {s} {t}")),
                    Outcome::Hung => {
                        hung += 1;
                        if hung == 3 {
                            c.violation(format!("three attempts (last: {i}) made no progress for 40 s: decisions never answered"));
                            return;
                        }
                    }
                    Outcome::Said(s) => panic!("attempt {i} said {s:?}"),
                }
                if c.full() {
                    return;
                }
            }
            if hung > 0 {
                c.inconclusive.push(format!("{hung} attempts made no progress for 40 s"));
            }
        },
    )
}
