//! The settings are two independent atomic registers shared by all threads.
#[path = "../../../miri/src/lin.rs"]
mod lin;

use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::Colorize;
use lin::{Event, Op, World};
use mon::model::Truth;
use mon::{case, hash_of, Ctx, Rng};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

fn world() -> World {
    let t = Truth::measure();
    let k = [ColorKind::Ansi];
    World {
        stdout: t.allows(true, &k),
        stderr: t.allows(false, &k),
        strip: mon::STRIP,
        env: if mon::STD {
            if std::env::var_os("NO_COLOR").is_some_and(|x| x != "0") {
                Some(Mode::Never)
            } else if ["ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"].iter().any(|v| std::env::var_os(v).is_some_and(|x| x != "0")) {
                Some(Mode::Always)
            } else {
                None
            }
        } else {
            None
        },
    }
}

/// Wait until all `n` are here (round counts from 0).
fn meet(gate: &AtomicUsize, n: usize, round: usize) {
    gate.fetch_add(1, Ordering::SeqCst);
    let mut spins = 0u32;
    while gate.load(Ordering::SeqCst) < n * (round + 1) {
        spins += 1;
        if spins % 2000 == 0 {
            std::thread::yield_now();
        }
        std::hint::spin_loop();
    }
}

/// `n` histories of `threads` long-lived threads; every history is checked.
fn histories(c: &mut Ctx, w: &World, r: &mut Rng, threads: usize, len: u64, n: usize, first: bool) {
    let gate = AtomicUsize::new(0);
    let plans: Vec<lin::Plan> = (0..n)
        .map(|i| {
            let mut rr = r.fork(i as u64);
            let known = if first && i == 0 { Some((Mode::Detect, Stream::AlwaysColor)) } else { None };
            lin::plan(w, &mut |n| rr.below(n), threads, len, known)
        })
        .collect();
    let done: Vec<Mutex<Vec<Vec<Event>>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (gate, plans, done) = (&gate, &plans, &done);
            let mut r = r.fork(1_000_000 + t as u64);
            s.spawn(move || {
                let mut all = Vec::with_capacity(n);
                for (i, p) in plans.iter().enumerate() {
                    let mut mine = Vec::with_capacity(p.ops[t].len() + 2);
                    // the first thread gives both settings their initial values
                    if t == 0 && !(first && i == 0) {
                        mine.push(lin::timed(t, Op::SetMode(p.initial.0)));
                        mine.push(lin::timed(t, Op::SetDefault(p.initial.1)));
                    }
                    meet(gate, threads, 2 * i);
                    for op in &p.ops[t] {
                        for _ in 0..r.below(40) {
                            std::hint::spin_loop();
                        }
                        mine.push(lin::timed(t, *op));
                    }
                    all.push(mine);
                    meet(gate, threads, 2 * i + 1);
                }
                *done[t].lock().unwrap() = all;
            });
        }
    });
    let done: Vec<Vec<Vec<Event>>> = done.into_iter().map(|m| m.into_inner().unwrap()).collect();
    for (i, p) in plans.iter().enumerate() {
        let events: Vec<Event> = done.iter().flat_map(|t| t[i].iter().copied()).collect();
        case(|| format!("history {i}"));
        // the values before the initial sets cannot be seen: they are set before anything else starts
        match lin::check(w, &p.domain, p.initial, threads, &events) {
            Ok(k) => {
                c.eval(if k.overlaps > 0 { Some(k.signature) } else { None });
                c.count("operations in histories", events.len() as u64);
                c.count("overlapping pairs with a set", k.overlaps);
                c.count("states of the linearizability checker", k.states);
                c.count(if k.overlaps > 0 { "histories with overlapping sets" } else { "histories without overlap" }, 1);
                if k.overlaps > 2 {
                    c.sample(2, || format!("from {:?}: {}", p.initial, events.iter().map(|e| format!("t{} {}..{} {:?} -> {:?}", e.thread, e.call, e.ret, e.op, e.res)).collect::<Vec<_>>().join("; ")));
                }
            }
            Err(e) => c.violation(e),
        }
        if c.full() {
            return;
        }
    }
}

/// Writers write values of a set for a while; nobody may see any other.
fn invented(c: &mut Ctx, w: &World, r: &mut Rng, modes: &[Mode], streams: &[Stream], ms: u64) {
    mode::set_coloring_mode(modes[0]);
    mode::set_default_stream(streams[0]);
    let stop = AtomicBool::new(false);
    let sets = AtomicU64::new(0);
    let strip = [Mode::Never];
    let seen_modes: &[Mode] = if w.strip { &strip } else { modes };
    let decides = |s: Option<Stream>, got: bool| {
        if w.strip {
            return !got;
        }
        let by = |s: Stream| match s {
            Stream::Stdout => w.stdout,
            Stream::Stderr => w.stderr,
            Stream::AlwaysColor => true,
            _ => false,
        };
        modes.iter().any(|m| match m {
            Mode::Always => got,
            Mode::Never => !got,
            Mode::Detect => s.map_or_else(|| streams.iter().any(|s| by(*s) == got), |s| by(s) == got),
        })
    };
    let mut outs = vec![];
    std::thread::scope(|s| {
        for t in 0..2u64 {
            let (stop, sets) = (&stop, &sets);
            let mut r = r.fork(t);
            s.spawn(move || {
                let mut n = 0;
                while !stop.load(Ordering::Relaxed) {
                    if t == 0 {
                        mode::set_coloring_mode(*r.pick(modes));
                    } else {
                        mode::set_default_stream(*r.pick(streams));
                    }
                    n += 1;
                }
                sets.fetch_add(n, Ordering::Relaxed);
            });
        }
        let hs: Vec<_> = (0..3u64)
            .map(|t| {
                let mut c = c.child();
                let mut r = r.fork(10 + t);
                let decides = &decides;
                s.spawn(move || {
                    c.guard("readers", |c| {
                        let t0 = std::time::Instant::now();
                        let mut hist = [0u64; 9];
                        let mut n = 0u64;
                        while t0.elapsed().as_millis() < ms as u128 && !c.full() {
                            for _ in 0..200 {
                                let m = mode::get_coloring_mode();
                                if !seen_modes.contains(&m) {
                                    c.violation(format!("the mode reads {m:?} while only {modes:?} are set (strip-colors {})", w.strip));
                                }
                                hist[mon::model::MODES.iter().position(|x| x.real() == m).unwrap()] += 1;
                                let d = mode::get_default_stream();
                                if !streams.contains(&d) {
                                    c.violation(format!("the default stream reads {d:?} while only {streams:?} are set"));
                                }
                                hist[3 + lin::STREAMS.iter().position(|x| *x == d).unwrap()] += 1;
                                let st = if r.chance(1, 2) { None } else { Some(*r.pick(&lin::STREAMS)) };
                                let got = match r.below(3) {
                                    0 => "x".red().stream_opt(st).to_string() != "x",
                                    _ => mode::should_color(st, &[ColorKind::Ansi]),
                                };
                                if !decides(st, got) {
                                    c.violation(format!("deciding on {st:?} gave {got} while only modes {modes:?} and default streams {streams:?} are set"));
                                }
                                hist[7 + got as usize] += 1;
                                n += 1;
                            }
                        }
                        c.evals += 3 * n;
                        c.count("reads while others set", 3 * n);
                        for (i, h) in hist.iter().enumerate() {
                            if *h > 0 {
                                c.mark(hash_of(&(format!("{modes:?}{streams:?}"), i)));
                            }
                        }
                    });
                    c
                })
            })
            .collect();
        for h in hs {
            outs.push(h.join().unwrap());
        }
        stop.store(true, Ordering::Relaxed);
    });
    c.count("sets while others read", sets.into_inner());
    for o in outs {
        c.merge(o);
    }
}

/// Each setting has one setter, which must always read back what it set last.
fn independent(c: &mut Ctx, w: &World, r: &mut Rng, ms: u64) {
    let mut outs = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let mut c = c.child();
                let mut r = r.fork(t);
                let w = *w;
                s.spawn(move || {
                    c.guard("sole setters", |c| {
                        let t0 = std::time::Instant::now();
                        let mut n = 0u64;
                        let (mut m, mut d) = (Mode::Detect, Stream::AlwaysColor);
                        if t == 0 {
                            mode::set_coloring_mode(m);
                        } else if t == 1 {
                            mode::set_default_stream(d);
                        }
                        while t0.elapsed().as_millis() < ms as u128 && !c.full() {
                            for _ in 0..200 {
                                match t {
                                    0 => {
                                        if r.chance(1, 4) && w.env.is_some() {
                                            lin::perform(Op::SetEnv);
                                            m = w.env.unwrap();
                                        } else if r.chance(2, 3) {
                                            m = *r.pick(&lin::MODES);
                                            mode::set_coloring_mode(m);
                                        }
                                        let want = if w.strip { Mode::Never } else { m };
                                        let got = mode::get_coloring_mode();
                                        if got != want {
                                            c.violation(format!("the only setter of the mode set {m:?} and read {got:?} (another thread sets the default stream)"));
                                        }
                                        let got = mode::should_color(Some(Stream::AlwaysColor), &[]);
                                        if got != (want != Mode::Never) {
                                            c.violation(format!("the only setter of the mode set {m:?} and AlwaysColor decided {got}"));
                                        }
                                    }
                                    1 => {
                                        if r.chance(2, 3) {
                                            d = *r.pick(&lin::STREAMS);
                                            mode::set_default_stream(d);
                                        }
                                        let got = mode::get_default_stream();
                                        if got != d {
                                            c.violation(format!("the only setter of the default stream set {d:?} and read {got:?} (another thread sets the mode)"));
                                        }
                                    }
                                    _ => {
                                        // others decide and read, which must change nothing
                                        let st = if r.chance(1, 2) { None } else { Some(*r.pick(&lin::STREAMS)) };
                                        let _ = mode::should_color(st, &[ColorKind::Ansi]);
                                        let _ = (mode::get_coloring_mode(), mode::get_default_stream());
                                        let _ = "x".red().stream_opt(st).to_string();
                                    }
                                }
                                n += 1;
                            }
                        }
                        c.evals += n;
                        c.count("rounds of sole setters and bystanders", n);
                        c.mark(hash_of(&t));
                    });
                    c
                })
            })
            .collect();
        for h in hs {
            outs.push(h.join().unwrap());
        }
    });
    for o in outs {
        c.merge(o);
    }
}

/// What was set before is seen by threads started later, and by threads that were there before.
fn everywhere(c: &mut Ctx, w: &World, r: &mut Rng, n: u64) {
    use std::sync::mpsc;
    let mut outs = vec![];
    std::thread::scope(|s| {
        // long-lived threads that have read the settings before they are changed
        let (tell, mut ask) = (mpsc::channel::<(u64, Option<String>)>(), vec![]);
        for _ in 0..3u64 {
            let (tx, rx) = mpsc::channel::<(u64, Mode, Stream)>();
            ask.push(tx);
            let (tell, w) = (tell.0.clone(), *w);
            s.spawn(move || {
                while let Ok((k, m, d)) = rx.recv() {
                    tell.send((k, seen(&w, m, d, "a thread that was there before"))).unwrap();
                }
            });
        }
        for k in 0..n {
            let (m, d) = (*r.pick(&lin::MODES), *r.pick(&lin::STREAMS));
            // sometimes set by a thread that is gone when others look
            if r.chance(1, 4) {
                s.spawn(move || {
                    mode::set_coloring_mode(m);
                    mode::set_default_stream(d);
                })
                .join()
                .unwrap();
            } else {
                mode::set_coloring_mode(m);
                mode::set_default_stream(d);
            }
            for a in &ask {
                a.send((k, m, d)).unwrap();
            }
            if k % 8 == 0 {
                let w = *w;
                if let Some(e) = s.spawn(move || seen(&w, m, d, "a new thread")).join().unwrap() {
                    c.violation(e);
                }
            }
            for _ in &ask {
                if let (_, Some(e)) = tell.1.recv().unwrap() {
                    c.violation(e);
                }
            }
            c.eval(Some(hash_of(&(format!("{m:?}{d:?}"), "everywhere"))));
            c.count("settings looked at by other threads", 3);
            if c.full() {
                break;
            }
        }
        drop(ask);
        outs.push(());
    });
}
fn seen(w: &World, m: Mode, d: Stream, who: &str) -> Option<String> {
    let want = if w.strip { Mode::Never } else { m };
    let (gm, gd) = (mode::get_coloring_mode(), mode::get_default_stream());
    if gm != want || gd != d {
        return Some(format!("{m:?} and {d:?} were set (strip-colors {}), {who} reads {gm:?} and {gd:?}", w.strip));
    }
    let t = World { ..*w };
    let should = match want {
        Mode::Always => true,
        Mode::Never => false,
        Mode::Detect => match d {
            Stream::Stdout => t.stdout,
            Stream::Stderr => t.stderr,
            Stream::AlwaysColor => true,
            _ => false,
        },
    };
    let got = mode::should_color(None, &[ColorKind::Ansi]);
    if got != should {
        return Some(format!("{m:?} and {d:?} were set, {who} decides {got}, expected {should}"));
    }
    None
}

fn main() {
    mon::run(
        "C19",
        "histories of 2 to 6 threads doing up to 6 sets, gets and decisions each on both settings, timed by a shared clock and checked for linearizability of \
         each setting; threads hammering with few values while others read; sole setters reading back; settings looked at by old and new threads. Distinct: \
         order of calls, returns and results differs, and a set overlapped another operation",
        |c| {
            let w = world();
            let mut r = c.rng(0xc19);
            c.guard("initial", |c| {
                let (m, d) = (mode::get_coloring_mode(), mode::get_default_stream());
                let want = if w.strip { Mode::Never } else { Mode::Detect };
                c.expect(m == want && d == Stream::AlwaysColor, || format!("before any set the settings are {m:?} and {d:?}"));
            });
            c.guard("histories", |c| {
                histories(c, &w, &mut r.fork(1), 4, 5, 200, true);
                for (i, (threads, len, n)) in [(2, 6, 6000), (3, 6, 5000), (4, 4, 4000), (6, 3, 1500)].into_iter().enumerate() {
                    histories(c, &w, &mut r.fork(2 + i as u64), threads, len, n * c.n(1, 40) as usize, false);
                    if c.full() {
                        return;
                    }
                }
            });
            let ms = c.n(150, 4000);
            use Mode::*;
            use Stream::*;
            let sets: [(&[Mode], &[Stream]); 7] = [
                (&[Always, Never], &[AlwaysColor, NeverColor]),
                (&[Detect, Never], &[NeverColor, Stdout]),
                (&[Detect, Always], &[AlwaysColor, Stderr]),
                (&[Detect], &[Stdout, Stderr]),
                (&[Always], &[AlwaysColor, NeverColor, Stdout, Stderr]),
                (&[Never], &[Stderr, NeverColor]),
                (&[Detect], &[AlwaysColor]),
            ];
            for (m, d) in sets {
                c.guard("invented values", |c| invented(c, &w, &mut r.fork(50), m, d, ms));
                r.u64();
            }
            c.guard("independence", |c| independent(c, &w, &mut r.fork(60), ms * 4));
            c.guard("everywhere", |c| everywhere(c, &w, &mut r.fork(61), c.n(3000, 60_000)));
        },
    )
}
