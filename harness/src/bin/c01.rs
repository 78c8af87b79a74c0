//! Whether a value is colored follows the documented precedence.
use colorz::mode::{self, Mode};
use mon::decide::*;
use mon::model::*;
use mon::{case, gen, Ctx, Rng};

fn settings_now(c: &mut Ctx, set: &Settings, when: &str) {
    let m = mode::get_coloring_mode();
    let want = if mon::STRIP { Mode::Never } else { set.mode.real() };
    c.expect(m == want, || format!("{when}: the mode reads {m:?}, expected {want:?}"));
    let d = mode::get_default_stream();
    c.expect(d == set.default, || format!("{when}: the default stream reads {d:?}, expected {:?}", set.default));
    c.eval(None);
}

fn ask(c: &mut Ctx, r: &mut Rng, set: &Settings, truth: &Truth) {
    let stream = *r.pick(&OPT_STREAMS);
    match r.below(4) {
        0 | 1 => by_function(c, set, truth, stream, &random_kinds(r)),
        2 => {
            let (s, w) = gen::style(r);
            by_style(c, set, truth, stream, s, &w)
        }
        _ => {
            let (s, w) = gen::style(r);
            by_value(c, r, set, truth, stream, s, &w)
        }
    }
}

/// Many calls of one kind between two decisions: nothing is kept from before them.
fn bursts(c: &mut Ctx, r: &mut Rng, truth: &Truth) {
    let mut lens: Vec<u64> = (1..=40).collect();
    for k in 6..=if c.thorough { 24 } else { 17u32 } {
        lens.extend([(1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for _ in 0..20 {
        lens.push(r.below(100_000));
    }
    let mut set = Settings::random(r);
    set.install();
    for n in lens {
        for how in 0..6 {
            // warm: whatever might be remembered is
            set = Settings::random(r);
            if r.chance(2, 3) {
                set.mode = Mode2::Detect;
            }
            set.install();
            let stream = *r.pick(&OPT_STREAMS);
            let kinds = random_kinds(r);
            by_function(c, &set, truth, stream, &kinds);
            let end = Settings::random(r);
            let end = match how {
                0 => Settings { default: set.default, ..end },
                1 => Settings { mode: set.mode, ..end },
                4 | 5 => set,
                _ => end,
            };
            let mut seed = r.fork(n);
            let mut burst = move || {
                for i in 0..n {
                    match how {
                        0 => mode::set_coloring_mode(end.mode.real()),
                        1 => mode::set_default_stream(end.default),
                        2 => {
                            mode::set_coloring_mode(if i + 1 == n { end.mode } else { *seed.pick(&MODES) }.real());
                            mode::set_default_stream(if i + 1 == n { end.default } else { *seed.pick(&STREAMS) });
                        }
                        3 if i & 1 == 0 => end.install(),
                        3 => {}
                        4 => {
                            std::hint::black_box((mode::get_coloring_mode(), mode::get_default_stream()));
                        }
                        _ => {
                            std::hint::black_box(mode::should_color(stream, &[]));
                        }
                    }
                }
            };
            if n < 70_000 && r.chance(1, 6) {
                std::thread::spawn(burst).join().unwrap();
            } else {
                burst();
            }
            set = end;
            case(|| format!("{n} calls (kind {how}) between two decisions, now {set:?}"));
            by_function(c, &set, truth, stream, &kinds);
            settings_now(c, &set, "after many calls");
            for _ in 0..3 {
                ask(c, r, &set, truth);
            }
            c.count("bursts of calls", 1);
            c.count("calls in bursts", n);
            if c.full() {
                return;
            }
        }
    }
}

fn main() {
    mon::run(
        "C01",
        "in each process (one arrangement of stdout/stderr, one environment): decisions asked before any setting; then random histories of \
         setting mode and default stream (from any thread), reading them, and asking for decisions through should_color, Style::should_color and \
         formatted values; then every mode x default stream x per-value stream x list of up to 3 color kinds, long lists under random settings, and up to 2^17 calls of one kind between two decisions. Each decision is compared with a \
         sequential model of the documented precedence, fed with stream support measured independently. Distinct: settings, stream and kinds or style differ",
        |c| {
            let mut r = c.rng(0xc01);
            let truth = Truth::measure();
            c.count(&format!("stdout/stderr support {:?}/{:?}", truth.stdout, truth.stderr), 1);
            // nothing was ever set
            let mut set = INITIAL;
            c.guard("initial", |c| {
                if r.chance(1, 2) {
                    settings_now(c, &set, "before any setting");
                }
                for _ in 0..40 {
                    ask(c, &mut r, &set, &truth);
                }
                settings_now(c, &set, "before any setting");
            });
            let n = c.n(6_000, 200_000);
            c.guard("history", |c| {
                let mut hist: Vec<String> = vec![];
                for step in 0..n {
                    let before = c.viol.len();
                    match r.below(8) {
                        0 => {
                            set.mode = *r.pick(&MODES);
                            mode::set_coloring_mode(set.mode.real());
                            hist.push(format!("mode={:?}", set.mode));
                        }
                        1 => {
                            set.default = *r.pick(&STREAMS);
                            mode::set_default_stream(set.default);
                            hist.push(format!("default={:?}", set.default));
                        }
                        2 if r.chance(1, 20) => {
                            // by another thread, completed before going on
                            let s = Settings::random(&mut r);
                            std::thread::spawn(move || s.install()).join().unwrap();
                            set = s;
                            hist.push(format!("thread sets {s:?}"));
                        }
                        3 => settings_now(c, &set, "in a history"),
                        _ => ask(c, &mut r, &set, &truth),
                    }
                    if hist.len() > 6 {
                        hist.remove(0);
                    }
                    if c.viol.len() > before {
                        if let Some(v) = c.viol.last_mut() {
                            v.push_str(&format!("; step {step}, last settings {hist:?}"));
                        }
                    }
                    if c.full() {
                        return;
                    }
                }
                c.count("history steps", n);
            });
            c.guard("bursts", |c| bursts(c, &mut r, &truth));
            c.guard("long lists", |c| {
                long_kinds(&mut r, &mut |r, k| {
                    let s = Settings::random(r);
                    s.install();
                    by_function(c, &s, &truth, *r.pick(&OPT_STREAMS), k);
                    c.count("long lists of kinds", 1);
                });
            });
            let lists = kinds_lists(if c.thorough { 5 } else { 3 });
            c.guard("all settings", |c| {
                for s in Settings::all() {
                    s.install();
                    settings_now(c, &s, "after setting both");
                    for stream in OPT_STREAMS {
                        for k in &lists {
                            by_function(c, &s, &truth, stream, k);
                            if c.full() {
                                return;
                            }
                        }
                    }
                    case(|| format!("typed styles under {s:?}"));
                    let mut v = Typed { c, r: r.fork(1), set: s, truth };
                    gen::typed_styles(&mut r, 0, 1, &mut v);
                }
            });
        },
    )
}
