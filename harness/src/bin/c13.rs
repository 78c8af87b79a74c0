//! The environment selects the coloring mode as documented.
use colorz::mode::{self, Mode};
use mon::model::*;
use mon::{case, Ctx, Rng};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

const VARS: [&str; 4] = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"];
/// unset, "0", and other values
const VALUES: [Option<&[u8]>; 10] =
    [None, Some(b"0"), Some(b""), Some(b"1"), Some(b"00"), Some(b"false"), Some(b" 0"), Some(b"\xff0"), Some(b"0\n"), Some(b"never")];
/// variables that must not matter
const OTHERS: [&str; 8] = ["CLICOLOR", "COLOR", "TERM", "COLORTERM", "no_color", "CI", "IGNORE_IS_TERMINAL", "COLORZ"];

fn set(k: &str, v: Option<&[u8]>) {
    match v {
        None => std::env::remove_var(k),
        Some(b) => std::env::set_var(k, OsStr::from_bytes(b)),
    }
}
fn expected(v: [Option<&[u8]>; 4]) -> Option<Mode> {
    let on = |x: Option<&[u8]>| matches!(x, Some(b) if b != b"0");
    if on(v[0]) {
        Some(Mode::Never)
    } else if v[1..].iter().any(|x| on(*x)) {
        Some(Mode::Always)
    } else {
        None
    }
}

fn one(c: &mut Ctx, v: [Option<&[u8]>; 4], prior: Settings) {
    for (k, x) in VARS.iter().zip(v) {
        set(k, x);
    }
    prior.install();
    let name = || {
        let text = |x: &[u8]| match x.len() {
            0..=80 => format!("{:?}", String::from_utf8_lossy(x)),
            n => format!("{:?}... ({n} bytes)", String::from_utf8_lossy(&x[..40])),
        };
        VARS.iter().zip(v).map(|(k, x)| format!("{k}={}", x.map_or("unset".into(), text))).collect::<Vec<_>>().join(" ")
    };
    case(name);
    let want = expected(v);
    let got = Mode::from_env();
    c.eval(None);
    c.expect(got == want, || format!("{}: Mode::from_env() is {got:?}, expected {want:?}", name()));
    let m0 = mode::get_coloring_mode();
    c.expect(m0 == if mon::STRIP { Mode::Never } else { prior.mode.real() }, || format!("reading the environment changed the mode to {m0:?}"));
    mode::set_coloring_mode_from_env();
    let m1 = mode::get_coloring_mode();
    let want1 = if mon::STRIP { Mode::Never } else { want.unwrap_or(prior.mode.real()) };
    c.expect(m1 == want1, || format!("{}, before {prior:?}: the mode became {m1:?}, expected {want1:?}", name()));
    let d = mode::get_default_stream();
    c.expect(d == prior.default, || format!("{}, before {prior:?}: the default stream became {d:?}", name()));
    for (k, x) in VARS.iter().zip(v) {
        let now = std::env::var_os(k);
        c.expect(now.as_deref() == x.map(OsStr::from_bytes), || format!("{}: {k} became {now:?}", name()));
    }
    // what is then decided
    let color = Settings { mode: Mode2::of(want1), default: prior.default };
    let truth = Truth::measure();
    for s in OPT_STREAMS {
        let g = mode::should_color(s, &[]);
        let w = color.decide(&truth, s, &[]);
        // detection may have been cached under an earlier environment
        if !matches!(s.unwrap_or(prior.default), mode::Stream::Stdout | mode::Stream::Stderr) || want1 != Mode::Detect {
            c.expect(g == w, || format!("{}, before {prior:?}: should_color({s:?}) is {g}, expected {w}", name()));
        }
    }
    c.count(&format!("{want:?}"), 1);
    c.sample(6, || format!("{} -> {got:?}", name()));
}

mon::spy_getenv!();

/// values that are not "0", though some are close to it, of many lengths
fn any_values(r: &mut Rng, random: u64) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = (1..=255u8).map(|b| vec![b]).collect();
    for b in 1..=255u8 {
        all.extend([vec![b'0', b], vec![b, b'0'], vec![b, b], vec![b'0', b, b'0']]);
    }
    all.extend(mon::spy::VALUES.iter().map(|v| v.to_vec()));
    all.extend(["0x0", "0.0", "-0", "+0", "0e0", "\u{ff10}", "\u{660}", "zero", "null", "none", "False", "FALSE", "No", "OFF", "disabled"].map(|s| s.as_bytes().to_vec()));
    for n in [2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 1 << 20] {
        for b in [b'0', b'1', b'x', b' ', 0xff] {
            let mut v = vec![b; n];
            all.push(v.clone());
            v[0] = b'0';
            all.push(v.clone());
            v[n - 1] = b'0';
            all.push(v);
        }
    }
    for _ in 0..random {
        let k = r.below(12);
        let n = 1 + r.idx(1 << k);
        all.push((0..n).map(|_| 1 + r.below(255) as u8).collect());
    }
    all
}

fn main() {
    mon::run(
        "C13",
        "every combination of the four variables over unset, \"0\" and eight other values (empty and non-UTF-8 included), \
         from every prior mode, with other variables varied at random; every combination is distinct",
        |c| {
            let mut r = c.rng(1);
            for i in 0..10_000usize {
                if c.full() {
                    return;
                }
                let v = [i % 10, i / 10 % 10, i / 100 % 10, i / 1000].map(|k| VALUES[k]);
                for o in OTHERS {
                    let x = VALUES[r.idx(10)];
                    set(o, x);
                }
                let prior = [Settings { mode: MODES[r.idx(3)], default: STREAMS[r.idx(4)] }];
                let all: Vec<Settings> = MODES.iter().map(|m| Settings { mode: *m, default: STREAMS[r.idx(4)] }).collect();
                c.guard("env", |c| {
                    for p in if c.thorough { &all[..] } else { &prior[..] } {
                        one(c, v, *p);
                        c.enumerated += 1;
                    }
                });
            }
            // variables that must not matter, one at a time: those in use elsewhere and those asked for here
            c.guard("other variables", |c| {
                let mut asked = vec![];
                for i in 0..81usize {
                    let v = [i % 3, i / 3 % 3, i / 9 % 3, i / 27].map(|k| VALUES[k]);
                    VARS.iter().zip(v).for_each(|(k, x)| set(k, x));
                    asked.extend(mon::spy::watch(Mode::from_env).1);
                }
                asked.sort();
                asked.dedup();
                asked.retain(|n| !VARS.contains(&&n[..]));
                c.count("other variables asked for", asked.len() as u64);
                let n_asked = asked.len();
                asked.extend(mon::spy::NAMES_IN_USE.iter().filter(|n| !VARS.contains(n)).map(|n| n.to_string()));
                asked.iter().for_each(|n| set(n, None));
                for (i, n) in asked.iter().enumerate() {
                    let values = if i < n_asked || n == "TERM" || n == "COLORTERM" { &mon::spy::VALUES[..] } else { &mon::spy::VALUES[..11] };
                    for x in values {
                        set(n, Some(x));
                        for v in [[0; 4], [1; 4], [0, 0, 0, 3], [3, 0, 0, 0], [1, 3, 1, 1], [2, 0, 0, 0], [0, 0, 2, 0]] {
                            let k = c.viol.len();
                            one(c, v.map(|k| VALUES[k]), Settings::random(&mut r));
                            c.viol[k..].iter_mut().for_each(|v| v.push_str(&format!(" (with {n}={:?})", String::from_utf8_lossy(x))));
                        }
                        c.count("settings of one other variable", 1);
                    }
                    set(n, None);
                    if c.full() {
                        return;
                    }
                }
            });
            // each variable with very many values, alone, with "0" everywhere else, and against the others
            c.guard("values", |c| {
                let n = c.n(500, 50_000);
                let all = any_values(&mut r, n);
                for x in &all {
                    for k in 0..4 {
                        let rest = *r.pick(&VALUES);
                        for others in [None, Some(&b"0"[..]), rest] {
                            let mut v = [others; 4];
                            v[k] = Some(x);
                            one(c, v, Settings::random(&mut r));
                            if c.full() {
                                return;
                            }
                        }
                    }
                    c.enumerated += 8;
                }
                c.count("values of each variable", all.len() as u64);
            });
            // from every prior setting, over the values that matter
            for i in 0..81usize {
                let v = [i % 3, i / 3 % 3, i / 9 % 3, i / 27].map(|k| VALUES[k]);
                for p in Settings::all() {
                    c.guard("env", |c| one(c, v, p));
                }
            }
            // histories: the environment changes between calls, settings persist
            let n = c.n(20_000, 400_000);
            c.guard("history", |c| {
                let mut model = INITIAL;
                model.install();
                let mut env = [None; 4];
                for (k, x) in VARS.iter().zip(env) {
                    set(k, x);
                }
                for step in 0..n {
                    let op = r.below(4);
                    match op {
                        0 => {
                            let k = r.idx(4);
                            env[k] = if r.chance(1, 2) { None } else { VALUES[r.idx(10)] };
                            set(VARS[k], env[k]);
                        }
                        1 => {
                            mode::set_coloring_mode_from_env();
                            if let Some(m) = expected(env) {
                                model.mode = Mode2::of(m);
                            }
                        }
                        2 => {
                            model.mode = *r.pick(&MODES);
                            mode::set_coloring_mode(model.mode.real());
                        }
                        _ => {
                            model.default = *r.pick(&STREAMS);
                            mode::set_default_stream(model.default);
                        }
                    }
                    let want = if mon::STRIP { Mode::Never } else { model.mode.real() };
                    let got = mode::get_coloring_mode();
                    c.eval(None);
                    c.expect(got == want, || format!("step {step}: after operation {op} with {env:?} the mode is {got:?}, expected {want:?}"));
                    let d = mode::get_default_stream();
                    c.expect(d == model.default, || format!("step {step}: after operation {op} the default stream is {d:?}"));
                    c.count("history steps", 1);
                    if c.full() {
                        return;
                    }
                }
            });
        },
    )
}
