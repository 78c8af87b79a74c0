//! Effects have their standard codes, and argument forms can be joined into one sequence.
use colorz::{Effect, Style, WriteColor};
use mon::oracle::*;
use mon::sgr::{Term, ALL};
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx, Rng};

/// constants, as a program would declare them
const CONST: [[&str; 4]; 13] = {
    let mut t = [[""; 4]; 13];
    let mut i = 0;
    while i < 13 {
        let e = EFFECTS[i];
        t[i] = [e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape()];
        i += 1;
    }
    t
};

/// what only `e` does to a terminal
fn check(c: &mut Ctx, e: Effect, t: Term, texts: [&str; 4], what: &str) {
    let w = Wants { fg: None, bg: None, ul: None, eff: effect_bit(e) };
    let [a, k, ae, ke] = texts;
    let (fa, fk) = (format!("\x1b[{a}m"), format!("\x1b[{k}m"));
    for (x, y) in [(ae, ke), (fa.as_str(), fk.as_str()), (ae, fk.as_str()), (fa.as_str(), ke)] {
        c.evals += 1;
        c.judge(judge_apply(x, &w, &[t]).map_err(|m| format!("{e:?} {what}: {m}")));
        c.judge(judge_clear(x, y, &w, &[t]).map_err(|m| format!("{e:?} {what}: {m}")));
    }
}

/// one argument form and the escape form of the same thing
fn piece(r: &mut Rng) -> (String, String, String) {
    match r.below(8) {
        0..=2 => {
            let e = *r.pick(&EFFECTS);
            (format!("{e:?}"), e.apply_args().into(), e.apply_escape().into())
        }
        3 => {
            let e = *r.pick(&EFFECTS);
            (format!("no {e:?}"), e.clear_args().into(), e.clear_escape().into())
        }
        k => {
            let c = gen::color(r);
            fn two(c: impl WriteColor + Copy, k: u64) -> (String, String) {
                match k {
                    4 | 5 => (FgArgs(c).to_string(), FgEsc(c).to_string()),
                    6 => (BgArgs(c).to_string(), BgEsc(c).to_string()),
                    _ => (UlArgs(c).to_string(), UlEsc(c).to_string()),
                }
            }
            let (a, e) = match c {
                colorz::Color::Ansi(x) if r.chance(1, 2) => two(x, k),
                colorz::Color::Xterm(x) if r.chance(1, 2) => two(x, k),
                colorz::Color::Css(x) if r.chance(1, 2) => two(x, k),
                colorz::Color::Rgb(x) if r.chance(1, 2) => two(x, k),
                _ => two(c, k),
            };
            (format!("{} {c:?}", ["fg", "bg", "ul"][(k as usize - 4).saturating_sub(1)]), a, e)
        }
    }
}

fn main() {
    mon::run(
        "C25",
        "each effect's apply and clear codes in argument and escape form, at compile time and run time, from every one of the 8192 effect states of the terminal with several colors; \
         random sequences of up to 12 effects and colors, their argument forms joined into one sequence against their escape forms one after another; judged by the terminal model. \
         Distinct: terminal state or sequence differs",
        |c| {
            c.guard("effects", |c| {
                let probes = gen::probe_terms();
                for (i, e) in EFFECTS.into_iter().enumerate() {
                    case(|| format!("the codes of {e:?}"));
                    let texts = [e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape()];
                    for eff in 0..=ALL {
                        for p in probes {
                            check(c, e, Term { eff, ..p }, texts, "at run time");
                        }
                        if c.full() {
                            return;
                        }
                    }
                    c.enumerated += 3 * 8192;
                    for p in probes {
                        check(c, e, p, CONST[i], "at compile time");
                    }
                    // in a style alone
                    let s = Style::new().with(e);
                    check(c, e, probes[1], [texts[0], texts[1], &s.apply().to_string(), &s.clear().to_string()], "in a style");
                    c.sample(2, || format!("{e:?}: {texts:?}"));
                }
            });
            c.parallel("joined", 8, |p, c| {
                let mut r = c.rng(p);
                for _ in 0..c.n(60_000, 3_000_000) {
                    let n = 1 + r.idx(12);
                    let ps: Vec<_> = (0..n).map(|_| piece(&mut r)).collect();
                    let (start, names) = (gen::term(&mut r), || ps.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "));
                    case(|| format!("joining {}", names()));
                    let joined = format!("\x1b[{}m", ps.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join(";"));
                    let single: String = ps.iter().map(|p| p.2.as_str()).collect();
                    let (mut a, mut b) = (start, start);
                    let r = a.codes(&joined).and_then(|_| b.codes(&single));
                    c.eval(Some(hash_of(&joined)));
                    match r {
                        Err(e) => c.violation(format!("{}: {e}", names())),
                        Ok(()) => c.expect(a == b, || format!("{}: from {start:?}, {joined:?} leads to {a:?} but {single:?} to {b:?}", names())),
                    }
                    c.sample(3, || format!("{joined:?} as {single:?}"));
                }
            });
        },
    )
}
