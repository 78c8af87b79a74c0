//! Writing a style or color directly ignores every coloring setting.
use colorz::mode::{self, Stream};
use colorz::{Color, ColorSpec, OptionalColor, Style, StyledValue, WriteColor};
use mon::model::*;
use mon::oracle::*;
use mon::sgr::DEFAULT;
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx, Rng};
use std::fmt::{self, Write};

/// Everything one object writes directly.
type Writer = Box<dyn Fn(&mut String) + Send + Sync>;
struct Subject {
    name: String,
    write: Writer,
    judge: Box<dyn Fn(&str) -> Result<(), String> + Send + Sync>,
}
const SEP: &str = "\0";

struct ByHand<C>(C, u8);
impl<C: OptionalColor> fmt::Display for ByHand<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match (self.0.get(), self.1) {
            (None, _) => Ok(()),
            (Some(c), 0) => c.fmt_foreground(f),
            (Some(c), 1) => c.fmt_background(f),
            (Some(c), _) => c.fmt_underline(f),
        }
    }
}

fn style_subject<F, B, U>(s: Style<F, B, U>, w: Wants) -> Subject
where
    F: Asks + Send + Sync + 'static,
    B: Asks + Send + Sync + 'static,
    U: Asks + Send + Sync + 'static,
{
    Subject {
        name: format!("{s:?}"),
        write: Box::new(move |o| {
            write!(o, "{}{SEP}{}{SEP}", s.apply(), s.clear()).unwrap();
            write!(o, "{:?}{SEP}{:?}{SEP}", s.apply(), s.clear()).unwrap();
            write!(o, "{}{SEP}{}{SEP}{}", ByHand(s.foreground, 0), ByHand(s.background, 1), ByHand(s.underline_color, 2)).unwrap();
        }),
        judge: Box::new(move |t| {
            let p: Vec<&str> = t.split(SEP).collect();
            let probes = gen::probe_terms();
            for (a, c) in [(p[0], p[1]), (p[2], p[3])] {
                judge_apply(a, &w, &probes)?;
                judge_clear(a, c, &w, &probes)?;
            }
            for (text, want, layer) in [(p[4], w.fg, Layer::Fg), (p[5], w.bg, Layer::Bg), (p[6], w.ul, Layer::Ul)] {
                match want {
                    None if text.is_empty() => {}
                    None => return Err(format!("no color wrote {text:?}")),
                    Some(x) => judge_color(text, layer, x)?,
                }
            }
            Ok(())
        }),
    }
}
fn color_subject(name: String, want: Want, six: impl Fn(usize, &mut String) + Send + Sync + 'static) -> Subject {
    Subject {
        name,
        write: Box::new(move |o| {
            for i in 0..6 {
                six(i, o);
                o.push_str(SEP);
            }
        }),
        judge: Box::new(move |t| {
            let p: Vec<&str> = t.split(SEP).collect();
            judge_six([p[0], p[1], p[2], p[3], p[4], p[5]], want)
        }),
    }
}
fn written<C: WriteColor + Asks + Send + Sync + 'static>(c: C) -> Subject {
    color_subject(format!("{c:?} by WriteColor"), c.asks().unwrap(), move |i, o| write!(o, "{}", Text(&c, i)).unwrap())
}
fn spelled<C: ColorSpec + Asks + Send + Sync + 'static>(c: C) -> Subject {
    color_subject(format!("{c:?} by ColorSpec"), c.asks().unwrap(), move |i, o| {
        o.push_str(match i {
            0 => c.foreground_args(),
            1 => c.foreground_escape(),
            2 => c.background_args(),
            3 => c.background_escape(),
            4 => c.underline_args(),
            _ => c.underline_escape(),
        })
    })
}

fn subjects(r: &mut Rng, n: u64) -> Vec<Subject> {
    let mut v = vec![];
    for _ in 0..n {
        let (s, w) = gen::style(r);
        v.push(style_subject(s, w));
        v.push(written(gen::color(r)));
        v.push(written(gen::rgb(r)));
        v.push(spelled(gen::ansi(r)));
        v.push(spelled(gen::xterm(r)));
        v.push(spelled(gen::css(r)));
        v.push(written(gen::css(r)));
        // one aspect at a time
        let (c, eff) = (gen::opt_color(r), 1 << r.below(13));
        let one = |k: u64| match k {
            0 => (Style::new().fg(c).bg(None).underline_color(None), Wants { fg: c.asks(), bg: None, ul: None, eff: 0 }),
            1 => (Style::new().fg(None).bg(c).underline_color(None), Wants { fg: None, bg: c.asks(), ul: None, eff: 0 }),
            2 => (Style::new().fg(None).bg(None).underline_color(c).underline(), Wants { fg: None, bg: None, ul: c.asks(), eff: mon::sgr::UNDER }),
            _ => (Style::new().fg(None).bg(None).underline_color(None).effect_flags(flags(eff)), Wants { fg: None, bg: None, ul: None, eff }),
        };
        let (s, w) = one(r.below(4));
        v.push(style_subject::<Option<Color>, Option<Color>, Option<Color>>(s, w));
    }
    macro_rules! typed {
        ($($f:expr, $b:expr, $u:expr;)*) => { $( for eff in [0, mon::sgr::UNDER, gen::effects(r)] {
            let s = Style::new().fg($f).bg($b).underline_color($u).effect_flags(flags(eff));
            v.push(style_subject(s, wants(&s)));
        } )* };
    }
    use colorz::{ansi, css, rgb, xterm, NoColor};
    typed! {
        NoColor, NoColor, NoColor;
        ansi::Red, NoColor, NoColor;
        NoColor, xterm::Aquamarine, NoColor;
        NoColor, NoColor, css::RebeccaPurple;
        ansi::BrightBlack, xterm::Lime, css::Tomato;
        css::AliceBlue, rgb::Rgb::<7, 77, 177>, ansi::White;
        gen::rgb(r), gen::xterm(r), gen::css(r);
        Some(gen::ansi(r)), None::<Color>, rgb::Rgb::<0, 0, 0>;
    }
    v.push(written(ansi::Magenta));
    v.push(written(xterm::Aqua));
    v.push(written(css::Indigo));
    v.push(written(rgb::Rgb::<1, 2, 3>));
    v.push(spelled(ansi::Cyan));
    v.push(spelled(rgb::Rgb::<255, 0, 100>));
    v.push(Subject {
        name: "clear_all".into(),
        write: Box::new(|o| write!(o, "{}{SEP}{:?}", Style::clear_all(), Style::clear_all()).unwrap()),
        judge: Box::new(|t| {
            let p: Vec<&str> = t.split(SEP).collect();
            for x in p {
                for mut s in gen::probe_terms() {
                    s.codes(x)?;
                    if s != DEFAULT {
                        return Err(format!("{x:?} leaves {s:?}"));
                    }
                }
            }
            Ok(())
        }),
    });
    for e in EFFECTS {
        let w = Wants { fg: None, bg: None, ul: None, eff: effect_bit(e) };
        v.push(Subject {
            name: format!("{e:?}"),
            write: Box::new(move |o| *o += &[e.apply_escape(), e.apply_args(), e.clear_escape(), e.clear_args()].join(SEP)),
            judge: Box::new(move |t| {
                let p: Vec<&str> = t.split(SEP).collect();
                judge_apply(p[0], &w, &gen::probe_terms())?;
                judge_clear(p[0], p[2], &w, &gen::probe_terms())?;
                let (a, c) = (format!("\x1b[{}m", p[1]), format!("\x1b[{}m", p[3]));
                judge_apply(&a, &w, &gen::probe_terms())?;
                judge_clear(&a, &c, &w, &gen::probe_terms())
            }),
        });
    }
    v
}

fn text(s: &Subject) -> String {
    let mut o = String::new();
    (s.write)(&mut o);
    o
}

fn compare(c: &mut Ctx, subs: &[Subject], first: &[String], state: &dyn Fn() -> String, key: u64) {
    for (i, s) in subs.iter().enumerate() {
        case(|| format!("{} with {}", s.name, state()));
        let t = text(s);
        c.eval(Some(hash_of(&(key, i))));
        if t != first[i] {
            c.violation(format!("{} wrote {t:?} with {}, but {:?} before", s.name, state(), first[i]));
            return;
        }
    }
    c.count("states in which everything was written", 1);
}

mon::spy_getenv!();

const VARS: [&str; 9] = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CLICOLOR", "TERM", "COLORTERM", "CI", "IGNORE_IS_TERMINAL"];

fn main() {
    mon::run(
        "C23",
        "the codes styles, colors, effects and clear_all write directly, written in every mode and default stream, before and after detection, with changed \
         environment variables, from another thread and from inside a styled value; each judged by the terminal model and compared with what the process wrote first, and \
         between all processes (feature sets, environments, terminals, debug and release). Distinct: object and settings differ",
        |c| {
            let mut r = c.rng(0xc23);
            let subs = subjects(&mut r, c.n(60, 1500));
            let (first, asked) = mon::spy::watch(|| subs.iter().map(text).collect::<Vec<String>>());
            c.count("environment variables asked for by direct writes", asked.len() as u64);
            if c.args.first().is_some_and(|a| a == "dump") {
                let i: usize = c.args[1].parse().unwrap();
                c.eval(None);
                c.samples = vec![format!("{}: {:?}", subs[i].name, first[i])];
                return;
            }
            for (s, t) in subs.iter().zip(&first) {
                c.eval(None);
                c.judge((s.judge)(t).map_err(|e| format!("{}: {e}", s.name)));
            }
            c.note("texts", first.iter().map(|t| format!("{:016x}", hash_of(t))).collect::<Vec<_>>().join(" "));
            c.guard("settings", |c| {
                for set in Settings::all() {
                    set.install();
                    compare(c, &subs, &first, &|| format!("{set:?}"), hash_of(&set));
                    // every stream decided upon, a value formatted
                    for st in OPT_STREAMS {
                        let _ = mode::should_color(st, &KINDS);
                        let _ = StyledValue::new("x", Style::new().fg(colorz::ansi::Red), st).to_string();
                    }
                    compare(c, &subs, &first, &|| format!("{set:?}, after detection"), hash_of(&(set, 1)));
                    // inside a styled value that is or is not colored
                    struct In<'a>(&'a Subject, &'a str, std::cell::Cell<bool>);
                    impl fmt::Display for In<'_> {
                        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                            self.2.set(text(self.0) == self.1);
                            Ok(())
                        }
                    }
                    for (s, t) in subs.iter().zip(&first) {
                        let v = StyledValue::new(In(s, t, Default::default()), Style::new().bold(), Some(*r.pick(&STREAMS)));
                        let _ = v.to_string();
                        c.eval(None);
                        c.expect(v.value.2.get(), || format!("{} wrote something else inside a styled value under {set:?}", s.name));
                    }
                    if c.full() {
                        return;
                    }
                }
            });
            c.guard("single variables", |c| {
                use std::os::unix::ffi::OsStrExt;
                let mut todo: Vec<(String, Vec<&[u8]>)> = asked.iter().map(|n| (n.clone(), mon::spy::VALUES.to_vec())).collect();
                for n in mon::spy::NAMES_IN_USE {
                    let some = match n {
                        "TERM" | "COLORTERM" | "TERM_PROGRAM" | "NO_COLOR" => mon::spy::VALUES.to_vec(),
                        _ => mon::spy::VALUES[..4].to_vec(),
                    };
                    todo.push((n.into(), some));
                }
                let was: Vec<_> = todo.iter().map(|(n, _)| std::env::var_os(n)).collect();
                for clean in [false, true] {
                    if clean {
                        todo.iter().for_each(|(n, _)| std::env::remove_var(n));
                    }
                    for (n, vs) in &todo {
                        let old = std::env::var_os(n);
                        for v in vs {
                            std::env::set_var(n, std::ffi::OsStr::from_bytes(v));
                            let at = (*v).to_vec();
                            compare(c, &subs, &first, &|| format!("{n}={:?}", String::from_utf8_lossy(&at)), hash_of(&(n, v)));
                            c.count("single variables set", 1);
                        }
                        match old {
                            Some(x) => std::env::set_var(n, x),
                            None => std::env::remove_var(n),
                        }
                        if c.full() {
                            return;
                        }
                    }
                }
                for ((n, _), x) in todo.iter().zip(was) {
                    if let Some(x) = x {
                        std::env::set_var(n, x);
                    }
                }
            });
            c.guard("environment", |c| {
                for i in 0..c.n(40, 400) {
                    for v in VARS {
                        match r.below(4) {
                            0 => std::env::remove_var(v),
                            k => std::env::set_var(v, ["0", "1", "3"][k as usize - 1]),
                        }
                    }
                    #[cfg(feature = "f-std")]
                    mode::set_coloring_mode_from_env();
                    if i % 2 == 0 {
                        let s = *r.pick(&STREAMS);
                        mode::set_default_stream(s);
                    }
                    let env = || VARS.map(|v| format!("{v}={:?}", std::env::var(v))).join(" ");
                    compare(c, &subs, &first, &|| format!("the environment {}", env()), hash_of(&env()));
                    let set = Settings::random(&mut r);
                    std::thread::scope(|s| {
                        s.spawn(|| set.install()).join().unwrap();
                        let mut k = c.child();
                        let (subs, first) = (&subs, &first);
                        let h = s.spawn(move || {
                            k.guard("thread", |c| compare(c, subs, first, &|| format!("{set:?} set by another thread"), hash_of(&(set, 2))));
                            k
                        });
                        c.merge(h.join().unwrap());
                    });
                    if c.full() {
                        return;
                    }
                }
            });
            let (s, t) = (&subs[0], &first[0]);
            c.sample(1, || format!("{}: {t:?}", s.name));
            c.sample(2, || format!("{}: {:?}", subs[1].name, first[1]));
            let _ = Stream::Stdout;
        },
    )
}
