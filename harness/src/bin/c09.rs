//! Compile-time and runtime forms of a color or style are interchangeable.
use colorz::mode::{ColorKind, Stream};
use colorz::{ansi, css, rgb::*, xterm, Color, ColorSpec, ComptimeColor, NoColor, Style, StyledValue};
use mon::model::*;
use mon::oracle::*;
use mon::spec::*;
use mon::{case, Ctx};
use std::fmt::Debug;

include!("../entries.rs");

/// the same effect on the terminal, from any of the probe states
fn equivalent(a: &str, b: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    for t in mon::gen::probe_terms() {
        let (mut x, mut y) = (t, t);
        x.codes(a)?;
        y.codes(b)?;
        if x != y {
            return Err(format!("{a:?} and {b:?} differ"));
        }
    }
    Ok(())
}

fn style_forms<F, B, U>(c: &mut Ctx, f: F, b: B, u: U)
where
    F: Asks + ComptimeColor + Into<Option<Color>>,
    B: Asks + ComptimeColor + Into<Option<Color>>,
    U: Asks + ComptimeColor + Into<Option<Color>>,
{
    let base = Style::new().fg(f).bg(b).underline_color(u);
    case(|| format!("style {f:?}/{b:?}/{u:?}"));
    let mut t = [const { String::new() }; 4];
    for eff in 0..1u16 << 13 {
        if c.full() {
            return;
        }
        let s = base.effect_flags(flags(eff));
        let [run, con] = [s.into_runtime_style(), s.const_into_runtime_style()];
        let w = Wants { fg: f.asks(), bg: b.asks(), ul: u.asks(), eff };
        c.evals += 2;
        c.enumerated += 2;
        apply_text(s, &mut t[0]);
        clear_text(s, &mut t[1]);
        for (how, d) in [("into_runtime_style", run), ("const_into_runtime_style", con)] {
            if wants(&d) != w || d.is_plain() != s.is_plain() {
                c.violation(format!("{how} of {s:?} gives {d:?}"));
            }
            apply_text(d, &mut t[2]);
            clear_text(d, &mut t[3]);
            let r = equivalent(&t[0], &t[2]).and_then(|_| equivalent(&t[1], &t[3]));
            if let Err(e) = r {
                c.violation(format!("{how} of {s:?}: {e}"));
            }
        }
    }
    c.count("compile-time style types", 1);
}

fn text<F: Asks, B: Asks, U: Asks>(s: Style<F, B, U>, st: Option<Stream>) -> String {
    StyledValue::new("v", s, st).to_string()
}

fn decisions<F, B, U>(c: &mut Ctx, truth: &Truth, f: F, b: B, u: U)
where
    F: Asks + ComptimeColor + Into<Option<Color>>,
    B: Asks + ComptimeColor + Into<Option<Color>>,
    U: Asks + ComptimeColor + Into<Option<Color>>,
{
    for eff in [0u16, 1, 8, 17] {
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(eff));
        let w = Wants { fg: f.asks(), bg: b.asks(), ul: u.asks(), eff };
        let kinds: Vec<ColorKind> = w.kinds().into_iter().flatten().collect();
        // a style that writes nothing looks undecided
        let nothing = format!("{}{}", s.apply(), s.clear()).is_empty();
        for g in Settings::all() {
            g.install();
            for st in OPT_STREAMS {
                let want = g.decide(truth, st, &kinds);
                let got = [
                    s.should_color(st),
                    s.into_runtime_style().should_color(st),
                    s.const_into_runtime_style().should_color(st),
                ];
                c.eval(None);
                c.enumerated += 1;
                c.count(if want { "decisions to color" } else { "decisions not to color" }, 1);
                let texts = [text(s, st), text(s.into_runtime_style(), st), text(s.const_into_runtime_style(), st)];
                let plain = texts.each_ref().map(|t| t == "v");
                let bare = |i: usize| texts[i].replace('v', "");
                if plain != [!want || nothing; 3] || equivalent(&bare(0), &bare(1)).is_err() || equivalent(&bare(0), &bare(2)).is_err() {
                    c.violation(format!("values styled {s:?} on {st:?} under {g:?}: compile-time, runtime, const runtime forms write {texts:?}, expected {}", if want { "color" } else { "no color" }));
                    if c.full() {
                        return;
                    }
                }
                if got != [want; 3] {
                    c.violation(format!("{s:?} on {st:?} under {g:?}: compile-time, runtime, const runtime forms decide {got:?}, expected {want}"));
                    if c.full() {
                        return;
                    }
                }
            }
        }
    }
}

macro_rules! cube { ($m:ident $pre:tt [$($x:expr),*]) => { cube!(@a $m $pre [$($x),*] [$($x),*] [$($x),*]) };
    (@a $m:ident $pre:tt [$($x:expr),*] $y:tt $z:tt) => { $( cube!(@b $m $pre ($x) $y $z); )* };
    (@b $m:ident $pre:tt $x:tt [$($y:expr),*] $z:tt) => { $( cube!(@c $m $pre $x ($y) $z); )* };
    (@c $m:ident ($p:expr, $q:expr) $x:tt $y:tt [$($z:expr),*]) => { $( $m($p, $q, $x, $y, $z); )* };
}

macro_rules! square {
    ($c:ident $f:ident [$($x:expr),*]) => { square!(@a $c $f [$($x),*] [$($x),*]) };
    (@a $c:ident $f:ident [$($x:expr),*] $y:tt) => { $( square!(@b $c $f ($x) $y); )* };
    (@b $c:ident $f:ident $x:tt [$($y:expr),*]) => { $( style_forms($c, $f, $x, $y); )* };
}
fn first<F: Asks + ComptimeColor + Into<Option<Color>>>(c: &mut Ctx, f: F) {
    square!(c f [NoColor, ansi::Magenta, ansi::Default, xterm::Fuchsia, css::Tan, Rgb::<1, 20, 255>]);
}

/// forms made at compile time
fn const_styles(c: &mut Ctx) {
    macro_rules! one { ($($s:expr),*) => { $( {
        const S: Style = $s.const_into_runtime_style();
        let run = $s.into_runtime_style();
        c.eval(None);
        c.enumerated += 1;
        c.expect(S == run, || format!("{} at compile time is {S:?}, at run time {run:?}", stringify!($s)));
        let (mut a, mut b) = (String::new(), String::new());
        apply_text(S, &mut a);
        apply_text($s, &mut b);
        c.judge(equivalent(&a, &b));
        clear_text(S, &mut a);
        clear_text($s, &mut b);
        c.judge(equivalent(&a, &b));
    } )* } }
    one!(
        Style::new(),
        Style::new().fg(ansi::Red).bold(),
        Style::new().bg(ansi::BrightWhite).underline().double_underline(),
        Style::new().fg(xterm::Aqua).bg(css::Tomato).underline_color(Rgb::<1, 22, 255>).underline(),
        Style::new().underline_color(ansi::Default).fg(ansi::Default).bg(ansi::Default),
        Style::new().fg(Rgb::<0, 0, 0>).bg(Rgb::<255, 255, 255>).effect_flags(colorz::EffectFlags::all()),
        Style::new().fg(css::Black).bg(xterm::Black).underline_color(css::White).without(colorz::Effect::Bold),
        Style::new().hide().toggled(colorz::Effect::Hidden).underline_color(xterm::Lime).overline(),
        Style::new().fg(NoColor).effects_array([colorz::Effect::SubScript, colorz::Effect::Dimmed])
    );
}

fn main() {
    mon::run(
        "C09",
        "every named compile-time color and 470 compile-time RGB types: constants, static texts, every conversion, \
         read back by a terminal model; 216 compile-time style types x 8192 effect sets against both runtime \
         conversions; decisions of all three forms, and values formatted with them, under every setting; all cases are distinct",
        |c| {
            judge_types(c);
            c.guard("const styles", const_styles);
            let kinds_only = c.args.iter().any(|a| a == "decisions");
            if !kinds_only {
                c.parallel("styles", 6, |p, c| {
                    match p {
                        0 => first(c, NoColor),
                        1 => first(c, ansi::BrightGreen),
                        2 => first(c, ansi::Default),
                        3 => first(c, xterm::Fuchsia),
                        4 => first(c, css::Tomato),
                        _ => first(c, Rgb::<100, 9, 10>),
                    }
                });
            }
            c.guard("decisions", |c| {
                let truth = Truth::measure();
                c.count(&format!("stream support {truth:?}"), 1);
                cube!(decisions (c, &truth) [NoColor, ansi::Magenta, xterm::Fuchsia, css::Tan, Rgb::<1, 20, 255>]);
                INITIAL.install();
            });
        },
    )
}
