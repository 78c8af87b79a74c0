//! Every color writes its documented SGR encoding in every position.
use colorz::mode::ColorKind;
use colorz::{ansi, css, rgb::*, xterm};
use colorz::{ansi::AnsiColor, css::CssColor, xterm::XtermColor, Color, ColorSpec, ComptimeColor, WriteColor};
use mon::oracle::*;
use mon::spec::*;
use mon::{case, Ctx};
use std::fmt::{Debug, Write};

include!("../entries.rs");

fn dec(n: u8, out: &mut String) {
    write!(out, "{n}").unwrap();
}

/// the documented texts: args/escape for foreground, background, underline
fn canonical(w: Want) -> [Option<String>; 3] {
    let ext = |k: &str| match w {
        Want::Ansi(n) | Want::Idx(n) => Some(format!("{k};5;{n}")),
        Want::Rgb(r, g, b) => Some(format!("{k};2;{r};{g};{b}")),
        Want::Default => None,
    };
    match w {
        Want::Ansi(n) => {
            let (f, b) = if n < 8 { (30 + n, 40 + n) } else { (90 + n - 8, 100 + n - 8) };
            [Some(f.to_string()), Some(b.to_string()), ext("58")]
        }
        Want::Default => [Some("39".into()), Some("49".into()), None],
        _ => [ext("38"), ext("48"), ext("58")],
    }
}

/// six texts against the documented encoding; leading zeros and the like are judged by meaning
fn check_six(t: [&str; 6], w: Want) -> Result<(), String> {
    judge_six(t, w)?;
    for (i, c) in canonical(w).iter().enumerate() {
        if let Some(c) = c {
            let norm = |s: &str| s.split(';').map(|p| p.trim_start_matches('0').to_string()).collect::<Vec<_>>();
            if norm(t[2 * i]) != norm(c) {
                return Err(format!("argument form {:?} instead of {c:?}", t[2 * i]));
            }
        }
        if t[2 * i + 1] != format!("\x1b[{}m", t[2 * i]) {
            // the same color by other parameters would have been rejected above
            let inner = t[2 * i + 1].strip_prefix("\x1b[").and_then(|s| s.strip_suffix('m'));
            if inner.is_none() {
                return Err(format!("escape form {:?} is not one sequence", t[2 * i + 1]));
            }
        }
    }
    Ok(())
}

fn check<C: WriteColor + std::fmt::Debug>(ctx: &mut Ctx, c: C, w: Want, how: &str) {
    case(|| format!("{c:?} {how}"));
    let t = six_texts(&c);
    ctx.eval(None);
    ctx.enumerated += 1;
    let r = check_six([&t[0], &t[1], &t[2], &t[3], &t[4], &t[5]], w);
    if let Err(e) = r {
        ctx.violation(format!("{c:?} {how}: {e}"));
    }
    if c.color_kind() != w.kind() {
        ctx.violation(format!("{c:?} {how}: kind {:?}", c.color_kind()));
    }
    ctx.sample(4, || format!("{c:?} {how} -> {t:?}"));
}
fn check_spec<C: ColorSpec + std::fmt::Debug>(ctx: &mut Ctx, c: C, w: Want, how: &str) {
    check(ctx, c, w, how);
    ctx.eval(None);
    ctx.enumerated += 1;
    let t = [
        c.foreground_args(),
        c.foreground_escape(),
        c.background_args(),
        c.background_escape(),
        c.underline_args(),
        c.underline_escape(),
    ];
    if let Err(e) = check_six(t, w) {
        ctx.violation(format!("{c:?} {how} (static text): {e}"));
    }
    if C::KIND != w.kind() {
        ctx.violation(format!("{c:?} {how}: KIND {:?}", C::KIND));
    }
}

/// what was written is not the usual text: judge it by meaning
fn other(ctx: &mut Ctx, got: &str, c: impl std::fmt::Debug, w: Want, how: &str) {
    let t: Vec<&str> = got.split('|').collect();
    let r = match t[..] {
        [a, b, c, d, e, f] => check_six([a, b, c, d, e, f], w),
        _ => Err("a separator was written".into()),
    };
    ctx.judge(r.map_err(|e| format!("{c:?} {how} wrote {got:?}: {e}")));
}

macro_rules! into_buf {
    ($b:ident, $c:expr) => {{
        $b.clear();
        write!(
            $b,
            "{}|{}|{}|{}|{}|{}",
            FgArgs($c),
            FgEsc($c),
            BgArgs($c),
            BgEsc($c),
            UlArgs($c),
            UlEsc($c)
        )
        .expect("write to String");
    }};
}

fn main() {
    mon::run(
        "C08",
        "all 2^24 RGB colors directly and as Color::Rgb, every ANSI/Xterm/CSS color as palette value, as Color and as \
         static text, every named compile-time color and 470 compile-time RGB types, each in six text forms, read back by a terminal model; all are non-trivial and distinct",
        |c| {
            c.guard("palettes", |c| {
                let mut ansi: Vec<(AnsiColor, Want)> = ANSI.iter().map(|(a, _)| (*a, ansi_want(*a))).collect();
                ansi.push((AnsiColor::Default, Want::Default));
                for (a, w) in ansi {
                    check_spec(c, a, w, "ansi");
                    check(c, Color::Ansi(a), w, "as Color");
                    // inherent constant functions
                    let t = [
                        a.foreground_args(),
                        a.foreground_escape(),
                        a.background_args(),
                        a.background_escape(),
                        AnsiColor::underline_args(a),
                        AnsiColor::underline_escape(a),
                    ];
                    c.judge(check_six(t, w).map_err(|e| format!("{a:?} inherent: {e}")));
                }
                for (x, n) in XTERM {
                    let w = Want::Idx(n);
                    check_spec(c, x, w, "xterm");
                    check(c, Color::Xterm(x), w, "as Color");
                    let t = [
                        XtermColor::foreground_args(x),
                        XtermColor::foreground_escape(x),
                        XtermColor::background_args(x),
                        XtermColor::background_escape(x),
                        XtermColor::underline_args(x),
                        XtermColor::underline_escape(x),
                    ];
                    c.judge(check_six(t, w).map_err(|e| format!("{x:?} inherent: {e}")));
                }
                for (x, (r, g, b), _) in CSS {
                    let w = Want::Rgb(r, g, b);
                    check_spec(c, x, w, "css");
                    check(c, Color::Css(x), w, "as Color");
                    let t = [
                        CssColor::foreground_args(x),
                        CssColor::foreground_escape(x),
                        CssColor::background_args(x),
                        CssColor::background_escape(x),
                        CssColor::underline_args(x),
                        CssColor::underline_escape(x),
                    ];
                    c.judge(check_six(t, w).map_err(|e| format!("{x:?} inherent: {e}")));
                }
            });
            judge_types(c);
            c.parallel("rgb", 256, |red, c| {
                let red = red as u8;
                let (mut got, mut want, mut rgb) = (String::new(), String::new(), String::new());
                for green in 0..=255u8 {
                    if c.full() {
                        return;
                    }
                    case(|| format!("rgb {red},{green},?"));
                    for blue in 0..=255u8 {
                        let k = RgbColor { red, green, blue };
                        rgb.clear();
                        dec(red, &mut rgb);
                        rgb.push(';');
                        dec(green, &mut rgb);
                        rgb.push(';');
                        dec(blue, &mut rgb);
                        want.clear();
                        for (i, n) in ["38;2;", "48;2;", "58;2;"].iter().enumerate() {
                            if i > 0 {
                                want.push('|');
                            }
                            want.push_str(n);
                            want.push_str(&rgb);
                            want.push_str("|\x1b[");
                            want.push_str(n);
                            want.push_str(&rgb);
                            want.push('m');
                        }
                        c.evals += 2;
                        c.enumerated += 2;
                        into_buf!(got, k);
                        if got != want {
                            other(c, &got, k, Want::Rgb(red, green, blue), "rgb");
                        }
                        into_buf!(got, Color::Rgb(k));
                        if got != want {
                            other(c, &got, Color::Rgb(k), Want::Rgb(red, green, blue), "rgb as Color");
                        }
                    }
                }
                if red == 7 {
                    c.sample(1, || format!("last of red=7: {got:?}"));
                }
            });
            // each component alone under every formatting flag of the outer formatter
            c.guard("flags", |c| {
                let mut r = c.rng(5);
                for _ in 0..c.n(20_000, 200_000) {
                    let k = mon::gen::color(&mut r);
                    let w = k.asks().unwrap();
                    case(|| format!("{k:?}"));
                    let (wd, p) = (r.idx(30), r.idx(30));
                    let t = match r.below(3) {
                        0 => [
                            format!("{:>wd$.p$}", FgArgs(k)),
                            format!("{:>wd$.p$}", FgEsc(k)),
                            format!("{:>wd$.p$}", BgArgs(k)),
                            format!("{:>wd$.p$}", BgEsc(k)),
                            format!("{:>wd$.p$}", UlArgs(k)),
                            format!("{:>wd$.p$}", UlEsc(k)),
                        ],
                        1 => [
                            format!("{:+#0wd$}", FgArgs(k)),
                            format!("{:+#0wd$}", FgEsc(k)),
                            format!("{:+#0wd$}", BgArgs(k)),
                            format!("{:+#0wd$}", BgEsc(k)),
                            format!("{:+#0wd$}", UlArgs(k)),
                            format!("{:+#0wd$}", UlEsc(k)),
                        ],
                        _ => six_texts(&k),
                    };
                    c.eval(Some(mon::hash_of(&(k, wd, p))));
                    let r = check_six([&t[0], &t[1], &t[2], &t[3], &t[4], &t[5]], w);
                    c.judge(r.map_err(|e| format!("{k:?} with width {wd} precision {p}: {e}")));
                }
            });
        },
    )
}
