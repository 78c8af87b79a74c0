//! Named colors denote their published values.
use colorz::{ansi, css, rgb::RgbColor, xterm, xterm::XtermColor, Color};
use mon::oracle::*;
use mon::spec::*;
use mon::{case, Ctx};

macro_rules! css_checks { ($($n:ident $r:literal $g:literal $b:literal)*) => {
    fn css_names(c: &mut Ctx) { $( {
        note(stringify!($n));
        let rgb = RgbColor { red: $r, green: $g, blue: $b };
        let v = css::CssColor::$n;
        one(c, stringify!($n), "CssColor::rgb", v.rgb() == rgb, &v.rgb());
        one(c, stringify!($n), "RgbColor::from(CssColor)", RgbColor::from(v) == rgb, &"");
        let fixed: RgbColor = css::$n::RGB.into();
        one(c, stringify!($n), "the RGB constant", fixed == rgb, &fixed);
        one(c, stringify!($n), "CssColor::args", v.args() == concat!("2;", $r, ";", $g, ";", $b), &v.args());
        one(c, stringify!($n), "the ARGS constant", css::$n::ARGS == concat!("2;", $r, ";", $g, ";", $b), &css::$n::ARGS);
        let w = Want::Rgb($r, $g, $b);
        six(c, stringify!($n), &v, w);
        six(c, stringify!($n), &css::$n, w);
        six(c, stringify!($n), &Color::from(css::$n), w);
        one(c, stringify!($n), "Debug name", named(&v, stringify!($n)), &"");
    } )* }
} }
mon::for_each_css!(css_checks);

macro_rules! xterm_checks { ($($i:literal $n:ident)*) => {
    fn xterm_names(c: &mut Ctx) { $( {
        note(stringify!($n));
        let v = XtermColor::$n;
        one(c, stringify!($n), "XtermColor::from_code", XtermColor::from_code($i) == v, &XtermColor::from_code($i));
        one(c, stringify!($n), "From<u8>", XtermColor::from($i as u8) == v, &"");
        one(c, stringify!($n), "as u8", v as u8 == $i, &(v as u8));
        one(c, stringify!($n), "XtermColor::args", v.args() == concat!("5;", $i), &v.args());
        one(c, stringify!($n), "the ARGS constant", xterm::$n::ARGS == concat!("5;", $i), &xterm::$n::ARGS);
        let (ty, val) = mon::codes::CODES[$i];
        one(c, stringify!($n), "the type xterm_from_code!", ty == Some(Color::Xterm(v)), &ty);
        one(c, stringify!($n), "the value xterm_from_code!", val() == Color::Xterm(v), &val());
        let w = Want::Idx($i);
        six(c, stringify!($n), &v, w);
        six(c, stringify!($n), &xterm::$n, w);
        six(c, stringify!($n), &Color::from(xterm::$n), w);
        one(c, stringify!($n), "Debug name", named(&v, stringify!($n)), &"");
    } )* }
} }
mon::for_each_xterm!(xterm_checks);

macro_rules! ansi_checks { ($($i:literal $n:ident)*) => {
    fn ansi_names(c: &mut Ctx) { $( {
        note(stringify!($n));
        let v = ansi::AnsiColor::$n;
        let x = XtermColor::from_code($i);
        one(c, stringify!($n), "AnsiColor::to_xterm", v.to_xterm() == x && v.to_xterm() as u8 == $i, &v.to_xterm());
        one(c, stringify!($n), "XtermColor::from(AnsiColor)", XtermColor::from(v) == x, &"");
        one(c, stringify!($n), "DYNAMIC_XTERM", ansi::$n::DYNAMIC_XTERM == x, &"");
        one(c, stringify!($n), "XTERM", XtermColor::from(ansi::$n::XTERM) == x, &"");
        let w = Want::Ansi($i);
        six(c, stringify!($n), &v, w);
        six(c, stringify!($n), &ansi::$n, w);
        six(c, stringify!($n), &v.to_xterm(), Want::Idx($i));
        one(c, stringify!($n), "Debug name", named(&v, stringify!($n)), &"");
    } )* }
} }
mon::for_each_ansi!(ansi_checks);

fn named(v: &dyn std::fmt::Debug, n: &str) -> bool {
    format!("{v:?}") == n
}
fn note(n: &str) {
    case(|| n.to_string());
}
#[inline(never)]
fn one(c: &mut Ctx, name: &str, what: &str, ok: bool, got: &dyn std::fmt::Debug) {
    c.eval(None);
    c.enumerated += 1;
    c.expect(ok, || format!("{name}: {what} is not the published value (got {got:?})"));
    c.sample(3, || format!("{name}: {what} {got:?}"));
}
fn six(c: &mut Ctx, name: &str, k: &dyn DynColor, w: Want) {
    c.eval(None);
    c.enumerated += 1;
    c.judge(judge_color_value(k, w).map_err(|e| format!("{name}: {e}")));
}

fn main() {
    mon::run(
        "C10",
        "every CSS name against the CSS color list, every Xterm name against the published code list, every code \
         converted both ways, every ANSI color's Xterm equivalent, in every representation; all cases are distinct",
        |c| {
            c.guard("css", css_names);
            c.guard("xterm", xterm_names);
            c.guard("ansi", ansi_names);
            c.guard("codes", |c| {
                let mut seen = std::collections::HashSet::new();
                for i in 0..=255u8 {
                    case(|| format!("code {i}"));
                    let x = XtermColor::from_code(i);
                    one(c, &i.to_string(), "code to color and back", x as u8 == i, &x);
                    one(c, &i.to_string(), "the only color of its code", seen.insert(x), &x);
                    let parsed = format!("{i}").parse::<Color>();
                    one(c, &i.to_string(), "the color of its printed code", parsed == Ok(Color::Xterm(x)), &parsed);
                    // the code as text, from the color's own arguments
                    one(c, &i.to_string(), "its own arguments", x.args().strip_prefix("5;").and_then(|a| a.parse().ok()) == Some(i), &x.args());
                }
                let mut names = std::collections::HashSet::new();
                for (k, _, _) in CSS {
                    one(c, &format!("{k:?}"), "a distinct CSS color value", names.insert(k), &"");
                }
            });
        },
    )
}
