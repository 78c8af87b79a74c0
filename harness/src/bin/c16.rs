//! Each convenience method means its named color or effect, and nothing else.
use colorz::mode::Stream;
use colorz::{ansi, css, rgb, xterm, Colorize, Effect, NoColor, OptionalColor, Style, StyledValue};
use mon::gen;
use mon::model::*;
use mon::oracle::*;
use mon::spec::*;
use mon::{case, hash_of, Ctx};

/// a value whose identity can be recognised after it was moved
#[derive(Debug, Clone, PartialEq)]
struct Token(u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "token {}", self.0)
    }
}

struct Seen {
    wants: Wants,
    stream: Option<Stream>,
    text: String,
}

fn seen<T: std::fmt::Display, F: Asks, B: Asks, U: Asks>(v: &StyledValue<T, F, B, U>) -> Seen {
    Seen { wants: wants(&v.style), stream: v.stream, text: v.to_string() }
}

#[inline(never)]
fn judge(c: &mut Ctx, name: &str, got: Seen, want: Wants, stream: Option<Stream>, plain: &str, value_ok: bool) {
    c.eval(Some(hash_of(&(name, want, stream))));
    if got.wants != want {
        c.violation(format!("{name}: style {:?}, expected {want:?}", got.wants));
    }
    if got.stream != stream {
        c.violation(format!("{name}: stream {:?}, expected {stream:?}", got.stream));
    }
    if !value_ok {
        c.violation(format!("{name}: does not hold the value"));
    }
    let color = !mon::STRIP && stream != Some(Stream::NeverColor) && !matches!(stream, Some(Stream::Stdout | Stream::Stderr));
    let r = if color {
        judge_wrapped(&got.text, plain, &want)
    } else if matches!(stream, Some(Stream::Stdout | Stream::Stderr)) && !mon::STRIP {
        Ok(()) // depends on the process's streams; C01 and C02 decide it
    } else if got.text != plain {
        Err(format!("{:?} is not plain {plain:?}", got.text))
    } else {
        Ok(())
    };
    if let Err(e) = r {
        c.violation(format!("{name}: {e}"));
    }
    c.sample(4, || format!("{name} -> {:?} {:?} {:?}", got.wants, got.stream, got.text));
}

const BLANK: Wants = Wants { fg: None, bg: None, ul: None, eff: 0 };

macro_rules! colors {
    ($c:ident $($i:literal $fun:ident $into:ident $on:ident $into_on:ident;)*) => { $( {
        let fg = Wants { fg: Some(Want::Ansi($i)), ..BLANK };
        let bg = Wants { bg: Some(Want::Ansi($i)), ..BLANK };
        fresh!($c fg $fun $into);
        fresh!($c bg $on $into_on);
    } )* };
}
macro_rules! fresh {
    ($c:ident $w:ident $fun:ident $into:ident) => {
        case(|| stringify!($fun).to_string());
        let t = Token(77);
        let v = t.$fun();
        judge($c, concat!("value.", stringify!($fun), "()"), seen(&v), $w, None, "token 77", std::ptr::eq(v.value, &t));
        let v = Token(78).$into();
        judge($c, concat!("value.", stringify!($into), "()"), seen(&v), $w, None, "token 78", v.value == Token(78));
        let s: &str = "unsized";
        let v = (*s).$fun();
        judge($c, concat!("str.", stringify!($fun), "()"), seen(&v), $w, None, "unsized", std::ptr::eq(v.value, s));
        // on a styled value the consuming shorthand adds a layer around it
        let inner = Token(79).into_style_with(Style::new().fg(css::Tan).bold()).stream(Stream::NeverColor);
        let v = inner.$into();
        judge($c, concat!("styled.", stringify!($into), "() (outer)"), seen(&v), $w, None, "token 79",
            v.value.value == Token(79) && wants(&v.value.style) == (Wants { fg: css::Tan.asks(), eff: 1, ..BLANK }) && v.value.stream == Some(Stream::NeverColor));
    };
}
macro_rules! effects {
    ($c:ident $($i:literal $fun:ident $into:ident;)*) => { $( {
        let w = Wants { eff: 1 << $i, ..BLANK };
        fresh!($c w $fun $into);
    } )* };
}

/// Everything that can be called on an existing styled value.
fn on_styled<F: Asks, B: Asks, U: Asks>(c: &mut Ctx, f: F, b: B, u: U, eff: u16, stream: Option<Stream>, id: u64) {
    let make = || StyledValue::new(Token(id), Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(eff)), stream);
    let w = Wants { fg: f.asks(), bg: b.asks(), ul: u.asks(), eff };
    let plain = format!("token {id}");
    case(|| format!("{w:?} {stream:?}"));
    macro_rules! is { ($name:expr, $v:expr, $w:expr, $s:expr) => { {
        let v = $v;
        let value_ok = v.value == Token(id);
        judge(c, $name, seen(&v), $w, $s, &plain, value_ok);
    } } }
    is!("StyledValue::new", make(), w, stream);
    macro_rules! cols { ($($i:literal $fun:ident $on:ident;)*) => { $(
        is!(concat!("styled.", stringify!($fun), "()"), make().$fun(), Wants { fg: Some(Want::Ansi($i)), ..w }, stream);
        is!(concat!("styled.", stringify!($on), "()"), make().$on(), Wants { bg: Some(Want::Ansi($i)), ..w }, stream);
    )* } }
    cols! {
        0 black on_black; 1 red on_red; 2 green on_green; 3 yellow on_yellow; 4 blue on_blue; 5 magenta on_magenta;
        6 cyan on_cyan; 7 white on_white; 8 bright_black on_bright_black; 9 bright_red on_bright_red;
        10 bright_green on_bright_green; 11 bright_yellow on_bright_yellow; 12 bright_blue on_bright_blue;
        13 bright_magenta on_bright_magenta; 14 bright_cyan on_bright_cyan; 15 bright_white on_bright_white;
    }
    macro_rules! effs { ($($i:literal $fun:ident;)*) => { $(
        is!(concat!("styled.", stringify!($fun), "()"), make().$fun(), Wants { eff: eff | 1 << $i, ..w }, stream);
    )* } }
    effs! {
        0 bold; 1 dimmed; 2 italics; 3 underline; 4 double_underline; 5 blink; 6 blink_fast; 7 reverse; 8 hide;
        9 strikethrough; 10 overline; 11 superscript; 12 subscript;
    }
    let k = rgb::Rgb::<9, 8, 7>;
    is!("styled.fg(c)", make().fg(k), Wants { fg: k.asks(), ..w }, stream);
    is!("styled.bg(c)", make().bg(k), Wants { bg: k.asks(), ..w }, stream);
    is!("styled.underline_color(c)", make().underline_color(k), Wants { ul: k.asks(), ..w }, stream);
    for s in OPT_STREAMS {
        is!("styled.stream_opt(s)", make().stream_opt(s), w, s);
        if let Some(s) = s {
            is!("styled.stream(s)", make().stream(s), w, Some(s));
        }
    }
    // wrapping: a new plain layer, the inner one untouched
    let inner = make();
    let v = inner.style();
    let ok = std::ptr::eq(v.value, &inner) && wants(&v.value.style) == w && v.value.stream == stream;
    c.eval(None);
    c.expect(ok && wants(&v.style) == BLANK && v.stream.is_none(), || format!("styled.style() of {w:?} {stream:?}"));
    let v = make().into_style();
    c.eval(None);
    c.expect(
        v.value.value == Token(id) && wants(&v.value.style) == w && v.value.stream == stream && wants(&v.style) == BLANK && v.stream.is_none(),
        || format!("styled.into_style() of {w:?} {stream:?}"),
    );
    let other = Style::new().fg(ansi::Cyan).underline();
    let v = Colorize::into_style_with(make(), other);
    c.eval(None);
    c.expect(
        v.value.value == Token(id) && wants(&v.value.style) == w && v.value.stream == stream && wants(&v.style) == wants(&other) && v.stream.is_none(),
        || format!("styled.into_style_with(..) of {w:?} {stream:?}"),
    );
    // clones and copies are the same
    let v = make().clone();
    is!("clone", v, w, stream);
}

fn generic(c: &mut Ctx) {
    fn with<C: Asks>(c: &mut Ctx, k: C) {
        case(|| format!("{k:?}"));
        let t = Token(5);
        let fg = Wants { fg: k.asks(), ..BLANK };
        let bg = Wants { bg: k.asks(), ..BLANK };
        let ul = Wants { ul: k.asks(), ..BLANK };
        let v = t.fg(k);
        judge(c, "value.fg(c)", seen(&v), fg, None, "token 5", std::ptr::eq(v.value, &t));
        let v = t.bg(k);
        judge(c, "value.bg(c)", seen(&v), bg, None, "token 5", std::ptr::eq(v.value, &t));
        let v = t.underline_color(k);
        judge(c, "value.underline_color(c)", seen(&v), ul, None, "token 5", std::ptr::eq(v.value, &t));
        let v = Token(6).into_fg(k);
        judge(c, "value.into_fg(c)", seen(&v), fg, None, "token 6", v.value == Token(6));
        let v = Token(6).into_bg(k);
        judge(c, "value.into_bg(c)", seen(&v), bg, None, "token 6", v.value == Token(6));
        let v = Token(6).into_underline_color(k);
        judge(c, "value.into_underline_color(c)", seen(&v), ul, None, "token 6", v.value == Token(6));
    }
    let mut r = c.rng(4);
    with(c, NoColor);
    with(c, ansi::BrightCyan);
    with(c, xterm::Aqua);
    with(c, css::AliceBlue);
    with(c, rgb::Rgb::<1, 2, 3>);
    for _ in 0..200 {
        with(c, gen::color(&mut r));
        with(c, gen::opt_color(&mut r));
        with(c, gen::rgb(&mut r));
        with(c, gen::xterm(&mut r));
        with(c, gen::css(&mut r));
        let (s, w) = gen::style(&mut r);
        let t = Token(7);
        let v = t.style_with(s);
        judge(c, "value.style_with(s)", seen(&v), w, None, "token 7", std::ptr::eq(v.value, &t));
        let v = Token(8).into_style_with(s);
        judge(c, "value.into_style_with(s)", seen(&v), w, None, "token 8", v.value == Token(8));
        let st = *r.pick(&OPT_STREAMS);
        let v = StyledValue::new(Token(9), s, st);
        judge(c, "StyledValue::new", seen(&v), w, st, "token 9", v.value == Token(9));
    }
    let t = Token(7);
    let v = t.style();
    judge(c, "value.style()", seen(&v), BLANK, None, "token 7", std::ptr::eq(v.value, &t));
    let v = Token(8).into_style();
    judge(c, "value.into_style()", seen(&v), BLANK, None, "token 8", v.value == Token(8));
}

fn main() {
    mon::run(
        "C16",
        "every shorthand on fresh values and on styled values with random other aspects (compile-time and runtime \
         colors, every stream); fields and formatted text compared with the spelled-out meaning; distinct by \
         shorthand, style and stream",
        |c| {
            INITIAL.install();
            c.guard("fresh", |c| {
                colors! { c
                    0 black into_black on_black into_on_black;
                    1 red into_red on_red into_on_red;
                    2 green into_green on_green into_on_green;
                    3 yellow into_yellow on_yellow into_on_yellow;
                    4 blue into_blue on_blue into_on_blue;
                    5 magenta into_magenta on_magenta into_on_magenta;
                    6 cyan into_cyan on_cyan into_on_cyan;
                    7 white into_white on_white into_on_white;
                    8 bright_black into_bright_black on_bright_black into_on_bright_black;
                    9 bright_red into_bright_red on_bright_red into_on_bright_red;
                    10 bright_green into_bright_green on_bright_green into_on_bright_green;
                    11 bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow;
                    12 bright_blue into_bright_blue on_bright_blue into_on_bright_blue;
                    13 bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta;
                    14 bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan;
                    15 bright_white into_bright_white on_bright_white into_on_bright_white;
                }
                effects! { c
                    0 bold into_bold;
                    1 dimmed into_dimmed;
                    2 italics into_italics;
                    3 underline into_underline;
                    4 double_underline into_double_underline;
                    5 blink into_blink;
                    6 blink_fast into_blink_fast;
                    7 reverse into_reverse;
                    8 hide into_hide;
                    9 strikethrough into_strikethrough;
                    10 overline into_overline;
                    11 superscript into_superscript;
                    12 subscript into_subscript;
                }
            });
            c.guard("generic", generic);
            // named effects of Effect itself and of styles
            c.guard("effects", |c| {
                for (i, e) in EFFECTS.iter().enumerate() {
                    let _: Effect = *e;
                    let v = Token(1).into_style_with(Style::new().with(*e));
                    judge(c, "with(effect)", seen(&v), Wants { eff: 1 << i, ..BLANK }, None, "token 1", v.value == Token(1));
                }
            });
            let n = c.n(500, 20_000);
            c.parallel("styled", 8, |p, c| {
                let mut r = c.rng(2).fork(p);
                for id in 0..n {
                    if c.full() {
                        return;
                    }
                    let stream = *r.pick(&OPT_STREAMS);
                    let eff = gen::effects(&mut r);
                    match r.below(4) {
                        0 => {
                            let [a, b, u] = [gen::opt_color(&mut r), gen::opt_color(&mut r), gen::opt_color(&mut r)];
                            on_styled(c, a, b, u, eff, stream, id)
                        }
                        1 => on_styled(c, ansi::Red, NoColor, gen::color(&mut r), eff, stream, id),
                        2 => on_styled(c, NoColor, gen::rgb(&mut r), css::Tan, eff, stream, id),
                        _ => on_styled(c, gen::xterm(&mut r), Some(gen::ansi(&mut r)), NoColor, eff, stream, id),
                    }
                }
            });
            let _ = <NoColor as OptionalColor>::get(NoColor);
        },
    )
}
