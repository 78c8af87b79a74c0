//! Generators of hostile colors, styles and terminal states.
use crate::sgr::{Col, Term};
use crate::spec::*;
use crate::Rng;
use colorz::{ansi::AnsiColor, css::CssColor, rgb::RgbColor, xterm::XtermColor, Color, Style};

const EDGE: [u8; 12] = [0, 1, 9, 10, 11, 99, 100, 101, 109, 199, 200, 255];

pub fn byte(r: &mut Rng) -> u8 {
    if r.chance(1, 2) {
        *r.pick(&EDGE)
    } else {
        r.u8()
    }
}
pub fn rgb(r: &mut Rng) -> RgbColor {
    match r.below(4) {
        0 => {
            let v = byte(r);
            RgbColor { red: v, green: v, blue: v }
        }
        _ => RgbColor { red: byte(r), green: byte(r), blue: byte(r) },
    }
}
pub fn ansi(r: &mut Rng) -> AnsiColor {
    match r.below(17) {
        16 => AnsiColor::Default,
        i => ANSI[i as usize].0,
    }
}
pub fn xterm(r: &mut Rng) -> XtermColor {
    XTERM[byte(r) as usize].0
}
pub fn css(r: &mut Rng) -> CssColor {
    CSS[r.idx(147)].0
}
/// a color of the given variant
pub fn color_of(r: &mut Rng, variant: u64) -> Color {
    match variant {
        0 => Color::Ansi(ansi(r)),
        1 => Color::Xterm(xterm(r)),
        2 => Color::Css(css(r)),
        _ => Color::Rgb(rgb(r)),
    }
}
pub fn color(r: &mut Rng) -> Color {
    let v = r.below(4);
    color_of(r, v)
}
pub fn opt_color(r: &mut Rng) -> Option<Color> {
    match r.below(5) {
        4 => None,
        v => Some(color_of(r, v)),
    }
}
/// effect sets, biased to the small ones the fast paths are about
pub fn effects(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => 0,
        1 => 1 << r.below(13),
        2 => (1 << r.below(13)) | (1 << r.below(13)),
        3 => (1 << r.below(13)) | [crate::sgr::UNDER, crate::sgr::DUNDER][r.idx(2)],
        4 => !(1 << r.below(13)) & crate::sgr::ALL,
        _ => r.u64() as u16 & crate::sgr::ALL,
    }
}
pub fn style(r: &mut Rng) -> (Style, Wants) {
    let mut c = [opt_color(r), opt_color(r), opt_color(r)];
    match r.below(8) {
        0 => c[1] = c[0],
        1 => c[2] = c[0],
        2 => c[2] = c[1],
        3 => {
            c[1] = c[0];
            c[2] = c[0]
        }
        _ => {}
    }
    let eff = effects(r);
    (
        Style::new().fg(c[0]).bg(c[1]).underline_color(c[2]).effect_flags(flags(eff)),
        Wants { fg: c[0].asks(), bg: c[1].asks(), ul: c[2].asks(), eff },
    )
}
pub fn col(r: &mut Rng) -> Col {
    match r.below(4) {
        0 => Col::Def,
        1 => Col::Ansi(r.below(16) as u8),
        2 => Col::Idx(r.u8()),
        _ => Col::Rgb(r.u8(), r.u8(), r.u8()),
    }
}
pub fn term(r: &mut Rng) -> Term {
    Term { fg: col(r), bg: col(r), ul: col(r), eff: r.u64() as u16 & crate::sgr::ALL }
}
/// Three states that between them reveal any attribute a code sequence touches.
pub fn probe_terms() -> [Term; 3] {
    [
        crate::sgr::DEFAULT,
        Term { fg: Col::Rgb(1, 2, 3), bg: Col::Idx(77), ul: Col::Rgb(9, 8, 7), eff: crate::sgr::ALL },
        Term { fg: Col::Idx(123), bg: Col::Rgb(251, 252, 253), ul: Col::Ansi(3), eff: 0 },
    ]
}

/// Called for every combination of color representation types.
pub trait TypedVisitor {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U);
}

/// Visit styles whose three positions mix compile-time, runtime, optional and absent color
/// types; runtime values are random. `part`/`parts` splits the combinations between threads.
pub fn typed_styles<V: TypedVisitor>(r: &mut Rng, part: u64, parts: u64, v: &mut V) {
    use colorz::{ansi, css as c, rgb as g, xterm as x, NoColor};
    let mut n = 0u64;
    macro_rules! go {
        ([$($f:expr),*] $b:tt $u:tt) => { $( go!(@b ($f) $b $u); )* };
        (@b $f:tt [$($b:expr),*] $u:tt) => { $( go!(@u $f ($b) $u); )* };
        (@u $f:tt $b:tt [$($u:expr),*]) => { $(
            n += 1;
            if n % parts == part { v.visit($f, $b, $u); }
        )* };
    }
    go!(
        [NoColor, ansi::Magenta, g::Rgb::<1, 20, 255>, ansi(r), rgb(r), color(r), opt_color(r), Some(xterm(r))]
        [NoColor, x::Aqua, css(r), rgb(r), color(r), opt_color(r), if r.chance(1, 2) { Some(css(r)) } else { None }]
        [NoColor, c::Tomato, xterm(r), opt_color(r)]
    );
    go!(
        [NoColor, x::Lime, c::Aqua, css(r), xterm(r), if r.chance(1, 2) { Some(rgb(r)) } else { None }, Some(NoColor)]
        [NoColor, ansi::BrightRed, c::SeaShell, g::Rgb::<255, 255, 255>, ansi(r), xterm(r), Some(Some(ansi(r)))]
        [rgb(r), ansi::Green]
    );
}
/// number of combinations `typed_styles` visits
pub const TYPED: u64 = 8 * 7 * 4 + 7 * 7 * 2;
