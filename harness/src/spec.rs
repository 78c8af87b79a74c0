//! What colors and effects mean, independent of the code under test.
use crate::sgr::*;
use colorz::{ansi::AnsiColor, css::CssColor, rgb::RgbColor, xterm::XtermColor, Color, Effect, NoColor};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Want {
    Ansi(u8),
    Default,
    Idx(u8),
    Rgb(u8, u8, u8),
}

impl Want {
    pub fn layer(self) -> Col {
        match self {
            Want::Ansi(i) => Col::Ansi(i),
            Want::Default => Col::Def,
            Want::Idx(i) => Col::Idx(i),
            Want::Rgb(r, g, b) => Col::Rgb(r, g, b),
        }
    }
    /// Underline has no short ANSI codes: the same-numbered 256-color entry is used.
    /// What `Default` means there is not specified: default and entry 16 are both fine.
    pub fn underline_ok(self, c: Col) -> bool {
        match self {
            Want::Ansi(i) => c == Col::Idx(i),
            Want::Default => c == Col::Def || c == Col::Idx(16),
            w => c == w.layer(),
        }
    }
    pub fn kind(self) -> colorz::mode::ColorKind {
        use colorz::mode::ColorKind::*;
        match self {
            Want::Ansi(_) | Want::Default => Ansi,
            Want::Idx(_) => Xterm,
            Want::Rgb(..) => Rgb,
        }
    }
}

/// effects in the order of the terminal model's bits
pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];

pub fn effect_bit(e: Effect) -> u16 {
    match e {
        Effect::Bold => BOLD,
        Effect::Dimmed => DIM,
        Effect::Italic => ITALIC,
        Effect::Underline => UNDER,
        Effect::DoubleUnderline => DUNDER,
        Effect::Blink => BLINK,
        Effect::BlinkFast => FBLINK,
        Effect::Reversed => REV,
        Effect::Hidden => HIDE,
        Effect::Strikethrough => STRIKE,
        Effect::Overline => OVER,
        Effect::SuperScript => SUPER,
        Effect::SubScript => SUB,
    }
}

pub fn flags(bits: u16) -> colorz::EffectFlags {
    let mut f = colorz::EffectFlags::new();
    for (i, e) in EFFECTS.iter().enumerate() {
        if bits & (1 << i) != 0 {
            f = f.with(*e);
        }
    }
    f
}

macro_rules! ansi_tab { ($($i:literal $n:ident)*) => {
    pub const ANSI: [(AnsiColor, u8); 16] = [$((AnsiColor::$n, $i)),*];
    pub fn ansi_want(c: AnsiColor) -> Want { match c { $(AnsiColor::$n => Want::Ansi($i),)* AnsiColor::Default => Want::Default } }
} }
crate::for_each_ansi!(ansi_tab);

macro_rules! xterm_tab { ($($i:literal $n:ident)*) => {
    pub const XTERM: [(XtermColor, u8); 256] = [$((XtermColor::$n, $i)),*];
    pub fn xterm_want(c: XtermColor) -> Want { match c { $(XtermColor::$n => Want::Idx($i),)* } }
} }
crate::for_each_xterm!(xterm_tab);

macro_rules! css_tab { ($($n:ident $r:literal $g:literal $b:literal)*) => {
    pub const CSS: [(CssColor, (u8, u8, u8), &str); 147] = [$((CssColor::$n, ($r, $g, $b), stringify!($n))),*];
    pub fn css_want(c: CssColor) -> Want { match c { $(CssColor::$n => Want::Rgb($r, $g, $b),)* } }
} }
crate::for_each_css!(css_tab);

/// What a color value in a style asks for.
pub trait Asks: colorz::OptionalColor + core::fmt::Debug {
    fn asks(&self) -> Option<Want>;
}
impl Asks for NoColor {
    fn asks(&self) -> Option<Want> {
        None
    }
}
impl Asks for AnsiColor {
    fn asks(&self) -> Option<Want> {
        Some(ansi_want(*self))
    }
}
impl Asks for XtermColor {
    fn asks(&self) -> Option<Want> {
        Some(xterm_want(*self))
    }
}
impl Asks for CssColor {
    fn asks(&self) -> Option<Want> {
        Some(css_want(*self))
    }
}
impl Asks for RgbColor {
    fn asks(&self) -> Option<Want> {
        Some(Want::Rgb(self.red, self.green, self.blue))
    }
}
impl Asks for Color {
    fn asks(&self) -> Option<Want> {
        match self {
            Color::Ansi(c) => c.asks(),
            Color::Xterm(c) => c.asks(),
            Color::Css(c) => c.asks(),
            Color::Rgb(c) => c.asks(),
        }
    }
}
impl<T: Asks> Asks for Option<T> {
    fn asks(&self) -> Option<Want> {
        self.as_ref().and_then(T::asks)
    }
}
impl<const R: u8, const G: u8, const B: u8> Asks for colorz::rgb::Rgb<R, G, B> {
    fn asks(&self) -> Option<Want> {
        Some(Want::Rgb(R, G, B))
    }
}
macro_rules! asks_ansi { ($($i:literal $n:ident)*) => { $(
    impl Asks for colorz::ansi::$n { fn asks(&self) -> Option<Want> { Some(Want::Ansi($i)) } }
)* } }
crate::for_each_ansi!(asks_ansi);
impl Asks for colorz::ansi::Default {
    fn asks(&self) -> Option<Want> {
        Some(Want::Default)
    }
}
macro_rules! asks_xterm { ($($i:literal $n:ident)*) => { $(
    impl Asks for colorz::xterm::$n { fn asks(&self) -> Option<Want> { Some(Want::Idx($i)) } }
)* } }
crate::for_each_xterm!(asks_xterm);
macro_rules! asks_css { ($($n:ident $r:literal $g:literal $b:literal)*) => { $(
    impl Asks for colorz::css::$n { fn asks(&self) -> Option<Want> { Some(Want::Rgb($r, $g, $b)) } }
)* } }
crate::for_each_css!(asks_css);

/// A style as a specification.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Wants {
    pub fg: Option<Want>,
    pub bg: Option<Want>,
    pub ul: Option<Want>,
    pub eff: u16,
}

impl Wants {
    /// the underline color counts only together with an underline effect
    pub fn ul_active(&self) -> Option<Want> {
        if self.eff & (UNDER | DUNDER) != 0 {
            self.ul
        } else {
            None
        }
    }
    pub fn plain(&self) -> bool {
        self.fg.is_none() && self.bg.is_none() && self.eff == 0
    }
    /// Is `after` what applying this style to `before` must give?
    pub fn check_apply(&self, before: Term, after: Term) -> Result<(), String> {
        let fg = self.fg.map_or(before.fg, Want::layer);
        let bg = self.bg.map_or(before.bg, Want::layer);
        let ul_ok = match self.ul_active() {
            None => after.ul == before.ul,
            Some(w) => w.underline_ok(after.ul),
        };
        if after.fg != fg || after.bg != bg || !ul_ok || after.eff != before.eff | self.eff {
            return Err(format!(
                "apply of {self:?} took the terminal from {before:?} to {after:?}"
            ));
        }
        Ok(())
    }
    /// The terminal after applying this style and clearing it again.
    pub fn cleared(&self, before: Term) -> Term {
        Term {
            fg: if self.fg.is_some() { Col::Def } else { before.fg },
            bg: if self.bg.is_some() { Col::Def } else { before.bg },
            ul: if self.ul_active().is_some() { Col::Def } else { before.ul },
            eff: before.eff & !group_closure(self.eff),
        }
    }
    /// The terminal while this style is applied over `before` (Default underline: as 16).
    pub fn applied(&self, before: Term) -> Term {
        Term {
            fg: self.fg.map_or(before.fg, Want::layer),
            bg: self.bg.map_or(before.bg, Want::layer),
            ul: match self.ul_active() {
                None => before.ul,
                Some(Want::Ansi(i)) => Col::Idx(i),
                Some(Want::Default) => Col::Idx(16),
                Some(w) => w.layer(),
            },
            eff: before.eff | self.eff,
        }
    }
    pub fn kinds(&self) -> [Option<colorz::mode::ColorKind>; 3] {
        [self.fg.map(Want::kind), self.bg.map(Want::kind), self.ul.map(Want::kind)]
    }
}

pub fn wants<F: Asks, B: Asks, U: Asks>(s: &colorz::Style<F, B, U>) -> Wants {
    let mut eff = 0;
    for e in EFFECTS {
        if s.effects.is(e) {
            eff |= effect_bit(e);
        }
    }
    Wants { fg: s.foreground.asks(), bg: s.background.asks(), ul: s.underline_color.asks(), eff }
}
