//! Every kind of public operation on generated arguments, with `core` only: used by the
//! freestanding program, by the allocation counter and by the panic and Miri monitors.
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{
    ansi, css, rgb, xterm, Color, ColorSpec, Colorize, ComptimeColor, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue, WriteColor,
};
use core::fmt::{self, Binary, Debug, Display, Formatter, LowerExp, LowerHex, Octal, Pointer, UpperExp, UpperHex, Write};
use core::hash::{Hash, Hasher};

pub struct Rand(pub u64);
impl Rand {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len() as u64) as usize]
    }
    fn byte(&mut self) -> u8 {
        if self.below(2) == 0 {
            self.pick(&[0, 1, 9, 10, 11, 99, 100, 101, 199, 200, 249, 250, 254, 255])
        } else {
            self.u64() as u8
        }
    }
}

pub type Rt = Style<Option<Color>, Option<Color>, Option<Color>>;
pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];
const ANSI: [ansi::AnsiColor; 17] = {
    use ansi::AnsiColor::*;
    [
        Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan,
        BrightWhite, Default,
    ]
};
const CSS: [css::CssColor; 8] = {
    use css::CssColor::*;
    [AliceBlue, Black, White, Tomato, RebeccaPurple, YellowGreen, LightGoldenRodYellow, Indigo]
};

fn a_ansi(r: &mut Rand) -> ansi::AnsiColor {
    r.pick(&ANSI)
}
fn a_xterm(r: &mut Rand) -> xterm::XtermColor {
    xterm::XtermColor::from_code(r.byte())
}
fn a_css(r: &mut Rand) -> css::CssColor {
    r.pick(&CSS)
}
fn a_rgb(r: &mut Rand) -> rgb::RgbColor {
    rgb::RgbColor { red: r.byte(), green: r.byte(), blue: r.byte() }
}
fn a_color(r: &mut Rand) -> Color {
    match r.below(4) {
        0 => a_ansi(r).into(),
        1 => a_xterm(r).into(),
        2 => a_css(r).into(),
        _ => a_rgb(r).into(),
    }
}
fn opt_color(r: &mut Rand) -> Option<Color> {
    if r.below(4) == 0 {
        None
    } else {
        Some(a_color(r))
    }
}
fn a_flags(r: &mut Rand) -> EffectFlags {
    let (bits, less) = (r.u64(), if r.below(2) == 0 { r.u64() & r.u64() } else { u64::MAX });
    EFFECTS.iter().enumerate().filter(|(i, _)| bits & less >> i & 1 != 0).map(|(_, e)| *e).collect()
}
fn a_style(r: &mut Rand) -> Rt {
    Style::new().fg(opt_color(r)).bg(opt_color(r)).underline_color(opt_color(r)).effect_flags(a_flags(r))
}

/// Text of at most 64 bytes, without a heap.
pub struct Text([u8; 64], usize);
impl Text {
    pub fn str(&self) -> &str {
        core::str::from_utf8(&self.0[..self.1]).unwrap_or("?")
    }
    fn push(&mut self, c: char) {
        if self.1 + c.len_utf8() <= 64 {
            self.1 += c.encode_utf8(&mut self.0[self.1..]).len();
        }
    }
}
fn a_text(r: &mut Rand) -> Text {
    let mut t = Text([0; 64], 0);
    let stems = [
        "", "#", "#f", "#ff", "#00ff00", "255", "256", "7", "red", "bright blue", "bright ", "detect", "always", "never", "stdout", "stderr", "default", "brightred", "0x10", "-1",
        "+1", "#+1", "#-1f", "999999999999", "\u{e9}", "\0", "purple",
    ];
    for c in r.pick(&stems).chars() {
        t.push(if r.below(12) == 0 { char::from_u32(r.below(0x250) as u32).unwrap_or('x') } else { c });
    }
    for _ in 0..match r.below(6) {
        0 => r.below(60),
        1 => r.below(4),
        _ => 0,
    } {
        t.push(match r.below(4) {
            0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            1 => r.pick(&['0', '9', 'a', 'f', 'F', '#', ' ', '+', '-']),
            _ => (r.below(95) as u8 + 32) as char,
        });
    }
    t
}

struct Via<F: Fn(&mut Formatter<'_>) -> fmt::Result>(F);
impl<F: Fn(&mut Formatter<'_>) -> fmt::Result> Display for Via<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn hash(x: impl Hash) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}
/// accepts `0` bytes
struct Full(usize);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

pub type Out<'a> = &'a mut dyn Write;
pub type Op = fn(&mut Rand, Out, &[Stream]) -> fmt::Result;

fn some_stream(r: &mut Rand, s: &[Stream]) -> Option<Stream> {
    if r.below(4) == 0 {
        None
    } else {
        Some(r.pick(s))
    }
}

fn direct(r: &mut Rand, o: Out, _: &[Stream]) -> fmt::Result {
    let s = a_style(r);
    writeln!(o, "{}|{}|{:?}|{:?}|{}|{:?}", s.apply(), s.clear(), s.apply(), s.clear(), Style::clear_all(), Style::clear_all())?;
    writeln!(o, "{:>300}|{:<3.1}|{}", s.apply(), s.clear(), s.is_plain())
}
fn typed(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let fl = a_flags(r);
    macro_rules! each {
            ($($f:expr, $b:expr, $u:expr;)*) => { $( {
                let s = Style::new().fg($f).bg($b).underline_color($u).effect_flags(fl);
                writeln!(o, "{}|{}|{:?}|{}", s.apply(), s.clear(), s, s.should_color(some_stream(r, st)))?;
                writeln!(o, "{}", StyledValue::new("typed", s, some_stream(r, st)))?;
            } )* };
        }
        each! {
            NoColor, NoColor, NoColor;
            ansi::Red, NoColor, NoColor;
            NoColor, xterm::Aquamarine, ansi::Default;
            css::Tomato, rgb::Rgb::<1, 20, 255>, css::Gold;
            a_rgb(r), NoColor, a_rgb(r);
            NoColor, a_css(r), a_xterm(r);
            a_ansi(r), a_color(r), Some(NoColor);
            Some(Some(a_ansi(r))), None::<xterm::Red>, rgb::Rgb::<255, 255, 255>;
        }
    Ok(())
}
fn display(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let (t, s, x) = (a_text(r), a_style(r), some_stream(r, st));
    let (w, p) = (r.below(40) as usize, r.below(9) as usize);
    let t = t.str();
    writeln!(o, "{}|{:>w$.p$}|{:*^w$}", StyledValue::new(t, s, x), StyledValue::new(t, s, x), t.style_with(s))?;
    writeln!(o, "{:?}|{:#?}|{:w$?}", StyledValue::new(t, s, x), t.into_style_with(s).stream_opt(x), StyledValue::new(Some(t), s, x))?;
    let v = StyledValue::new(t, s, x);
    writeln!(o, "{}", Via(|f| v.fmt_with(f, |t, f| write!(f, "<{t}>"))))
}
fn traits(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let (s, x, n) = (a_style(r), some_stream(r, st), r.u64() >> r.below(64));
    let f = f64::from_bits(r.u64());
    let v = StyledValue::new(n, s, x);
    writeln!(o, "{v}|{v:?}|{v:b}|{v:o}|{v:x}|{v:X}|{v:e}|{v:E}|{v:#010x}|{v:+}|{v:<9}|{v:#?}")?;
    let v = StyledValue::new(f, s, x);
    writeln!(o, "{v:e}|{v:E}|{v:?}|{v:.3}|{v:+012.4}")?;
    let v = StyledValue::new(n as usize as *const u8, s, x);
    writeln!(o, "{v:p}|{v:#p}|{v:20p}")?;
    writeln!(o, "{:?}", StyledValue::new([n as u8, 255], s, x))?;
    let v = StyledValue::new(n as i8, s, x);
    let all: [&dyn Fn(&mut Formatter<'_>) -> fmt::Result; 8] = [
        &|f| Display::fmt(&v, f),
        &|f| Debug::fmt(&v, f),
        &|f| Binary::fmt(&v, f),
        &|f| Octal::fmt(&v, f),
        &|f| LowerHex::fmt(&v, f),
        &|f| UpperHex::fmt(&v, f),
        &|f| LowerExp::fmt(&v, f),
        &|f| UpperExp::fmt(&v, f),
    ];
    for g in all {
        write!(o, "{:>7}", Via(g))?;
    }
    let _ = <StyledValue<*const u8> as Pointer>::fmt;
    o.write_str("\n")
}
macro_rules! shorthand {
    ($($c:ident $ic:ident $oc:ident $ioc:ident)* ; $($e:ident $ie:ident)*) => {
        fn shorthand(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
            let x = some_stream(r, st);
            let t = a_text(r);
            let t = t.str();
            $( write!(o, "{}{}{}{}{}{}", t.$c(), 1u8.$ic().stream_opt(x), t.$oc(), 'c'.$ioc(), t.into_style().$c().stream_opt(x), t.style().$oc())?; )*
            $( write!(o, "{}{}{}{}", t.$e(), 2u8.$ie().stream_opt(x), t.into_style().$e().stream(Stream::NeverColor), Style::new().$e().apply())?; )*
            o.write_str("\n")
        }
    };
}
shorthand! {
    black into_black on_black into_on_black red into_red on_red into_on_red green into_green on_green into_on_green yellow into_yellow on_yellow into_on_yellow
    blue into_blue on_blue into_on_blue magenta into_magenta on_magenta into_on_magenta cyan into_cyan on_cyan into_on_cyan white into_white on_white into_on_white
    bright_black into_bright_black on_bright_black into_on_bright_black bright_red into_bright_red on_bright_red into_on_bright_red
    bright_green into_bright_green on_bright_green into_on_bright_green bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow
    bright_blue into_bright_blue on_bright_blue into_on_bright_blue bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta
    bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan bright_white into_bright_white on_bright_white into_on_bright_white ;
    bold into_bold dimmed into_dimmed italics into_italics underline into_underline double_underline into_double_underline blink into_blink
    blink_fast into_blink_fast reverse into_reverse hide into_hide strikethrough into_strikethrough overline into_overline superscript into_superscript
    subscript into_subscript
}
fn builders(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let (a, b, u) = (a_color(r), opt_color(r), a_rgb(r));
    writeln!(o, "{}{}{}{}{}{}", "x".fg(a), 1.into_bg(a), "y".bg(b), "z".underline_color(u), "w".into_underline_color(u), "v".into_fg(b))?;
    let v = "t".into_style().fg(a).bg(b).underline_color(u).underline().bold().stream_opt(some_stream(r, st));
    writeln!(o, "{v}")?;
    let e = r.pick(&EFFECTS);
    let s = Style::new().fg(a).with(e).toggled(r.pick(&EFFECTS)).without(r.pick(&EFFECTS)).bg(b).underline_color(Some(u));
    writeln!(o, "{:?} {} {}", s, s.is(e), s.is_plain())?;
    let s = s.effects([e, r.pick(&EFFECTS)]).underline().double_underline();
    writeln!(o, "{:?}", s)?;
    let s = s.clear_effects().effects_array([e, r.pick(&EFFECTS), e]);
    writeln!(o, "{}{}", s.apply(), s.clear())?;
    let q = Style::new().fg(ansi::Red).bg(xterm::Lime).underline_color(css::Gold).with(e);
    let (x, y) = (q.into_runtime_style(), q.const_into_runtime_style());
    writeln!(o, "{} {:?} {}", x == y, x, hash(x))?;
    let z = Style::default().fg(a).bg(b).underline_color(Some(Color::Rgb(u))).into_runtime_style();
    writeln!(o, "{:?} {} {}", z, hash(z), z == x)
}
fn colors(r: &mut Rand, o: Out, _: &[Stream]) -> fmt::Result {
    fn six(o: Out, c: impl WriteColor) -> fmt::Result {
        write!(o, "{}|", Via(|f| c.fmt_foreground_args(f)))?;
        write!(o, "{}|", Via(|f| c.fmt_foreground(f)))?;
        write!(o, "{}|", Via(|f| c.fmt_background_args(f)))?;
        write!(o, "{}|", Via(|f| c.fmt_background(f)))?;
        write!(o, "{}|", Via(|f| c.fmt_underline_args(f)))?;
        writeln!(o, "{} {:?}", Via(|f| c.fmt_underline(f)), c.color_kind())
    }
    fn spec<C: ColorSpec + ComptimeColor + Into<Color> + Debug>(o: Out, c: C) -> fmt::Result {
        writeln!(o, "{}{}{}", c.foreground_args(), c.background_args(), c.underline_args())?;
        writeln!(o, "{}{}{}", c.foreground_escape(), c.background_escape(), c.underline_escape())?;
        six(o, c.into_dynamic())?;
        let as_color: Color = c.into();
        writeln!(o, "{:?} {:?} {:?} {:?}", C::VALUE, as_color, c, C::KIND)
    }
    let (a, x, c, g) = (a_ansi(r), a_xterm(r), a_css(r), a_rgb(r));
    six(o, a)?;
    six(o, x)?;
    six(o, c)?;
    six(o, g)?;
    six(o, a_color(r))?;
    spec(o, ansi::BrightMagenta)?;
    spec(o, xterm::Yellow3)?;
    spec(o, css::OldLace)?;
    spec(o, rgb::Rgb::<9, 99, 199>)?;
    writeln!(o, "{}{}{} {:?}", a.foreground_args(), a.background_escape(), a.underline_escape(), a.to_xterm())?;
    writeln!(o, "{}{}{}{}", x.args(), x.foreground_args(), x.background_escape(), x.underline_args())?;
    writeln!(o, "{}{}{} {:?}", c.args(), c.foreground_escape(), c.underline_args(), c.rgb())?;
    let (k, y) = (opt_color(r), xterm::XtermColor::from(r.byte()));
    writeln!(o, "{:?} {} {:?} {:?}", k, hash(k), k.get(), OptionalColor::color_kind(k))?;
    writeln!(o, "{:?} {:?} {:?} {}", y, rgb::RgbColor::from(c), xterm::XtermColor::from(a), Some(Color::from(c)) == k)?;
    writeln!(o, "{:?} {:?}", NoColor, Option::<Color>::from(NoColor))
}
fn parsing(r: &mut Rand, o: Out, _: &[Stream]) -> fmt::Result {
    let t = a_text(r);
    let t = t.str();
    match t.parse::<Color>() {
        Ok(c) => writeln!(o, "{c:?}")?,
        Err(e) => writeln!(o, "{e:?}")?,
    }
    match t.parse::<Mode>() {
        Ok(c) => writeln!(o, "{c:?}")?,
        Err(e) => writeln!(o, "{e:?} {e}")?,
    }
    match t.parse::<Stream>() {
        Ok(c) => writeln!(o, "{c:?} {}", hash(c))?,
        Err(e) => writeln!(o, "{e:?} {e}")?,
    }
    let mut b = [0u8; 9];
    b.iter_mut().for_each(|x| *x = r.u64() as u8);
    let b = &b[..r.below(10) as usize];
    writeln!(o, "{:?} {:?}", Mode::from_ascii_bytes(b), Stream::from_ascii_bytes(b))
}
fn effects(r: &mut Rand, o: Out, _: &[Stream]) -> fmt::Result {
    let (mut f, g, e) = (a_flags(r), a_flags(r), r.pick(&EFFECTS));
    writeln!(o, "{f:?} {:?} {} {} {}", f.iter(), f.is(e), f.is_any(g), f.is_plain())?;
    f.set(e);
    f.toggle(r.pick(&EFFECTS));
    f.unset(r.pick(&EFFECTS));
    let mut it = f.iter();
    it.nth(r.below(20) as usize);
    writeln!(o, "{it:?} {:?} {} {}", it.size_hint(), it.clone().count(), f.into_iter().count())?;
    for x in f {
        write!(o, "{:?}{}{}{}{}", x, x.apply_args(), x.clear_args(), x.apply_escape(), x.clear_escape())?;
    }
    writeln!(o, "{:?} {:?}", it.max_by_key(|e| hash(*e)), f.iter().last())?;
    writeln!(o, "{:?} {} {}", f.with(e).without(e).toggled(e), f == g, hash(f))?;
    writeln!(o, "{:?} {:?} {:?}", EffectFlags::all(), EffectFlags::default(), EffectFlags::from_array([e, e, e]))
}
fn settings(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let m = r.pick(&[Mode::Always, Mode::Never, Mode::Detect]);
    mode::set_coloring_mode(m);
    writeln!(o, "{:?} {:?}", mode::get_coloring_mode(), m)?;
    let s = r.pick(st);
    mode::set_default_stream(s);
    writeln!(o, "{:?}", mode::get_default_stream())?;
    decisions(r, o, st)
}
fn decisions(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let all = [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor];
    let mut k = [ColorKind::Ansi; 40];
    k.iter_mut().for_each(|x| *x = r.pick(&all));
    let k = &k[..r.below(41) as usize];
    writeln!(o, "{} {}", mode::should_color(some_stream(r, st), k), a_style(r).should_color(some_stream(r, st)))?;
    writeln!(o, "{}", Style::new().should_color(r.pick(st)))
}
/// Everything that can be printed, under a specification with width, precision and flags.
fn printing(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    fn debug(o: Out, w: usize, p: usize, x: &dyn Debug) -> fmt::Result {
        write!(o, "{x:w$?}|{x:#?}|{x:<w$.p$?}|{x:#w$.p$?}|{x:+0w$?}|{x:x?}|{x:#X?}|{x:*>w$?}|")
    }
    fn display(o: Out, w: usize, p: usize, x: &dyn Display) -> fmt::Result {
        write!(o, "{x}|{x:w$}|{x:^#w$.p$}|{x:.p$}|{x:+0w$}|{x:->w$}|")
    }
    let (w, p) = (r.pick(&[0, 1, 8, 33, 70]), r.below(5) as usize);
    let (s, f, x, t) = (a_style(r), a_flags(r), some_stream(r, st), a_text(r));
    let mut it = f.iter();
    it.nth(r.below(4) as usize);
    let v = StyledValue::new(t.str(), s, x);
    let n = StyledValue::new(r.u64(), Style::new().fg(a_rgb(r)).bg(css::Indigo).underline_color(a_xterm(r)).effect_flags(f), x);
    let some: [&dyn Debug; 24] = [
        &f, &it, &f.iter(), &r.pick(&EFFECTS), &s, &v, &n, &n.style, &s.apply(), &s.clear(), &n.style.apply(), &n.style.clear(), &Style::clear_all(), &opt_color(r),
        &a_color(r), &a_ansi(r), &a_xterm(r), &a_css(r), &a_rgb(r), &NoColor, &x, &mode::get_coloring_mode(), &ColorKind::Xterm, &(ansi::Red, xterm::Lime, css::Gold, rgb::Rgb::<1, 2, 3>),
    ];
    for _ in 0..3 {
        debug(o, w, p, r.pick(&some))?;
    }
    debug(o, w, p, &(t.str().parse::<Color>(), t.str().parse::<Mode>(), t.str().parse::<Stream>()))?;
    o.write_str("\n")?;
    let some: [&dyn Display; 7] = [&v, &n, &s.apply(), &s.clear(), &n.style.apply(), &n.style.clear(), &Style::clear_all()];
    display(o, w, p, r.pick(&some))?;
    if let Err(e) = t.str().parse::<Mode>() {
        display(o, w, p, &e)?;
    }
    if let Err(e) = t.str().parse::<Stream>() {
        display(o, w, p, &e)?;
    }
    write!(o, "{n:w$x}|{n:#w$b}|{n:<w$o}|{n:^w$X}|{n:w$.p$e}|{n:+w$.p$E}|")?;
    let q = n.into_style().bold();
    writeln!(o, "{q:w$}|{:>w$.p$}|{:w$.p$?}", v.style().red(), v.into_style().on_blue())
}
struct Nest<'a>(&'a [Rt], Option<Stream>);
impl Display for Nest<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.0 {
            [] => f.write_str("."),
            [s, rest @ ..] => {
                let inner = Nest(rest, self.1);
                Display::fmt(&inner.style_with(*s).stream_opt(self.1), f)?;
                f.write_str(",")
            }
        }
    }
}
fn nested(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let mut s = [Style::new().fg(None).bg(None).underline_color(None); 30];
    s.iter_mut().for_each(|x| *x = a_style(r));
    let n = r.below(31) as usize;
    writeln!(o, "{}", Nest(&s[..n], some_stream(r, st)))?;
    let v = StyledValue::new(7, s[0], None);
    let w = v.style().red().stream_opt(some_stream(r, st)).into_style().on_blue();
    writeln!(o, "{w}{w:?}{w:#x}")
}
fn failing(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    let v = StyledValue::new("failing", a_style(r), some_stream(r, st));
    let mut f = Full(r.below(60) as usize);
    write!(o, "{:?}", write!(f, "{v}"))?;
    let mut f = Full(r.below(30) as usize);
    writeln!(o, "{:?}", write!(f, "{}{}", v.style.apply(), v.style.clear()))
}
fn odd_iterators(r: &mut Rand, o: Out, _: &[Stream]) -> fmt::Result {
    // very long and lying iterators of effects
    struct Lies(u64, Rand);
    impl Iterator for Lies {
        type Item = Effect;
        fn next(&mut self) -> Option<Effect> {
            self.0 = self.0.checked_sub(1)?;
            Some(self.1.pick(&EFFECTS))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (usize::MAX, Some(0))
        }
    }
    let f: EffectFlags = Lies(r.below(100), Rand(r.u64())).collect();
    let s = Style::new().effects(Lies(r.below(3), Rand(r.u64())));
    let mut a = [Effect::Bold, Effect::Hidden];
    writeln!(o, "{f:?} {s:?} {:?} {:?}", Style::new().effects(&a).effects, EffectFlags::from_iter(a.iter_mut()))
}

pub const OPS: [(&str, Op); 14] = [
    ("apply and clear", direct),
    ("typed styles", typed),
    ("Display and Debug of styled text", display),
    ("all formatting traits", traits),
    ("shorthand methods", shorthand),
    ("builders and conversions", builders),
    ("color codes", colors),
    ("parsing", parsing),
    ("effect sets", effects),
    ("settings", settings),
    ("decisions", decisions),
    ("nested values", nested),
    ("printing everything", printing),
    ("failing sinks", failing_and_iterators),
];
fn failing_and_iterators(r: &mut Rand, o: Out, st: &[Stream]) -> fmt::Result {
    failing(r, o, st)?;
    odd_iterators(r, o, st)
}

/// Run every operation `n` times.
#[allow(dead_code)]
pub fn transcript(seed: u64, n: u64, st: &[Stream], o: Out) -> fmt::Result {
    let mut r = Rand(seed);
    for i in 0..n {
        for (name, op) in OPS {
            writeln!(o, "# {i} {name}")?;
            op(&mut r, o, st)?;
        }
    }
    Ok(())
}
