//! A styled value is the plain value between a style prefix and suffix.
use colorz::mode::{self, Stream};
use colorz::{OptionalColor, Style, StyledValue};
use mon::decide::RtStyle;
use mon::flags::{Spec, Via};
use mon::model::*;
use mon::oracle::judge_wrapped;
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx, Rng};
use std::cell::Cell;
use std::fmt::{self, Formatter, Write};

/// Writes down which trait it was formatted with and every option the formatter carries.
#[derive(Clone, Copy)]
struct Probe(u32);
macro_rules! probe {
    ($($t:ident)*) => { $(
        impl fmt::$t for Probe {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                self.tell(stringify!($t), f)
            }
        }
    )* };
}
probe! { Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex }
impl Probe {
    fn tell(&self, t: &str, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "<{t} {} ", self.0)?;
        let s = format!(
            "w{:?} p{:?} f{:?} a{} {}{}{}{}",
            f.width(),
            f.precision(),
            f.fill(),
            match f.align() {
                None => '-',
                Some(fmt::Alignment::Left) => '<',
                Some(fmt::Alignment::Center) => '^',
                Some(fmt::Alignment::Right) => '>',
            },
            f.alternate(),
            f.sign_plus(),
            f.sign_minus(),
            f.sign_aware_zero_pad()
        );
        f.write_str(&s)?;
        f.write_char('|')?;
        f.pad("pa\u{e9}d")?;
        f.pad_integral(self.0 % 2 == 0, "0q", "123")?;
        // shows the debug-hex option
        fmt::Debug::fmt(&[self.0, 255], f)?;
        f.debug_struct("S").field("x", &self.0).finish()?;
        f.write_str(">")
    }
}

type Fmt<'a> = Box<dyn Fn(&mut Formatter<'_>) -> fmt::Result + 'a>;
type Styled<'a> = Box<dyn Fn(RtStyle, Option<Stream>, u8, &mut Formatter<'_>) -> fmt::Result + 'a>;
struct Case {
    name: String,
    plain: Fmt<'static>,
    styled: Styled<'static>,
}

macro_rules! cases {
    ($v:ident $($val:expr => $($t:ident)*;)*) => { $( $(
        $v.push(Case {
            name: format!("{} as {}", stringify!($val), stringify!($t)),
            plain: Box::new(|f| fmt::$t::fmt(&$val, f)),
            styled: Box::new(|s, st, how, f| {
                let v = $val;
                match how {
                    0 => fmt::$t::fmt(&StyledValue::new(v, s, st), f),
                    1 if stringify!($t) != "Pointer" => fmt::$t::fmt(&StyledValue::new(&v, s, st), f),
                    1 => fmt::$t::fmt(&StyledValue::new(v, s, st), f),
                    // a function given to fmt_with stands for the trait
                    _ => StyledValue::new(v, s, st).fmt_with(f, |v, f| fmt::$t::fmt(v, f)),
                }
            }),
        });
    )* )* };
}

#[derive(Debug)]
#[allow(dead_code)]
struct Deep<T> {
    a: T,
    b: Vec<Option<T>>,
}

fn all_cases() -> Vec<Case> {
    let mut v = vec![];
    cases! { v
        Probe(7) => Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex;
        Probe(8) => Display Debug Binary Octal LowerExp UpperExp LowerHex UpperHex;
        "h\u{e9}llo" => Display Debug;
        "" => Display Debug;
        "m" => Display Debug;
        "\u{1b}[1mx\n\u{1b}[m" => Display Debug;
        '\u{20ac}' => Display Debug;
        true => Display Debug;
        () => Debug;
        String::from("line\nline\t") => Display Debug;
        0u8 => Display Debug Binary Octal LowerExp UpperExp LowerHex UpperHex;
        -1i32 => Display Debug Binary Octal LowerExp UpperExp LowerHex UpperHex;
        i128::MIN => Display Debug Binary Octal LowerExp UpperExp LowerHex UpperHex;
        3.5f64 => Display Debug LowerExp UpperExp;
        -0.0f32 => Display Debug LowerExp UpperExp;
        f64::NAN => Display Debug LowerExp UpperExp;
        f64::INFINITY => Display Debug LowerExp UpperExp;
        1e300f64 => Display Debug LowerExp UpperExp;
        [1u8, 200] => Debug;
        Some("x\ny") => Debug;
        (0usize as *const u8) => Debug Pointer;
        (0xdeadbeefusize as *mut u64) => Debug Pointer;
        Deep { a: 5i8, b: vec![None, Some(-5)] } => Debug;
        format_args!("{}-{}", 1, 2).to_string() => Display Debug;
        std::time::Duration::from_micros(1500) => Debug;
        std::net::Ipv4Addr::new(1, 2, 3, 4) => Display Debug;
    }
    v
}

/// exactly the plain text, or the plain text between apply and clear codes
fn judge(out: &str, plain: &str, colored: bool, w: &Wants) -> Result<(), String> {
    if colored {
        judge_wrapped(out, plain, w)
    } else if out != plain {
        Err(format!("{out:?} was written where the value alone gives {plain:?}"))
    } else {
        Ok(())
    }
}

fn check(c: &mut Ctx, r: &mut Rng, spec: &Spec, cs: &Case, colored: bool) {
    let (width, prec) = (mon::flags::size(r), mon::flags::size(r));
    check_sized(c, r, spec, cs, colored, width, prec)
}

fn check_sized(c: &mut Ctx, r: &mut Rng, spec: &Spec, cs: &Case, colored: bool, width: usize, prec: usize) {
    let (s, w) = gen::style(r);
    let how = r.below(3) as u8;
    let stream = Some(if colored { Stream::AlwaysColor } else { Stream::NeverColor });
    let what = || format!("{} with {} (w={width}, p={prec}) styled {s:?}, way {how}", cs.name, spec.0);
    case(what);
    let mut plain = String::new();
    let r1 = (spec.1)(&mut plain, Via(&cs.plain), width, prec);
    let mut out = String::new();
    let r2 = (spec.1)(&mut out, Via(&|f| (cs.styled)(s, stream, how, f)), width, prec);
    let colored = colored && !mon::STRIP;
    c.eval(Some(hash_of(&(&cs.name, spec.0, width, prec, how, colored, w))));
    c.expect(r1 == r2, || format!("{}: {r2:?} for the styled value, {r1:?} for the plain one", what()));
    let j = judge(&out, &plain, colored, &w);
    c.judge(j.map_err(|e| format!("{}: {e}", what())));
    c.count(if colored { "formatted colored" } else { "formatted plain" }, 1);
    c.sample(4, || format!("{}: {out:?}", what()));
}

/// fmt_with calls its function exactly once, on the wrapped value, between the codes.
fn once(c: &mut Ctx, r: &mut Rng) {
    let (s, w) = gen::style(r);
    let colored = r.chance(1, 2);
    let stream = Some(if colored { Stream::AlwaysColor } else { Stream::NeverColor });
    let colored = colored && !mon::STRIP;
    let v = StyledValue::new([r.u8(); 5], s, stream);
    let calls = Cell::new(0u32);
    let seen = Cell::new(std::ptr::null::<u8>());
    let text = *r.pick(&["", "x", "two words", "\u{1b}[0m"]);
    let out = std::cell::RefCell::new(String::new());
    struct Sink<'a>(&'a std::cell::RefCell<String>);
    impl Write for Sink<'_> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0.borrow_mut().push_str(s);
            Ok(())
        }
    }
    let at = Cell::new(0);
    let f = |f: &mut Formatter<'_>| {
        v.fmt_with(f, |b, f| {
            calls.set(calls.get() + 1);
            seen.set(b.as_ptr());
            at.set(out.borrow().len());
            if f.width() != Some(17) || f.precision() != Some(3) || f.fill() != '~' {
                f.write_str("formatter options lost")?;
            }
            f.write_str(text)
        })
    };
    case(|| format!("fmt_with of {s:?}"));
    let res = write!(Sink(&out), "{:~^17.3}", Via(&f));
    c.eval(Some(hash_of(&(w, colored, text, "fmt_with"))));
    let out = out.borrow().clone();
    c.expect(res.is_ok(), || format!("fmt_with of {s:?} failed"));
    c.expect(calls.get() == 1, || format!("fmt_with of {s:?} (colored {colored}) called the function {} times", calls.get()));
    c.expect(seen.get() == v.value.as_ptr(), || format!("fmt_with of {s:?} (colored {colored}) called the function on another value"));
    c.judge(judge(&out, text, colored, &w).map_err(|e| format!("fmt_with of {s:?}: {e}")));
    if colored && calls.get() == 1 {
        // what was there when the function ran is the prefix
        let (a, b) = (&out[..at.get()], &out[at.get() + text.len()..]);
        let p = gen::probe_terms();
        let j = mon::oracle::judge_apply(a, &w, &p).and_then(|_| mon::oracle::judge_clear(a, b, &w, &p));
        c.judge(j.map_err(|e| format!("fmt_with of {s:?}: around the call: {e}")));
    }
}

/// values inside other formatted things
fn inside(c: &mut Ctx, r: &mut Rng) {
    let (s, w) = gen::style(r);
    let colored = r.chance(1, 2);
    let stream = Some(if colored { Stream::AlwaysColor } else { Stream::NeverColor });
    let n = r.u64() as i32;
    let mk = || StyledValue::new(n, s, stream);
    let texts = match r.below(6) {
        0 => (format!("{:#?}", Deep { a: mk(), b: vec![Some(mk()), None] }), format!("{:#?}", Deep { a: n, b: vec![Some(n), None] })),
        1 => (format!("{:06?}", Deep { a: mk(), b: vec![Some(mk()), None] }), format!("{:06?}", Deep { a: n, b: vec![Some(n), None] })),
        2 => (format!("{:>+9} {1:x} {0:e}", mk(), mk()), format!("{:>+9} {1:x} {0:e}", n, n)),
        3 => (format!("{:#012b}|{:#o}", mk(), mk()), format!("{:#012b}|{:#o}", n, n)),
        4 => (format!("{:*^14?}", &&mk()), format!("{:*^14?}", n)),
        _ => (mk().to_string(), n.to_string()),
    };
    let mut t = mon::sgr::DEFAULT;
    let mut bare = String::new();
    let applied = w.applied(t);
    let mut styled_chars = 0u64;
    let j = t.feed(&texts.0, |ch, at| {
        bare.push(ch);
        if at == applied {
            styled_chars += 1;
        }
        Ok(())
    });
    c.eval(Some(hash_of(&(w, n, "inside"))));
    c.judge(j.map_err(|e| format!("{:?}: {e}", texts.0)));
    c.expect(bare == texts.1, || format!("{:?} shows {bare:?}, expected {:?} (style {s:?})", texts.0, texts.1));
    if colored && !mon::STRIP {
        // Default as underline color may be shown either way
        c.expect(styled_chars > 0 || w.ul == Some(Want::Default), || format!("{:?}: nothing is shown styled with {w:?}", texts.0));
    } else {
        c.expect(texts.0 == texts.1, || format!("{:?} written, expected {:?}", texts.0, texts.1));
    }
}

macro_rules! nine {
    ($v:expr, $t:expr, $f:expr) => {
        match $t {
            0 => fmt::Display::fmt($v, $f),
            1 => fmt::Debug::fmt($v, $f),
            2 => fmt::Binary::fmt($v, $f),
            3 => fmt::Octal::fmt($v, $f),
            4 => fmt::Pointer::fmt($v, $f),
            5 => fmt::LowerExp::fmt($v, $f),
            6 => fmt::UpperExp::fmt($v, $f),
            7 => fmt::LowerHex::fmt($v, $f),
            _ => fmt::UpperHex::fmt($v, $f),
        }
    };
}
struct TypedCheck<'a> {
    c: &'a mut Ctx,
    r: Rng,
    specs: &'a [Spec],
}
impl gen::TypedVisitor for TypedCheck<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let base = Style::new().fg(fg).bg(bg).underline_color(ul);
        for k in 0..self.c.n(90, 600) {
            // every single effect, then others: the paths a style takes depend on their number
            let eff = if k < 13 { 1 << k } else { gen::effects(&mut self.r) };
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            let colored = self.r.chance(3, 4);
            let stream = Some(if colored { Stream::AlwaysColor } else { Stream::NeverColor });
            let s = base.effect_flags(flags(eff));
            let v = StyledValue::new(Probe(3), s, stream);
            for _ in 0..4 {
                typed(self, w, colored, &|t, f| by_trait(&v, t, f));
            }
            codes_under_options(self, w, &|k, f| match k {
                0 => fmt::Display::fmt(&s.apply(), f),
                1 => fmt::Debug::fmt(&s.apply(), f),
                2 => fmt::Display::fmt(&s.clear(), f),
                _ => fmt::Debug::fmt(&s.clear(), f),
            });
        }
    }
}
fn by_trait<F: OptionalColor, B: OptionalColor, U: OptionalColor>(v: &StyledValue<Probe, F, B, U>, t: u64, f: &mut Formatter<'_>) -> fmt::Result {
    nine!(v, t, f)
}
#[inline(never)]
fn typed(t: &mut TypedCheck, w: Wants, colored: bool, f: &dyn Fn(u64, &mut Formatter<'_>) -> fmt::Result) {
    let spec = t.specs[t.r.idx(t.specs.len())];
    let tr = t.r.below(9);
    let (width, prec) = (mon::flags::size(&mut t.r), mon::flags::size(&mut t.r));
    let (mut out, mut plain) = (String::new(), String::new());
    let _ = (spec.1)(&mut out, Via(&|fm| f(tr, fm)), width, prec);
    let p = Probe(3);
    let _ = (spec.1)(&mut plain, Via(&|f| nine!(&p, tr, f)), width, prec);
    t.c.eval(Some(hash_of(&(w, spec.0, tr, colored, width, prec, "typed"))));
    t.c.judge(judge(&out, &plain, colored && !mon::STRIP, &w).map_err(|e| format!("typed style {w:?} with {} (w={width}, p={prec}): {e}", spec.0)));
}
/// the codes by themselves, printed under options
#[inline(never)]
fn codes_under_options(t: &mut TypedCheck, w: Wants, f: &dyn Fn(u8, &mut Formatter<'_>) -> fmt::Result) {
    let (s1, s2) = (t.specs[t.r.idx(t.specs.len())], t.specs[t.r.idx(t.specs.len())]);
    let (width, prec) = (mon::flags::size(&mut t.r), mon::flags::size(&mut t.r));
    let (mut a, mut b) = (String::new(), String::new());
    let k = t.r.below(2) as u8;
    let _ = (s1.1)(&mut a, Via(&|fm| f(k, fm)), width, prec);
    let _ = (s2.1)(&mut b, Via(&|fm| f(2 + k, fm)), width, prec);
    let probes = gen::probe_terms();
    t.c.eval(Some(hash_of(&(w, s1.0, s2.0, width, prec, "codes"))));
    let j = mon::oracle::judge_apply(&a, &w, &probes).and_then(|_| mon::oracle::judge_clear(&a, &b, &w, &probes));
    t.c.judge(j.map_err(|e| format!("codes of {w:?} printed with {} and {} (w={width}, p={prec}): {e}", s1.0, s2.0)));
}

/// A value of any size, alignment and ownership that shows itself under every trait.
#[derive(Clone, Copy)]
struct Shape<X>(X);
macro_rules! shaped {
    ($($t:ident)*) => { $(
        impl<X> fmt::$t for Shape<X> {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                let _ = &self.0;
                Probe(9).tell(stringify!($t), f)
            }
        }
    )* };
}
shaped! { Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex }
macro_rules! aligned { ($($n:ident $a:literal)*) => { $( #[repr(align($a))] #[derive(Clone, Copy)] struct $n(#[allow(dead_code)] u8); )* } }
aligned! { A2 2 A4 4 A8 8 A16 16 A32 32 A64 64 A128 128 A256 256 A4096 4096 }

struct Shapes<'a> {
    c: &'a mut Ctx,
    r: Rng,
    specs: &'a [Spec],
}
impl Shapes<'_> {
    /// `mk` makes the value (not all can be copied)
    fn one<T: fmt::Display + fmt::Debug + fmt::Binary + fmt::Octal + fmt::Pointer + fmt::LowerExp + fmt::UpperExp + fmt::LowerHex + fmt::UpperHex>(&mut self, mk: &dyn Fn() -> T) {
        let name = std::any::type_name::<T>();
        let (size, align, drops) = (std::mem::size_of::<T>(), std::mem::align_of::<T>(), std::mem::needs_drop::<T>());
        self.c.count("value types", 1);
        for tr in 0..9 {
            for colored in [true, false] {
                let (s, w) = gen::style(&mut self.r);
                let st = Some(if colored { Stream::AlwaysColor } else { Stream::NeverColor });
                let v = StyledValue::new(mk(), s, st);
                self.judge(name, (size, align, drops), tr, colored, &w, &|f| nine!(&v, tr, f));
                let x = mk();
                let v = StyledValue::new(&x, s, st);
                // a reference's address is shown as such
                if tr != 4 {
                    self.judge(name, (size, align, drops), tr, colored, &w, &|f| nine!(&v, tr, f));
                }
                let eff = self.r.u64() as u16 & mon::sgr::ALL;
                let s = Style::new().fg(colorz::ansi::Red).effect_flags(flags(eff));
                let w = Wants { fg: colorz::ansi::Red.asks(), bg: None, ul: None, eff };
                let v = StyledValue::new(mk(), s, st);
                self.judge(name, (size, align, drops), tr, colored, &w, &|f| nine!(&v, tr, f));
                let (eff, s) = (1 << (eff % 13), Style::new().effect_flags(flags(1 << (eff % 13))));
                let v = StyledValue::new(mk(), s, st);
                self.judge(name, (size, align, drops), tr, colored, &Wants { fg: None, bg: None, ul: None, eff }, &|f| nine!(&v, tr, f));
            }
        }
    }
    #[inline(never)]
    fn judge(&mut self, name: &str, shape: (usize, usize, bool), tr: u64, colored: bool, w: &Wants, f: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) {
        let spec = *self.r.pick(self.specs);
        let (width, prec) = (mon::flags::size(&mut self.r), mon::flags::size(&mut self.r));
        case(|| format!("{name} {shape:?} under trait {tr} with {}", spec.0));
        let (mut out, mut plain) = (String::new(), String::new());
        let _ = (spec.1)(&mut out, Via(&|fm| f(fm)), width, prec);
        let p = Shape(());
        let _ = (spec.1)(&mut plain, Via(&|f| nine!(&p, tr, f)), width, prec);
        self.c.eval(Some(hash_of(&(name, w, spec.0, tr, colored, width, prec, "shape"))));
        let j = judge(&out, &plain, colored && !mon::STRIP, w);
        self.c.judge(j.map_err(|e| format!("a value of type {name} (size, alignment, drop {shape:?}) in style {w:?} with {} (w={width}, p={prec}): {e}", spec.0)));
    }
    fn all(&mut self) {
        use std::cell::{Cell, RefCell};
        use std::rc::Rc;
        use std::sync::{Arc, Mutex};
        macro_rules! sizes { ($($n:literal)*) => { $( self.one(&|| Shape([7u8; $n])); )* } }
        sizes! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 28 31 32 33 40 47 48 49 56 63 64 65 72 80 96 100 127 128 129 160 192 255 256 257 320 511 512 513 768 1000 1023 1024 1025 2047 2048 2049 4095 4096 4097 8192 16384 32768 65535 65536 65537 }
        macro_rules! types { ($($e:expr),* $(,)?) => { $( self.one(&|| Shape($e)); )* } }
        let m = std::sync::RwLock::new(1);
        let borrowed = RefCell::new(2);
        let local = 5u32;
        let near = &local;
        types! {
            A2(0), A4(0), A8(0), A16(0), A32(0), A64(0), A128(0), A256(0), A4096(0), [A16(0), A16(1), A16(2)], [A64(0); 4], (A128(0), [0u8; 200]),
            (), (u8::MAX, u64::MAX), 0u16, 0u32, 0u64, 0u128, 0f32, 0f64, 'c', true, [0u64; 3], [0u128; 9], [0u16; 5],
            String::from("x"), Box::new(1u8), Box::new([1u8; 100]), Vec::<u32>::new(), vec![String::new()], Rc::new(1), Arc::new(1), Cell::new(1), RefCell::new(1), Mutex::new(1),
            m.read().unwrap_or_else(|e| e.into_inner()), borrowed.borrow(), Some(Box::new(1)), None::<Rc<u8>>, "text", &local, &near, &local as *const u32, std::ptr::null_mut::<u8>(),
            Box::new(|x: i32| x + local as i32) as Box<dyn Fn(i32) -> i32 + '_>, all_cases as fn() -> Vec<Case>, std::marker::PhantomData::<String>, std::collections::HashMap::<u8, u8>::new(),
            std::num::NonZeroU8::MIN, Some(std::num::NonZeroU64::MIN), Ok::<u8, String>(1), Err::<u8, String>("e".into()), std::sync::mpsc::channel::<u8>(), std::thread::current(), Shape(Shape(1)),
            std::pin::Pin::new(&local), std::borrow::Cow::Borrowed("x"), 1..5, std::rc::Weak::<u8>::new(), std::mem::ManuallyDrop::new(String::new()), std::mem::MaybeUninit::<u64>::uninit(),
        }
    }
}

fn main() {
    mon::run(
        "C04",
        "each formatting-option combination (fill/align x sign x # x 0 x width x precision x debug-hex, 1536) with each value and trait (a probe that writes \
         down the trait and all options it is given, strings, numbers, floats, pointers, structs), random style, colored or not: judged against the bare \
         value's text under the same options, codes judged by a terminal model; fmt_with calls counted; compile-time style types; values of 130 sizes, alignments and kinds of ownership; styled values inside \
         derived Debug output. Distinct: value, trait, options, style or decision differ",
        |c| {
            mode::set_coloring_mode(mode::Mode::Detect);
            let specs = mon::flags::all();
            c.count("option combinations", specs.len() as u64);
            c.count("value/trait pairs", all_cases().len() as u64);
            let rounds = c.n(6, 60);
            let base = c.rng(0xc04);
            c.parallel("formatting", specs.len() as u64, |i, c| {
                let mut r = base.fork(i);
                let cases = all_cases();
                for _ in 0..rounds {
                    for cs in &cases {
                        for colored in [true, false] {
                            check(c, &mut r, &specs[i as usize], cs, colored);
                            if c.full() {
                                return;
                            }
                        }
                    }
                }
            });
            let n = c.n(200_000, 3_000_000);
            c.parallel("fmt_with", 8, |i, c| {
                let mut r = base.fork(10_000 + i);
                for _ in 0..n / 8 {
                    once(c, &mut r);
                    inside(c, &mut r);
                    if c.full() {
                        return;
                    }
                }
            });
            // the largest options there are, on text
            c.guard("largest options", |c| {
                let mut r = base.fork(9_999);
                let cases = all_cases();
                for (w, p) in [(65535, 0), (0, 65535), (65535, 65535), (65534, 256), (256, 65534), (32768, 32767), (255, 256)] {
                    for _ in 0..c.n(300, 4000) {
                        let cs = r.pick(&cases);
                        let spec = *r.pick(&specs);
                        let colored = r.chance(3, 4);
                        check_sized(c, &mut r, &spec, cs, colored, w, p);
                    }
                }
            });
            let reps = c.n(6, 200);
            c.parallel("shapes", 8, |i, c| {
                let mut v = Shapes { c, r: base.fork(30_000 + i), specs: &specs };
                for _ in 0..reps {
                    v.all();
                    if v.c.full() {
                        return;
                    }
                }
            });
            c.parallel("typed", 16, |i, c| {
                let mut r = base.fork(20_000 + i);
                let mut v = TypedCheck { c, r: r.fork(1), specs: &specs };
                for p in 0..16 {
                    if p == i {
                        gen::typed_styles(&mut r, p, 16, &mut v);
                    }
                }
            });
        },
    )
}
