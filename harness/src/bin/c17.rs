//! A failing output is reported, never ignored, and stops the output.
use colorz::mode::{self, Stream};
use colorz::{Color, Style, StyledValue};
use mon::flags::{Via, FORMS};
use mon::oracle::{DynColor, Text};
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx};
use std::fmt::{self, Display, Formatter, Write};
use std::io;

/// Rejects write number `at` (and, if lasting, all after it).
struct FailAt {
    out: String,
    at: usize,
    lasting: bool,
    writes: usize,
    failed: bool,
}
impl Write for FailAt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.writes;
        self.writes += 1;
        if k == self.at || (self.lasting && k > self.at) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

/// Takes at most `left` bytes, then fails once or for good.
struct Budget {
    out: Vec<u8>,
    left: usize,
    lasting: bool,
    failed: bool,
}
impl Write for Budget {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && !self.lasting {
            self.out.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        let n = self.left.min(s.len());
        self.out.extend_from_slice(&s.as_bytes()[..n]);
        self.left -= n;
        if n < s.len() {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// An io::Write that takes few bytes at a time, is interrupted, and fails after `left` bytes.
struct IoSink {
    out: Vec<u8>,
    left: usize,
    chunk: usize,
    calls: usize,
    zero: bool,
    lasting: bool,
    failed: bool,
}
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls % 3 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.left == 0 && (!self.failed || self.lasting) {
            self.failed = true;
            return if self.zero { Ok(0) } else { Err(io::ErrorKind::BrokenPipe.into()) };
        }
        let mut n = b.len().min(self.chunk);
        if !self.failed || self.lasting {
            n = n.min(self.left);
            self.left -= n;
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Obj<'a> = &'a dyn Fn(&mut Formatter<'_>) -> fmt::Result;

fn complete(o: Obj) -> Result<String, String> {
    let mut s = String::new();
    match write!(s, "{}", Via(o)) {
        Ok(()) => Ok(s),
        Err(_) => Err(format!("failed although every write was accepted (after {s:?})")),
    }
}

/// a failure at every write
fn at_every_write(c: &mut Ctx, name: &dyn Fn() -> String, key: u64, o: Obj) {
    case(name);
    let full = match complete(o) {
        Ok(f) => f,
        Err(e) => return c.violation(format!("{}: {e}", name())),
    };
    let h = hash_of(&(&full, key));
    for k in 0..200 {
        let mut reached = false;
        for lasting in [true, false] {
            let mut s = FailAt { out: String::new(), at: k, lasting, writes: 0, failed: false };
            let res = write!(s, "{}", Via(o));
            c.evals += 1;
            reached |= s.failed;
            let bad = if s.failed {
                if res.is_ok() {
                    Some("success was reported")
                } else if !full.starts_with(&s.out) {
                    Some("more was written after the failure")
                } else {
                    None
                }
            } else if res.is_err() {
                Some("an error was reported without a failure")
            } else if s.out != full {
                Some("the output differs from the complete output")
            } else {
                None
            };
            if let Some(b) = bad {
                let kind = if lasting { "from" } else { "only" };
                c.violation(format!("{}: the sink rejects writes {kind} number {k}: {b}; accepted {:?}, complete {full:?}", name(), s.out));
                return;
            }
        }
        if !reached {
            c.count("complete outputs without a failure", 1);
            break;
        }
        c.mark(hash_of(&(h, k)));
        c.count("writes rejected", 2);
    }
    c.sample(3, || format!("{}: {full:?}", name()));
}

/// a failure at every byte budget, for formatter sinks and io sinks
fn at_every_byte(c: &mut Ctx, name: &dyn Fn() -> String, o: Obj) {
    case(name);
    let Ok(full) = complete(o) else {
        return c.violation(format!("{}: failed although every write was accepted", name()));
    };
    for n in 0..=full.len() {
        for lasting in [true, false] {
            let mut s = Budget { out: vec![], left: n, lasting, failed: false };
            let res = write!(s, "{}", Via(o));
            c.evals += 1;
            let ok = if n < full.len() { res.is_err() && s.out == full.as_bytes()[..n] } else { res.is_ok() && s.out == full.as_bytes() };
            if !ok {
                c.violation(format!(
                    "{}: with room for {n} of {} bytes (lasting {lasting}) the result was {res:?} and the sink holds {:?}; complete {full:?}",
                    name(),
                    full.len(),
                    String::from_utf8_lossy(&s.out)
                ));
                return;
            }
            c.mark(hash_of(&(&full, n, lasting)));
            for (chunk, zero) in [(1, false), (4, true), (1000, false)] {
                let mut s = IoSink { out: vec![], left: n, chunk, calls: 0, zero, lasting, failed: false };
                let res = io::Write::write_fmt(&mut s, format_args!("{}", Via(o)));
                c.evals += 1;
                let ok = if n < full.len() {
                    let right = if zero { io::ErrorKind::WriteZero } else { io::ErrorKind::BrokenPipe };
                    res.as_ref().is_err_and(|e| e.kind() == right) && s.out == full.as_bytes()[..n]
                } else {
                    res.is_ok() && s.out == full.as_bytes()
                };
                if !ok {
                    c.violation(format!(
                        "{}: to an io::Write that fails after {n} of {} bytes ({chunk} at a time, lasting {lasting}) the result was {res:?}, it holds {:?}",
                        name(),
                        full.len(),
                        String::from_utf8_lossy(&s.out)
                    ));
                    return;
                }
            }
        }
    }
    c.count("byte budgets tried", full.len() as u64 + 1);
}

/// A value whose own formatting fails after some text.
struct Failing<'a>(&'a str);
mon::all_traits!(Failing<'_>, self, f, {
    f.write_str(self.0)?;
    Err(fmt::Error)
});

fn own_error(c: &mut Ctx, r: &mut mon::Rng) {
    let (s, w) = gen::style(r);
    let (s2, _) = gen::style(r);
    let stream = *r.pick(&[None, Some(Stream::AlwaysColor), Some(Stream::NeverColor)]);
    let text = *r.pick(&["", "x", "partial"]);
    let (nested, form) = (r.chance(1, 3), r.below(16));
    case(|| format!("a failing value in {s:?}"));
    for (how, res) in [
        ("write!", {
            let mut o = String::new();
            let v = StyledValue::new(Failing(text), s, stream);
            if nested { mon::write_form!(o, StyledValue::new(v, s2, stream), form) } else { mon::write_form!(o, v, form) }
        }),
        ("fmt_with", {
            let mut o = String::new();
            let v = StyledValue::new(text, s, stream);
            write!(o, "{}", Via(&|f| v.fmt_with(f, |_, _| Err(fmt::Error))))
        }),
    ] {
        c.eval(Some(hash_of(&(&w, stream, text, nested, how, form))));
        c.count("values failing by themselves", 1);
        c.expect(res.is_err(), || format!("{s:?} on {stream:?}: the value's own error was not returned by {how} (nested {nested}, as {})", FORMS[form as usize]));
    }
}

struct TypedCheck<'a> {
    c: &'a mut Ctx,
    r: mon::Rng,
}
impl gen::TypedVisitor for TypedCheck<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        for _ in 0..3 {
            let eff = gen::effects(&mut self.r);
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            let s = Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(eff));
            let v = StyledValue::new("t\u{e9}xt", s, Some(Stream::AlwaysColor));
            typed(self.c, w, "styled value", &|f| v.fmt(f));
            typed(self.c, w, "apply", &|f| s.apply().fmt(f));
            typed(self.c, w, "clear", &|f| s.clear().fmt(f));
            typed(self.c, w, "apply as Debug", &|f| write!(f, "{:?}", s.apply()));
            typed(self.c, w, "clear as Debug", &|f| write!(f, "{:?}", s.clear()));
        }
    }
}
#[inline(never)]
fn typed(c: &mut Ctx, w: Wants, what: &str, o: Obj) {
    at_every_write(c, &|| format!("{what} of the typed style {w:?}"), hash_of(&(w, what)), o);
}

fn main() {
    mon::run(
        "C17",
        "every effect set x presence of each color (random colors), apply, clear and styled value: the sink rejects each single write in turn, once or \
         from then on; every byte budget of random styled values (nested, optional, typed styles) and all colors, through fmt::Write and io::Write (short \
         writes, interruptions, Ok(0)); values whose own formatting fails. Non-trivial and distinct: the fault was reached, by output text and fault point",
        |c| {
            mode::set_coloring_mode(mode::Mode::Detect);
            mode::set_default_stream(Stream::AlwaysColor);
            let base = c.rng(0xc17);
            let rounds = c.n(1, 6);
            c.parallel("faults at writes", 64, |part, c| {
                let mut r = base.fork(part);
                for _ in 0..rounds {
                    for eff in (0..8192u16).filter(|e| *e as u64 % 64 == part) {
                        for p in 0..8u64 {
                            let mut col = |b: u64| if p & b != 0 { Some(gen::color(&mut r)) } else { None };
                            let (f, b, u) = (col(1), col(2), col(4));
                            let s: Style<Option<Color>, Option<Color>, Option<Color>> = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(eff));
                            let k = hash_of(&(eff, p));
                            at_every_write(c, &|| format!("apply of {s:?}"), k, &|f| s.apply().fmt(f));
                            at_every_write(c, &|| format!("clear of {s:?}"), k, &|f| s.clear().fmt(f));
                            let v = StyledValue::new(Pieces, s, None);
                            at_every_write(c, &|| format!("value styled {s:?}"), k, &|f| v.fmt(f));
                            let form = (eff / 64 + eff + p as u16) as usize % 18;
                            match form {
                                16 => at_every_write(c, &|| format!("apply of {s:?} as {{:?}}"), k ^ 1, &|f| write!(f, "{:?}", s.apply())),
                                17 => at_every_write(c, &|| format!("clear of {s:?} as {{:?}}"), k ^ 1, &|f| write!(f, "{:?}", s.clear())),
                                _ => at_every_write(c, &|| format!("value styled {s:?} as {}", FORMS[form]), k ^ 1, &|f| mon::write_form!(f, v, form)),
                            }
                            if c.full() {
                                return;
                            }
                        }
                    }
                }
            });
            c.parallel("typed styles", 16, |i, c| {
                let mut r = base.fork(500 + i);
                let mut v = TypedCheck { c, r: r.fork(1) };
                for p in 0..16 {
                    if p == i {
                        gen::typed_styles(&mut r, p, 16, &mut v);
                    }
                }
            });
            let n = c.n(4_000, 100_000);
            c.parallel("byte budgets", 16, |i, c| {
                let mut r = base.fork(1000 + i);
                for _ in 0..n / 16 {
                    let (s, _) = gen::style(&mut r);
                    let (s2, _) = gen::style(&mut r);
                    let st = *r.pick(&mon::model::OPT_STREAMS);
                    let v = StyledValue::new("t\u{e9}xt", s, st);
                    match r.below(4) {
                        0 => at_every_byte(c, &|| format!("apply of {s:?}"), &|f| s.apply().fmt(f)),
                        1 => at_every_byte(c, &|| format!("clear of {s:?}"), &|f| s.clear().fmt(f)),
                        2 => at_every_byte(c, &|| format!("value styled {s:?} on {st:?}"), &|f| v.fmt(f)),
                        _ => {
                            let v = StyledValue::new(("a", &v), s2, None);
                            at_every_byte(c, &|| format!("two layers, {s:?} in {s2:?}"), &|f| {
                                v.fmt_with(f, |p, f| {
                                    f.write_str(p.0)?;
                                    p.1.fmt(f)?;
                                    f.write_str("z")
                                })
                            })
                        }
                    }
                    for _ in 0..4 {
                        own_error(c, &mut r);
                    }
                    let col = gen::color(&mut r);
                    color(c, &col, false);
                    color(c, &gen::rgb(&mut r), false);
                    if c.full() {
                        return;
                    }
                }
            });
            c.guard("all named colors", |c| {
                for (x, _) in ANSI {
                    color(c, &x, true);
                }
                color(c, &colorz::ansi::AnsiColor::Default, true);
                for (x, _) in XTERM {
                    color(c, &x, true);
                    color(c, &Color::Xterm(x), true);
                }
                for (x, _, _) in CSS {
                    color(c, &x, true);
                    color(c, &Color::Css(x), true);
                }
                color(c, &colorz::rgb::Rgb::<1, 22, 255>, true);
                color(c, &colorz::ansi::BrightRed, true);
                color(c, &colorz::xterm::Aqua, true);
                color(c, &colorz::css::Tomato, true);
                at_every_write(c, &|| "clear_all as Debug".into(), 1, &|f| write!(f, "{:?}", Style::clear_all()));
                at_every_byte(c, &|| "error of Mode".into(), &|f| colorz::mode::ModeFromStrError.fmt(f));
                at_every_write(c, &|| "error of Mode".into(), 0, &|f| colorz::mode::ModeFromStrError.fmt(f));
                at_every_byte(c, &|| "error of Stream".into(), &|f| colorz::mode::StreamFromStrError.fmt(f));
                at_every_write(c, &|| "error of Stream".into(), 0, &|f| colorz::mode::StreamFromStrError.fmt(f));
                at_every_byte(c, &|| "clear_all".into(), &|f| <Style<colorz::NoColor, colorz::NoColor, colorz::NoColor>>::clear_all().fmt(f));
                at_every_write(c, &|| "clear_all".into(), 0, &|f| <Style<colorz::NoColor, colorz::NoColor, colorz::NoColor>>::clear_all().fmt(f));
            });
        },
    )
}
#[inline(never)]
fn color(c: &mut Ctx, x: &dyn DynColor, bytes: bool) {
    for i in 0..6 {
        at_every_write(c, &|| format!("{x:?}, form {i}"), i as u64, &|f| Text(x, i).fmt(f));
        if bytes {
            at_every_byte(c, &|| format!("{x:?}, form {i}"), &|f| Text(x, i).fmt(f));
        }
    }
}
struct Pieces;
mon::all_traits!(Pieces, self, f, {
    f.write_str("one")?;
    f.write_char('2')?;
    write!(f, "{}", 3)
});
