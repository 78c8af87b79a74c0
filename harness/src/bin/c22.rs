//! No public operation panics, overflows or fails to return.
#[path = "../../../freestanding/src/ops.rs"]
#[allow(dead_code)]
mod ops;

use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Colorize, ComptimeColor, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue, WriteColor};
use mon::gen;
use mon::spec::*;
use mon::{case, hash_of, Ctx};
use ops::{Rand, OPS};
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use std::hash::Hash;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];

/// One slot per thread: when what it is doing began, and what that is.
struct Slot {
    since: AtomicU64,
    what: AtomicU64,
    arg: AtomicU64,
}
static SLOTS: [Slot; 64] = [const { Slot { since: AtomicU64::new(0), what: AtomicU64::new(0), arg: AtomicU64::new(0) } }; 64];
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local!(static MINE: Cell<usize> = Cell::new(NEXT.fetch_add(1, Relaxed) as usize % 64));
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
const PARTS: [&str; 6] = ["a random operation", "a typed style", "a color", "parsing", "an effect set", "an odd value"];
/// Watch the time `f` takes.
fn timed<T>(what: usize, arg: u64, f: impl FnOnce() -> T) -> T {
    let s = &SLOTS[MINE.get()];
    s.what.store(what as u64, Relaxed);
    s.arg.store(arg, Relaxed);
    s.since.store(now(), Relaxed);
    let r = f();
    s.since.store(0, Relaxed);
    r
}
const STUCK_MS: u64 = 150_000;

struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.wrapping_mul(0x100000001b3) ^ s.len() as u64;
        Ok(())
    }
}

fn random_ops(c: &mut Ctx, part: u64, n: u64) {
    let mut r = c.rng(part + 1);
    let mut text = String::new();
    for _ in 0..n {
        let k = r.idx(OPS.len());
        let at = r.u64();
        let (name, op) = OPS[k];
        case(|| format!("{name}, random state {at:#x}, after random operations in part {part} of seed {}", c.seed));
        text.clear();
        let res = timed(0, at, || op(&mut Rand(at), &mut text, &STREAMS));
        c.eval(Some(hash_of(&(k, &text))));
        if res.is_err() {
            c.violation(format!("{name}, random state {at:#x}: a formatting operation failed without the sink failing; it wrote {text:?}"));
        }
        c.count(name, 1);
    }
}

/// every operation of a typed style with a given effect set
fn style_ops<F, B, U>(s: Style<F, B, U>, o: &mut Count) -> fmt::Result
where
    F: OptionalColor + Copy + Debug + Into<Option<Color>> + PartialEq,
    B: OptionalColor + Copy + Debug + Into<Option<Color>> + PartialEq,
    U: OptionalColor + Copy + Debug + Into<Option<Color>> + PartialEq,
{
    write!(o, "{}{}{:?}{:?}", s.apply(), s.clear(), s.apply(), s.clear())?;
    write!(o, "{}", StyledValue::new(1u8, s, None))?;
    o.0 ^= s.is_plain() as u64 + ((s.should_color(Stream::Stderr) as u64) << 1) + ((s.should_color(None) as u64) << 2);
    let q = s.into_runtime_style();
    write!(o, "{}{}", q.apply(), q.clear())
}

struct Sweep<'a> {
    c: &'a mut Ctx,
    n: u64,
}
impl gen::TypedVisitor for Sweep<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        self.n += 1;
        let mut o = Count(7);
        for bits in 0..8192u16 {
            case(|| format!("style with {:?} {:?} {:?} and effects {bits:#b}", fg.asks(), bg.asks(), ul.asks()));
            let s = Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(bits));
            let res = timed(1, bits as u64, || {
                let _ = write!(o, "{}{}{:?}{:?}", s.apply(), s.clear(), s.apply(), s.clear());
                o.0 ^= s.is_plain() as u64 + s.should_color(Stream::Stderr) as u64;
                write!(o, "{}{:?}", StyledValue::new("v", s, None), StyledValue::new("v", s, Some(Stream::Stdout)))
            });
            self.c.evals += 1;
            self.c.mark(hash_of(&(self.n, bits, o.0)));
            if res.is_err() {
                self.c.violation(format!("formatting effects {bits:#b} failed"));
            }
        }
    }
}

fn colors(c: &mut Ctx) {
    fn every(c: &mut Ctx, name: &str, n: u64, k: impl WriteColor + Copy + Debug + Hash + Into<Color> + OptionalColor) {
        #[allow(non_snake_case)]
        fn F<T: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(t: T) -> W<T> {
            W(t)
        }
        struct W<T>(T);
        impl<T: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> Display for W<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (self.0)(f)
            }
        }
        case(|| format!("{name} {k:?}"));
        let mut o = Count(1);
        timed(2, n, || {
            for w in [0, 1, 300] {
                write!(o, "{:w$}{:w$}", F(|f| k.fmt_foreground_args(f)), F(|f| k.fmt_foreground(f))).unwrap();
                write!(o, "{:w$}{:w$}", F(|f| k.fmt_background_args(f)), F(|f| k.fmt_background(f))).unwrap();
                write!(o, "{:w$}{:w$}", F(|f| k.fmt_underline_args(f)), F(|f| k.fmt_underline(f))).unwrap();
            }
            let x: Color = k.into();
            write!(o, "{:?}{:#?}{:?}{:?}", k, x, WriteColor::color_kind(k), OptionalColor::color_kind(x)).unwrap();
            o.0 ^= hash_of(&k) ^ hash_of(&x);
        });
        c.eval(Some(hash_of(&(name, n, o.0))));
    }
    for a in ANSI.iter() {
        every(c, "AnsiColor", hash_of(&a.0), a.0);
        a.0.to_xterm();
    }
    every(c, "AnsiColor", 99, ansi::AnsiColor::Default);
    for i in 0..=255u8 {
        let x = xterm::XtermColor::from_code(i);
        every(c, "XtermColor", i as u64, x);
        every(c, "XtermColor from", i as u64, xterm::XtermColor::from(i));
        o_args(x.args());
        for (r, g, b) in [(i, 0, 0), (0, i, 0), (0, 0, i), (i, i, i), (255, i, 255), (i, 255, 99), (99, 100, i)] {
            let k = rgb::RgbColor { red: r, green: g, blue: b };
            every(c, "RgbColor", (r as u64) << 16 | (g as u64) << 8 | b as u64, k);
            let k: Color = k.into();
            every(c, "Color", (r as u64) << 16 | (g as u64) << 8 | b as u64, k);
        }
    }
    for k in CSS.iter() {
        every(c, "CssColor", hash_of(&k.0), k.0);
        k.0.rgb();
        let _ = rgb::RgbColor::from(k.0);
    }
    every(c, "NoColor-free typed", 1, ansi::BrightWhite);
    every(c, "NoColor-free typed", 2, xterm::Gray100);
    every(c, "NoColor-free typed", 3, css::YellowGreen);
    every(c, "NoColor-free typed", 4, rgb::Rgb::<255, 255, 255>);
    c.expect(ansi::Red::VALUE.is_some() && NoColor::VALUE.is_none(), || "comptime values".into());
}
fn o_args(s: &'static str) {
    assert!(s.len() < 1000);
}

fn parse_all(s: &str) -> u64 {
    let mut h = 0;
    if let Err(e) = s.parse::<Mode>() {
        h += e.to_string().len();
    }
    if let Err(e) = s.parse::<Stream>() {
        h += e.to_string().len();
    }
    hash_of(&(h, format!("{:?}", s.parse::<Color>())))
}
fn bytes_all(b: &[u8]) -> u64 {
    (Mode::from_ascii_bytes(b).is_ok() as u64) << 1 | Stream::from_ascii_bytes(b).is_ok() as u64
}

fn parsing(c: &mut Ctx, part: u64, parts: u64) {
    // every text of up to three bytes and every character
    let mut texts = 0;
    for a in (0..128u8).filter(|a| *a as u64 % parts == part) {
        for b in 0..=128u8 {
            for d in 0..=128u8 {
                let (mut t, mut n) = ([a, 0, 0], 1);
                for x in [b, d] {
                    if x < 128 {
                        t[n] = x;
                        n += 1;
                    }
                }
                let s = std::str::from_utf8(&t[..n]).unwrap();
                case(|| format!("parsing {s:?}"));
                let _ = timed(3, texts, || (s.parse::<Color>(), s.parse::<Mode>(), s.parse::<Stream>()));
                texts += 1;
            }
        }
    }
    c.evals += texts;
    c.enumerated += texts;
    c.count("short texts parsed", texts);
    let mut b = [0u8; 4];
    for ch in (0..0x110000u32).filter(|x| *x as u64 % parts == part).filter_map(char::from_u32) {
        for s in [ch.encode_utf8(&mut b)] {
            case(|| format!("parsing {s:?}"));
            timed(3, ch as u64, || parse_all(s));
            c.evals += 1;
            c.enumerated += 1;
        }
    }
    // random texts around every accepted form, and random bytes
    let mut r = c.rng(900 + part);
    let words = ["detect", "always", "never", "stdout", "stderr", "#a0b1c2", "#a0", "255", "bright magenta", "red", "#", "bright "];
    for _ in 0..c.n(60_000, 3_000_000) / parts {
        let mut t: Vec<char> = r.pick(&words).chars().collect();
        for _ in 0..r.below(4) {
            let at = r.idx(t.len() + 1);
            let ch = char::from_u32(if r.chance(1, 3) { r.below(0x110000) as u32 } else { r.below(256) as u32 }).unwrap_or('\u{ffff}');
            match r.below(3) {
                0 if at < t.len() => t[at] = ch,
                1 if at < t.len() => {
                    t.remove(at);
                }
                _ => t.insert(at, ch),
            }
        }
        let s: String = t.into_iter().collect();
        case(|| format!("parsing {s:?}"));
        let h = timed(3, 0, || parse_all(&s));
        c.eval(Some(hash_of(&(&s, h))));
        let mut raw = [0u8; 12];
        raw.iter_mut().for_each(|x| *x = r.u8());
        let raw = &raw[..r.idx(13)];
        case(|| format!("parsing the bytes {raw:?}"));
        timed(3, 1, || (bytes_all(raw), bytes_all(s.as_bytes())));
        c.eval(Some(hash_of(&raw)));
    }
}

fn sets(c: &mut Ctx, part: u64, parts: u64) {
    let mut r = c.rng(70 + part);
    for bits in (0..8192u16).filter(|b| *b as u64 % parts == part) {
        let f = flags(bits);
        case(|| format!("the effects {bits:#b}"));
        let h = timed(4, bits as u64, || {
            let mut h = 0u64;
            for e in EFFECTS {
                let mut g = f;
                g.set(e);
                g.toggle(e);
                g.unset(e);
                h ^= hash_of(&(f.with(e), f.without(e), f.toggled(e), g, f.is(e)));
                for t in [e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape()] {
                    h ^= t.len() as u64;
                }
            }
            for n in [0, 1, 2, 5, 12, 13, 14, 100, u16::MAX as usize, u32::MAX as usize, usize::MAX - 1, usize::MAX] {
                let mut i = f.iter();
                h ^= i.nth(n).is_some() as u64;
                h ^= i.next().is_some() as u64;
                h ^= i.size_hint().0 as u64;
                h ^= f.iter().skip(n).count() as u64 ^ f.iter().take(n).count() as u64;
                h ^= f.iter().step_by(n.max(1)).count() as u64;
                h ^= i.by_ref().last().is_some() as u64;
                h ^= i.next().is_some() as u64 ^ i.size_hint().0 as u64;
                h ^= i.clone().cycle().take(30).count() as u64;
            }
            h ^= f.iter().collect::<Vec<_>>().len() as u64;
            h ^= f.iter().collect::<EffectFlags>().is_any(f) as u64;
            h ^= f.iter().chain(f).zip(f).map(|(a, b)| hash_of(&(a, b))).fold(0, |a, b| a ^ b);
            h ^= f.iter().min_by_key(hash_of_effect).is_some() as u64;
            h ^= f.iter().fuse().partition::<Vec<_>, _>(|e| hash_of_effect(e) % 2 == 0).0.len() as u64;
            let i = f.iter();
            h ^ hash_of(&format!("{f:?}{f:#?}{i:?}{:?}{:#?}", i.clone(), i))
        });
        c.evals += 1;
        c.mark(hash_of(&(bits, h)));
    }
    // long collections
    let n = c.n(200_000, 5_000_000);
    let es = (0..n).map(|_| *r.pick(&EFFECTS));
    case(|| format!("collecting {n} effects"));
    let f: EffectFlags = es.collect();
    c.eval(Some(hash_of(&(part, f))));
    let a = [Effect::SubScript; 3000];
    case(|| "an array of 3000 effects".into());
    let s = Style::new().effects_array(a).effects(a.iter());
    c.eval(Some(hash_of(&(EffectFlags::from_array(a), s.effects))));
    c.expect(Style::new().effects_array([]).is_plain() && EffectFlags::from_array([]).is_plain(), || "the empty array of effects is not plain".into());
    let k = [ColorKind::Rgb, ColorKind::NoColor, ColorKind::Ansi, ColorKind::Xterm].repeat(300_000);
    case(|| "1200000 color kinds".into());
    for st in STREAMS {
        mode::should_color(Some(st), &k);
        c.eval(Some(hash_of(&(st, 1))));
    }
}
fn hash_of_effect(e: &Effect) -> u64 {
    hash_of(e)
}

fn odd_values(c: &mut Ctx) {
    // values whose formatting is unusual
    struct Reenter;
    impl Display for Reenter {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            mode::set_coloring_mode(Mode::Detect);
            mode::set_default_stream(Stream::Stdout);
            mode::should_color(None, &[]);
            let s = format!("{}", "x".into_red().bold().stream(Stream::AlwaysColor));
            f.pad(&s)
        }
    }
    struct Panics;
    impl Display for Panics {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            std::panic::resume_unwind(Box::new("on purpose"))
        }
    }
    let mut r = c.rng(5);
    for i in 0..c.n(3_000, 60_000) {
        let (s, _) = gen::style(&mut r);
        let st = *r.pick(&[None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)]);
        case(|| format!("odd value {i} in {s:?} {st:?}"));
        let mut o = Count(i);
        timed(5, i, || {
            let _ = write!(o, "{:>65535.65535}{:<1}", StyledValue::new(Reenter, s, st), StyledValue::new((), s, st).fmt_len());
        });
        // a panic in the value's own code leaves everything usable
        let p = timed(5, i, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(Count(0), "{}", StyledValue::new(Panics, s, st)))));
        c.expect(p.is_err(), || format!("a panic of the value was swallowed in {s:?} {st:?}"));
        timed(5, i, || {
            let _ = write!(o, "{}", StyledValue::new("after", s, st));
        });
        c.eval(Some(hash_of(&(s, st, o.0))));
    }
    mode::set_coloring_mode(Mode::Detect);
    // very deep nesting, by references and by boxes
    let mut v: Box<dyn Display> = Box::new("deep");
    for i in 0..1500 {
        let (s, _) = gen::style(&mut r);
        v = Box::new(StyledValue::new(v, s, Some(STREAMS[i % 4])));
    }
    case(|| "1500 nested values".into());
    let mut o = Count(0);
    let _ = write!(o, "{v}");
    c.eval(Some(o.0));
}
trait FmtLen {
    fn fmt_len(&self) -> usize;
}
impl<T, F, B, U> FmtLen for StyledValue<T, F, B, U> {
    fn fmt_len(&self) -> usize {
        std::mem::size_of_val(self)
    }
}

/// reading the environment, whatever is in it (no other thread is working)
#[cfg(feature = "f-std")]
fn environment(c: &mut Ctx) {
    use std::os::unix::ffi::OsStrExt;
    let mut r = c.rng(8);
    let long = vec![b'9'; 70_000];
    let odd: [&[u8]; 10] = [b"", b"0", b"\xff", b"\xff\xfe0", "é".as_bytes(), "\u{ff10}".as_bytes(), b"99999999999999999999999999", b"-170141183460469231731687303715884105729", b"=", &long];
    let names: [&[u8]; 8] = [b"NO_COLOR", b"ALWAYS_COLOR", b"CLICOLOR_FORCE", b"FORCE_COLOR", b"TERM", b"COLORZ", b"N\xff", "É".as_bytes()];
    let was: Vec<_> = std::env::vars_os().collect();
    for i in 0..c.n(4_000, 60_000) {
        let n = std::ffi::OsStr::from_bytes(*r.pick(&names));
        if r.below(3) == 0 {
            std::env::remove_var(n);
        } else {
            std::env::set_var(n, std::ffi::OsStr::from_bytes(*r.pick(&odd)));
        }
        case(|| format!("reading the environment {:.2000?}", std::env::vars_os().collect::<Vec<_>>()));
        let m = timed(5, i, || {
            mode::set_coloring_mode_from_env();
            Mode::from_env()
        });
        c.eval(Some(hash_of(&(n, format!("{m:?}")))));
        c.count("environments read", 1);
    }
    let now: Vec<_> = std::env::vars_os().collect();
    now.iter().for_each(|(n, _)| std::env::remove_var(n));
    was.iter().for_each(|(n, v)| std::env::set_var(n, v));
    mode::set_coloring_mode(Mode::Detect);
}

/// What another thread does with the standard streams keeps nothing from returning (asked first in the process).
fn held_streams(c: &mut Ctx) {
    use std::sync::mpsc;
    let mut r = c.rng(0x4e1d);
    let which = r.below(4);
    let (taken, wait) = mpsc::channel::<()>();
    let (done, results) = mpsc::channel::<u64>();
    let (release, end) = mpsc::channel::<()>();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _i = std::io::stdin().lock();
            let _o = (which != 1).then(|| std::io::stdout().lock());
            let _e = (which != 2).then(|| std::io::stderr().lock());
            taken.send(()).unwrap();
            let _ = end.recv();
        });
        wait.recv().unwrap();
        s.spawn(move || {
            let mut n = 0;
            for s in [Stream::Stdout, Stream::Stderr, Stream::Stdout] {
                n += mode::should_color(Some(s), &[ColorKind::Ansi, ColorKind::Rgb]) as u64;
                n += Style::new().fg(ansi::Red).should_color(s) as u64;
                n += "text".fg(css::Gold).bg(xterm::Red).underline().stream(s).to_string().len() as u64;
                mode::set_default_stream(s);
                n += format!("{:?}", 1.red().into_on_blue()).len() as u64;
                mode::set_coloring_mode(Mode::Always);
                #[cfg(feature = "f-std")]
                mode::set_coloring_mode_from_env();
                n += 2.red().to_string().len() as u64 + mode::get_coloring_mode() as u64 + mode::get_default_stream() as u64;
                mode::set_coloring_mode(Mode::Detect);
            }
            n += "bright red".parse::<Color>().is_ok() as u64;
            mode::set_default_stream(Stream::AlwaysColor);
            let _ = done.send(n);
        });
        let got = results.recv_timeout(Duration::from_secs(45));
        // a violation is printed: not before the locks are free
        drop(release);
        match got {
            Ok(n) => c.eval(Some(n)),
            Err(_) => c.violation("decisions have not returned after 45 s while another thread holds the locks of the standard streams"),
        }
        c.count("operations while another thread holds the standard streams", 30);
    });
}

fn main() {
    START.get_or_init(Instant::now);
    mon::run(
        "C22",
        "sequences of random public operations on random and extreme arguments, alone and on eight threads at once; every effect set with every mix of color types; every color in \
         every position; every text of up to three ASCII bytes, every character and mutated words; odd iterators, values and nesting. A panic, an arithmetic overflow (debug \
         builds), a fatal signal or an operation that runs for 150 s is a violation. Distinct: operation and output differ",
        |c| {
            // stdin of the watchdog: an operation that does not return is reported by it
            let out = {
                let mut a = std::env::args().skip_while(|a| a != "--out").skip(1);
                a.next().unwrap_or_default()
            };
            let seed = c.seed;
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_secs(5));
                let t = now();
                for s in &SLOTS {
                    let since = s.since.load(Relaxed);
                    if since != 0 && t > since + STUCK_MS && !out.is_empty() {
                        let what = format!(
                            "{} (argument {:#x}) has not returned after {} s",
                            PARTS[s.what.load(Relaxed) as usize % 6], s.arg.load(Relaxed), (t - since) / 1000
                        );
                        let body = format!(
                            "{{\"id\":\"C22\",\"config\":{},\"seed\":{seed},\"status\":1,\"evaluations\":1,\"distinct\":1,\"rule\":\"\",\"samples\":[],\"violations\":[{}],\"counters\":{{}},\"inconclusive\":[],\"harness\":[],\"notes\":{{}}}}",
                            mon::json_str(&mon::config_name()), mon::json_str(&what)
                        );
                        let _ = std::fs::write(&out, body);
                        std::process::exit(1);
                    }
                }
            });
            c.guard("held streams", held_streams);
            c.guard("random operations", |c| random_ops(c, 0, c.n(150_000, 6_000_000)));
            let n = c.n(80_000, 4_000_000);
            c.parallel("random operations on threads", 8, |p, c| random_ops(c, 100 + p, n));
            mode::set_coloring_mode(Mode::Detect);
            mode::set_default_stream(Stream::AlwaysColor);
            c.parallel("typed styles", 46, |p, c| {
                let mut r = c.rng(p);
                gen::typed_styles(&mut r, p, 46, &mut Sweep { c, n: p * 1000 });
            });
            c.guard("colors", colors);
            c.parallel("parsing", 16, |p, c| parsing(c, p, 16));
            c.parallel("effect sets", 8, |p, c| sets(c, p, 8));
            c.guard("odd values", odd_values);
            #[cfg(feature = "f-std")]
            c.guard("environment", environment);
            c.guard("conversions", |c| {
                let mut r = c.rng(3);
                for bits in 0..8192u16 {
                    let f = flags(bits);
                    let mut o = Count(0);
                    case(|| format!("conversions with effects {bits:#b}"));
                    let q = Style::new().fg(ansi::Blue).bg(css::Gold).underline_color(NoColor).effect_flags(f);
                    let p = Style::new().fg(gen::rgb(&mut r)).bg(gen::opt_color(&mut r)).underline_color(gen::color(&mut r)).effect_flags(f);
                    let _ = (style_ops(q, &mut o), style_ops(p, &mut o), style_ops(q.const_into_runtime_style(), &mut o));
                    c.eval(Some(hash_of(&(bits, o.0))));
                }
            });
        },
    )
}
