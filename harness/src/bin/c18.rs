//! Styling never allocates.
#[path = "../../../freestanding/src/ops.rs"]
#[allow(dead_code)]
mod ops;

use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{Color, Style, StyledValue};
use mon::alloc_count::{count, Counting};
use mon::{case, hash_of, Ctx};
use ops::{Rand, OPS};
use std::fmt::{self, Write};

#[global_allocator]
static HEAP: Counting = Counting;

/// A fixed buffer; what does not fit is only counted.
struct Fixed {
    buf: Box<[u8]>,
    len: usize,
    total: u64,
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.buf.len() - self.len);
        self.buf[self.len..self.len + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n;
        self.total += s.len() as u64;
        Ok(())
    }
}

fn all(c: &mut Ctx, n: u64, seed: u64, st: &[Stream], phase: &str) {
    let mut sink = Fixed { buf: vec![0; 1 << 16].into_boxed_slice(), len: 0, total: 0 };
    for i in 0..n {
        for (k, (name, op)) in OPS.iter().enumerate() {
            let mut r = Rand(hash_of(&(seed, i, k)));
            let at = r.0;
            case(|| format!("{name}, random state {at:#x}, {phase}"));
            sink.len = 0;
            let before = count();
            let res = op(&mut r, &mut sink, st);
            let used = count() - before;
            c.eval(Some(hash_of(&(k, &sink.buf[..sink.len]))));
            assert!(res.is_ok(), "the sink accepts everything");
            if used != 0 {
                c.violation(format!("{name} ({phase}, streams {st:?}, random state {at:#x}) made {used} heap allocations; it wrote {:?}", String::from_utf8_lossy(&sink.buf[..sink.len.min(600)])));
            }
            if c.full() {
                return;
            }
        }
    }
    c.count(&format!("bytes written without a heap: {phase}"), sink.total);
    c.count("operations, each watched for allocations", n * OPS.len() as u64);
}

/// one single step, watched
fn watch<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> T {
    case(|| what.to_string());
    let before = count();
    let v = f();
    let used = count() - before;
    c.eval(Some(hash_of(&what)));
    c.expect(used == 0, || format!("{what} made {used} heap allocations"));
    v
}

const ALL: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];

fn main() {
    let mut args = std::env::args().skip_while(|a| a != "transcript");
    if args.next().is_some() {
        // FILE SEED N: what the freestanding program must also write
        let (f, seed, n) = (args.next().unwrap(), args.next().unwrap().parse().unwrap(), args.next().unwrap().parse().unwrap());
        let mut s = String::new();
        ops::transcript(seed, n, &ALL, &mut s).unwrap();
        std::fs::write(f, s).unwrap();
        std::process::exit(0)
    }
    mon::run(
        "C18",
        "every kind of public operation (building, converting, parsing, deciding, formatting through every trait, nesting, failing sinks, settings) on random arguments, into a fixed \
         buffer, with a counting allocator read before and after each, from the first call in the process on and on a new thread; with std or supports-color \
         the first detection of each stream is set apart. Distinct: operation and output differ",
        |c| {
            c.guard("first calls", |c| {
                watch(c, "the first styled value of the process", || {
                    let mut f = ops::Rand(1);
                    let _ = f.u64();
                    struct Drop0;
                    impl Write for Drop0 {
                        fn write_str(&mut self, _: &str) -> fmt::Result {
                            Ok(())
                        }
                    }
                    write!(Drop0, "{}", StyledValue::new("x", Style::new().fg(colorz::rgb::RgbColor { red: 200, green: 100, blue: 255 }).bold().underline(), None))
                })
                .unwrap();
            });
            let only: &[Stream] = &[Stream::AlwaysColor, Stream::NeverColor];
            let detects = mon::STD || mon::SC;
            let n = c.n(2_500, 120_000);
            let seed = c.seed;
            c.guard("before detection", |c| all(c, n, seed, if detects { only } else { &ALL }, "before any detection"));
            mode::set_default_stream(Stream::AlwaysColor);
            // settings that win over the stream must not detect it
            c.guard("no need to detect", |c| {
                for m in [Mode::Always, Mode::Never] {
                    watch(c, "set_coloring_mode", || mode::set_coloring_mode(m));
                    for s in ALL {
                        watch(c, &format!("{s:?} under {m:?}"), || mode::should_color(Some(s), &[ColorKind::Rgb]));
                        watch(c, &format!("default {s:?} under {m:?}"), || {
                            mode::set_default_stream(s);
                            mode::should_color(None, &[])
                        });
                    }
                }
                mode::set_coloring_mode(Mode::Detect);
                mode::set_default_stream(Stream::AlwaysColor);
            });
            c.guard("detection", |c| {
                for s in [Stream::Stdout, Stream::Stderr] {
                    let before = count();
                    let first = mode::should_color(Some(s), &[]);
                    let used = count() - before;
                    c.count("allocations by first detections", used);
                    if !detects {
                        c.expect(used == 0, || format!("deciding on {s:?} allocated"));
                    }
                    for k in [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor] {
                        watch(c, &format!("deciding on {s:?} for {k:?} after its first detection"), || mode::should_color(Some(s), &[k]));
                    }
                    let again = watch(c, &format!("deciding on {s:?} again"), || mode::should_color(Some(s), &[]));
                    c.expect(first == again, || format!("the decision on {s:?} changed"));
                }
            });
            c.guard("after detection", |c| all(c, n, seed + 1000, &ALL, "after detection"));
            c.parallel("other threads", 4, |p, c| all(c, n / 2, seed + 2000 + p, &ALL, "on a new thread"));
            mode::set_coloring_mode(Mode::Detect);
            c.guard("long text", |c| {
                let long = "l\u{f6}ng ".repeat(50_000);
                let s = Style::new().fg(Some(Color::Rgb(colorz::rgb::RgbColor { red: 1, green: 22, blue: 333u16 as u8 }))).bold().italics();
                let mut sink = Fixed { buf: Box::new([]), len: 0, total: 0 };
                watch(c, "a value of 300000 bytes", || write!(sink, "{}", StyledValue::new(&long[..], s, Some(Stream::AlwaysColor)))).unwrap();
                c.expect(sink.total >= long.len() as u64, || "the long text was not written".into());
                watch(c, "parsing 300000 bytes", || (long.parse::<Color>().is_ok(), long.parse::<Mode>().is_ok(), long.parse::<Stream>().is_ok()));
                let hex = format!("#{}", "a".repeat(10_000));
                let dec = "1".repeat(10_000);
                watch(c, "parsing long numbers", || (hex.parse::<Color>().is_ok(), dec.parse::<Color>().is_ok()));
            });
            // the counter counts
            let before = count();
            c.sample(1, || format!("{} operations watched", n * OPS.len() as u64));
            assert!(count() > before, "the allocator is installed");
        },
    )
}
