//! Stdout/Stderr coloring follows what the real stream supports, per color kind.
use colorz::mode::{self, Stream};
use mon::decide::*;
use mon::model::*;
use mon::gen;

mon::spy_getenv!();

fn main() {
    mon::run(
        "C02",
        "one process per arrangement of stdin/stdout/stderr (terminal, pipe, file, /dev/null) and environment: first queries in a seeded order over the \
         two streams, then every list of up to 3 color kinds for both streams in shuffled order with repeats, long lists (lengths to 131079, one or two elements apart), styles and formatted values, mode Detect, \
         stream named or by default. Oracle: support measured independently (ioctl on the descriptor; with supports-color, supports_color::on). \
         Distinct (per process): stream and kinds or style differ",
        |c| {
            let mut r = c.rng(0xc02);
            // measuring may not precede the first query in half of the processes
            let early = r.chance(1, 2);
            let t0 = if early { Some(Truth::measure()) } else { None };
            let mut pending = vec![];
            let mut set = INITIAL;
            let mut asked: Vec<String> = vec![];
            c.guard("first queries", |c| {
                for i in 0..6 {
                    let out = r.chance(1, 2);
                    let k = if i == 0 && r.chance(1, 2) { vec![] } else { random_kinds(&mut r) };
                    let s = if out { Stream::Stdout } else { Stream::Stderr };
                    let by_default = r.chance(1, 3);
                    let (got, names) = mon::spy::watch(|| {
                        if by_default {
                            mode::set_default_stream(s);
                            set.default = s;
                            mode::should_color(None, &k)
                        } else {
                            mode::should_color(Some(s), &k)
                        }
                    });
                    asked.extend(names);
                    c.eval(None);
                    pending.push((s, k, got));
                }
                let truth = Truth::measure();
                if let Some(t) = t0 {
                    assert_eq!(t, truth, "the environment changed during the run");
                }
                for (i, (s, k, got)) in pending.iter().enumerate() {
                    let want = !mon::STRIP && truth.allows(*s == Stream::Stdout, k);
                    c.expect(*got == want, || format!("query {i} of a fresh process: {s:?} with {k:?} is {got}, expected {want}; streams {truth:?}"));
                }
            });
            asked.sort();
            asked.dedup();
            c.note("asked", asked.join(" "));
            let truth = Truth::measure();
            c.count(&format!("processes with stdout={} stderr={}", level(truth.stdout), level(truth.stderr)), 1);
            c.guard("all queries", |c| {
                let mut qs: Vec<_> = kinds_lists(3).into_iter().flat_map(|k| [(Stream::Stdout, k.clone()), (Stream::Stderr, k)]).collect();
                for round in 0..2 {
                    r.shuffle(&mut qs);
                    for (s, k) in &qs {
                        if round == 1 && r.chance(1, 4) {
                            set.default = *s;
                            mode::set_default_stream(*s);
                            by_function(c, &set, &truth, None, k);
                        } else {
                            by_function(c, &set, &truth, Some(*s), k);
                        }
                    }
                }
                long_kinds(&mut r, &mut |r, k| {
                    by_function(c, &set, &truth, Some(if r.chance(1, 2) { Stream::Stdout } else { Stream::Stderr }), k);
                    c.count("long lists of kinds", 1);
                });
                let n = c.n(100, 3000);
                for _ in 0..n {
                    let stream = *r.pick(&[None, Some(Stream::Stdout), Some(Stream::Stderr)]);
                    if r.chance(1, 4) {
                        set.default = *r.pick(&[Stream::Stdout, Stream::Stderr]);
                        mode::set_default_stream(set.default);
                    }
                    let (s, w) = gen::style(&mut r);
                    by_style(c, &set, &truth, stream, s, &w);
                    let (s, w) = gen::style(&mut r);
                    by_value(c, &mut r, &set, &truth, stream, s, &w);
                }
                let mut v = Typed { r: r.fork(3), c, set, truth };
                gen::typed_styles(&mut r, 0, 1, &mut v);
                assert_eq!(Truth::measure(), truth, "the environment changed during the run");
            });
        },
    )
}
fn level(s: Support) -> &'static str {
    match (s.ansi, s.xterm, s.rgb) {
        (false, _, _) => "none",
        (_, false, _) => "16",
        (_, _, false) => "256",
        _ => "16m",
    }
}
