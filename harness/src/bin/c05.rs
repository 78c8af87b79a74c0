//! Styling is all-or-nothing for each value, whatever changes meanwhile.
use colorz::mode::{self, Stream};
use colorz::{Colorize, StyledValue};
use mon::decide::{style_kinds, RtStyle};
use mon::flags::{Via, FORMS};
use mon::model::*;
use mon::oracle::judge_wrapped;
use mon::sgr::Term;
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx, Rng};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

thread_local! {
    /// what the settings are now, as far as this thread has set them
    static NOW: Cell<Settings> = const { Cell::new(INITIAL) };
}
fn install(s: Settings) {
    s.install();
    NOW.with(|n| n.set(s));
}

/// Changes the settings just before or just after it accepts write number `at`.
struct FlipSink {
    out: String,
    writes: usize,
    at: usize,
    after: bool,
    to: Settings,
    by_thread: bool,
    flipped: bool,
}
impl FlipSink {
    fn flip(&mut self) {
        self.flipped = true;
        if self.by_thread {
            let to = self.to;
            std::thread::spawn(move || to.install()).join().unwrap();
            NOW.with(|n| n.set(to));
        } else {
            install(self.to);
        }
    }
}
impl Write for FlipSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.writes == self.at && !self.after {
            self.flip();
        }
        self.out.push_str(s);
        if self.writes == self.at && self.after {
            self.flip();
        }
        self.writes += 1;
        Ok(())
    }
}

/// Writes in pieces and changes the settings before piece number `at`.
struct FlipValue {
    at: usize,
    to: Settings,
}
const PIECES: [&str; 3] = ["al", "ph", "a\u{3b1}"];
const TEXT: &str = "alpha\u{3b1}";
impl FlipValue {
    fn show(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for (i, p) in PIECES.iter().enumerate() {
            if i == self.at {
                install(self.to);
            }
            f.write_str(p)?;
        }
        if self.at == PIECES.len() {
            install(self.to);
        }
        Ok(())
    }
}
mon::all_traits!(FlipValue, self, f, self.show(f));

fn judge(out: &str, colored: bool, w: &Wants) -> Result<(), String> {
    if colored {
        judge_wrapped(out, TEXT, w)
    } else if out != TEXT {
        Err(format!("{out:?} is not the plain text"))
    } else {
        Ok(())
    }
}

fn one_flip(c: &mut Ctx, r: &mut Rng, truth: &Truth, before: Settings, after: Settings, stream: Option<Stream>) {
    let (s, w) = gen::style(r);
    let want = before.decide(truth, stream, &style_kinds(&w));
    let form = if r.chance(1, 3) { 0 } else { r.below(16) };
    let as_form = FORMS[form as usize];
    // at every write of the sink until none is left
    for k in 0..100 {
        let (late, by_thread) = (r.chance(1, 2), r.chance(1, 40));
        case(|| format!("{s:?} on {stream:?}: settings go from {before:?} to {after:?} at write {k}"));
        // made under other settings than those it is written under
        install(if k % 2 == 0 { after } else { before });
        let value = FlipValue { at: 99, to: after };
        let v = StyledValue::new(value, s, stream);
        install(before);
        let mut sink = FlipSink { out: String::new(), writes: 0, at: k, after: late, to: after, by_thread, flipped: false };
        mon::write_form!(sink, v, form).expect("nothing fails");
        c.eval(Some(hash_of(&(before, after, stream, &w, k, late, form))));
        if !sink.flipped {
            break;
        }
        c.count("settings changed by the sink while a value was written", 1);
        c.judge(judge(&sink.out, want, &w).map_err(|e| {
            format!("{s:?} on {stream:?}, streams {truth:?}: the sink changed {before:?} to {after:?} at write {k} (after it: {late}) of {as_form}: colored at the start: {want}: {e}")
        }));
        c.sample(3, || format!("{before:?} -> {after:?} at write {k}: {:?}", sink.out));
    }
    // by the value itself
    for k in 0..=PIECES.len() {
        install(if k % 2 == 0 { after } else { before });
        let v = StyledValue::new(FlipValue { at: k, to: after }, s, stream);
        if k == 2 {
            let _ = v.to_string();
        }
        install(before);
        let mut out = String::new();
        mon::write_form!(out, v, form).expect("nothing fails");
        c.eval(Some(hash_of(&(before, after, stream, &w, k, "value", form))));
        c.count("settings changed by the value itself", 1);
        c.judge(judge(&out, want, &w).map_err(|e| {
            format!("{s:?} on {stream:?}, streams {truth:?}: the value changed {before:?} to {after:?} before its piece {k} of {as_form}: colored at the start: {want}: {e}")
        }));
    }
}

/// Compile-time and mixed styles.
struct TypedFlip<'a> {
    c: &'a mut Ctx,
    r: Rng,
    truth: Truth,
}
impl gen::TypedVisitor for TypedFlip<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let r = &mut self.r;
        let eff = gen::effects(r);
        let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
        let s = colorz::Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(eff));
        let (before, after) = (Settings::random(r), Settings::random(r));
        let stream = *r.pick(&OPT_STREAMS);
        let (at, by_value) = (r.idx(5), r.chance(1, 2));
        let v = StyledValue::new(FlipValue { at: if by_value { at } else { 99 }, to: after }, s, stream);
        install(before);
        let mut sink = FlipSink { out: String::new(), writes: 0, at: if by_value { 99 } else { at }, after: r.chance(1, 2), to: after, by_thread: false, flipped: false };
        write!(sink, "{}", Via(&|f| v.fmt(f))).expect("nothing fails");
        typed_flip(self.c, &self.truth, before, after, stream, &w, &sink.out);
    }
}
#[inline(never)]
fn typed_flip(c: &mut Ctx, truth: &Truth, before: Settings, after: Settings, stream: Option<Stream>, w: &Wants, out: &str) {
    let want = before.decide(truth, stream, &style_kinds(w));
    c.eval(Some(hash_of(&(before, after, stream, w, "typed"))));
    c.count("settings changed while a value of a compile-time style was written", 1);
    c.judge(judge(out, want, w).map_err(|e| {
        format!("a style of compile-time colors asking for {w:?} on {stream:?}, streams {truth:?}: settings went from {before:?} to {after:?}: colored at the start: {want}: {e}")
    }));
}

/// Notes the settings in force when formatting of the wrapped value starts.
struct Noting<'a> {
    inner: StyledValue<&'a FlipValue, Option<colorz::Color>, Option<colorz::Color>, Option<colorz::Color>>,
    start: RefCell<Vec<Settings>>,
}
impl Display for Noting<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.start.borrow_mut().push(NOW.with(|n| n.get()));
        self.inner.fmt(f)
    }
}
fn no_default(w: &Wants) -> bool {
    w.ul != Some(Want::Default)
}

/// two layers: each keeps its own decision
fn nested(c: &mut Ctx, r: &mut Rng, truth: &Truth) {
    let (so, wo) = gen::style(r);
    let (si, wi) = gen::style(r);
    if !no_default(&wo) || !no_default(&wi) {
        return;
    }
    let (before, after) = (Settings::random(r), Settings::random(r));
    let (sto, sti) = (*r.pick(&OPT_STREAMS), *r.pick(&OPT_STREAMS));
    let at = r.idx(12);
    install(before);
    let val = FlipValue { at: if r.chance(1, 3) { r.idx(4) } else { 99 }, to: after };
    let v = StyledValue::new(Noting { inner: StyledValue::new(&val, si, sti), start: RefCell::new(vec![]) }, so, sto);
    let mut sink = FlipSink { out: String::new(), writes: 0, at, after: r.chance(1, 2), to: after, by_thread: false, flipped: false };
    case(|| format!("nested {so:?} around {si:?}, {before:?} to {after:?} at {at}"));
    write!(sink, "{v}").expect("nothing fails");
    let starts = v.value.start.borrow().clone();
    assert_eq!(starts.len(), 1);
    let co = before.decide(truth, sto, &style_kinds(&wo));
    let ci = starts[0].decide(truth, sti, &style_kinds(&wi));
    let none = Wants { fg: None, bg: None, ul: None, eff: 0 };
    let (wo, wi) = (if co { wo } else { none }, if ci { wi } else { none });
    c.eval(Some(hash_of(&(&wo, &wi, before, after, at))));
    c.count("nested values", 1);
    let mut j = Err(format!("the text is not in {:?}", sink.out));
    if let Some(i) = sink.out.find(TEXT) {
        let (p, q) = (&sink.out[..i], &sink.out[i + TEXT.len()..]);
        j = (|| {
            for t in gen::probe_terms() {
                let mut u: Term = t;
                u.codes(p)?;
                let m = wi.applied(wo.applied(t));
                if u != m {
                    return Err(format!("the text is shown as {u:?}, expected {m:?}"));
                }
                u.codes(q)?;
                let e = wo.cleared(wi.cleared(m));
                if u != e {
                    return Err(format!("the terminal is left as {u:?}, expected {e:?}"));
                }
            }
            Ok(())
        })();
    }
    c.judge(j.map_err(|e| {
        format!(
            "{so:?} on {sto:?} (colored: {co}) around {si:?} on {sti:?} (colored: {ci}); settings {before:?}, then {after:?}, {:?} when the inner value started; wrote {:?}: {e}",
            starts[0], sink.out
        )
    }));
}

/// Gives setters a chance to run between its pieces.
struct Yielding;
mon::all_traits!(Yielding, self, f, {
    for p in PIECES {
        std::thread::yield_now();
        f.write_str(p)?;
    }
    Ok(())
});

fn stress(c: &mut Ctx, r: &mut Rng, truth: &Truth, ms: u64) {
    // texts for both decisions, judged once
    let styles: Vec<(RtStyle, Wants)> = (0..24).map(|_| gen::style(r)).collect();
    let full: Vec<String> = styles
        .iter()
        .map(|(s, w)| {
            Settings { mode: Mode2::Always, default: Stream::NeverColor }.install();
            let t = StyledValue::new(Yielding, *s, None).to_string();
            c.judge(judge(&t, !mon::STRIP, w));
            t
        })
        .collect();
    let pool: Vec<Vec<Settings>> = vec![
        Settings::all(),
        vec![Settings { mode: Mode2::Always, default: Stream::NeverColor }, Settings { mode: Mode2::Never, default: Stream::NeverColor }],
        vec![Settings { mode: Mode2::Detect, default: Stream::AlwaysColor }, Settings { mode: Mode2::Detect, default: Stream::NeverColor }],
        STREAMS.iter().map(|s| Settings { mode: Mode2::Detect, default: *s }).collect(),
    ];
    for (pi, pool) in pool.iter().enumerate() {
        let stop = AtomicBool::new(false);
        let sets = AtomicU64::new(0);
        pool[0].install();
        let mut outs: Vec<Ctx> = vec![];
        std::thread::scope(|sc| {
            for t in 0..3u64 {
                let (stop, sets) = (&stop, &sets);
                let mut r = r.fork(t + 100);
                sc.spawn(move || {
                    while !stop.load(Ordering::Relaxed) {
                        let s = r.pick(pool);
                        if r.chance(1, 2) {
                            mode::set_coloring_mode(s.mode.real());
                        } else {
                            mode::set_default_stream(s.default);
                        }
                        sets.fetch_add(1, Ordering::Relaxed);
                        for _ in 0..r.below(200) {
                            std::hint::spin_loop();
                        }
                    }
                });
            }
            let hs: Vec<_> = (0..4u64)
                .map(|t| {
                    let mut c = c.child();
                    let mut r = r.fork(t + 1);
                    let (styles, full, sets) = (&styles, &full, &sets);
                    sc.spawn(move || {
                        c.guard("stress", |c| {
                            let t0 = std::time::Instant::now();
                            let (mut plain, mut colored, mut during) = (0, 0, 0);
                            while t0.elapsed().as_millis() < ms as u128 && !c.full() {
                                let i = r.idx(styles.len());
                                let (s, w) = &styles[i];
                                let stream = *r.pick(&OPT_STREAMS);
                                let e0 = sets.load(Ordering::Relaxed);
                                let out = match r.below(4) {
                                    0 => Yielding.style_with(*s).stream_opt(stream).to_string(),
                                    1 => format!("{}", StyledValue::new(&Yielding, *s, stream)),
                                    2 => {
                                        let (mut o, k) = (String::new(), r.below(16));
                                        mon::write_form!(o, StyledValue::new(Yielding, *s, stream), k).unwrap();
                                        o
                                    }
                                    _ => StyledValue::new(TEXT, *s, stream).to_string(),
                                };
                                if sets.load(Ordering::Relaxed) != e0 {
                                    during += 1;
                                    c.mark(hash_of(&(w, stream, out == TEXT, pi)));
                                }
                                c.eval(None);
                                if out == TEXT {
                                    plain += 1
                                } else if out == full[i] {
                                    colored += 1
                                } else {
                                    c.violation(format!(
                                        "{s:?} on {stream:?}, settings changed by other threads among {pool:?}: {out:?} is neither the plain text nor {:?}", full[i]
                                    ));
                                }
                                // decisions all settings of the pool agree on
                                let ds: Vec<bool> = pool
                                    .iter()
                                    .flat_map(|a| pool.iter().map(move |b| Settings { mode: a.mode, default: b.default }))
                                    .map(|x| x.decide(truth, stream, &style_kinds(w)))
                                    .collect();
                                if ds.iter().all(|d| *d == ds[0]) && !w.plain() && (out != TEXT) != ds[0] {
                                    c.violation(format!("{s:?} on {stream:?}: every setting in use decides {}, but {out:?} was written", ds[0]));
                                }
                            }
                            c.count("formatted under concurrent changes: plain", plain);
                            c.count("formatted under concurrent changes: colored", colored);
                            c.count("formatted while another thread completed a change", during);
                        });
                        c
                    })
                })
                .collect();
            for h in hs {
                outs.push(h.join().unwrap());
            }
            stop.store(true, Ordering::Relaxed);
        });
        for o in outs {
            c.merge(o);
        }
    }
}

fn main() {
    mon::run(
        "C05",
        "every pair of settings before/after x per-value stream, random styles: the settings change before or after each single write the sink receives \
         (sometimes made by another thread), and before each piece the value itself writes; two nested layers, each judged by the settings when it started; \
         then three threads changing settings while four format. Distinct: settings, stream, style or change point differ; in the stress part, a change \
         completed while the value was being formatted",
        |c| {
            let truth = Truth::measure();
            let mut r = c.rng(0xc05);
            c.guard("flips", |c| {
                let n = c.n(3, 80);
                for _ in 0..n {
                    for before in Settings::all() {
                        for after in Settings::all() {
                            for stream in OPT_STREAMS {
                                one_flip(c, &mut r, &truth, before, after, stream);
                                if c.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
                for _ in 0..c.n(30_000, 1_000_000) {
                    nested(c, &mut r, &truth);
                    if c.full() {
                        return;
                    }
                }
            });
            c.guard("typed styles", |c| {
                let rounds = c.n(1, 20);
                for i in 0..rounds {
                    let mut g = r.fork(70 + i);
                    let mut v = TypedFlip { r: r.fork(90 + i), c, truth };
                    gen::typed_styles(&mut g, 0, 1, &mut v);
                }
            });
            let ms = c.n(700, 20_000);
            c.guard("stress", |c| stress(c, &mut r, &truth, ms));
        },
    )
}
