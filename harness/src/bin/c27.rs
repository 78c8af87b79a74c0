//! What is written depends on nothing that was written, decided or failed before, nor on where or when.
use colorz::mode::{self, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Colorize, Style, StyledValue, WriteColor};
use mon::flags::Same;
use mon::model::*;
use mon::oracle::*;
use mon::spec::*;
use mon::sys::Outcome;
use mon::{case, gen, hash_of, write_form, Ctx, Rng};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Run = Box<dyn Fn(&mut dyn Write) -> fmt::Result + Send + Sync>;
struct Job {
    name: String,
    /// a decision can be asked for cheaply
    cheap: bool,
    run: Run,
}
impl Job {
    fn text(&self) -> String {
        let mut s = String::new();
        match (self.run)(&mut s) {
            Ok(()) => s,
            Err(_) => format!("error after {s:?}"),
        }
    }
}

struct Codes<C>(C, u64);
impl<C: WriteColor + Copy> Display for Codes<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.1 {
            0 => self.0.fmt_foreground(f),
            1 => self.0.fmt_background(f),
            2 => self.0.fmt_underline(f),
            3 => self.0.fmt_foreground_args(f),
            4 => self.0.fmt_background_args(f),
            _ => self.0.fmt_underline_args(f),
        }
    }
}
const WORDS: [&str; 6] = ["x", "", "a rather longer text, \u{e9} and \u{1f600}", "12", "\u{1b}[1m", "two\nlines"];

fn jobs(r: &mut Rng, n: u64) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut add = |name: String, cheap: bool, run: Run| v.push(Job { name, cheap, run });
    macro_rules! typed {
        ($r:expr; $($f:expr, $b:expr, $u:expr;)*) => { $( {
            let s = Style::new().fg($f).bg($b).underline_color($u).effect_flags(flags(gen::effects($r)));
            let (t, st, k) = (*$r.pick(&WORDS), *$r.pick(&OPT_STREAMS), $r.below(16));
            add(format!("{s:?} on {st:?}, form {k}, around {t:?}"), false, Box::new(move |o| write_form!(o, StyledValue::new(Same(t), s, st), k)));
            add(format!("the codes of {s:?}"), false, Box::new(move |o| write!(o, "{} {}", s.apply(), s.clear())));
            add(format!("{s:?}.should_color({st:?})"), true, Box::new(move |o| o.write_str(if s.should_color(st) { "1" } else { "0" })));
        } )* };
    }
    typed! { r;
        ansi::Red, colorz::NoColor, colorz::NoColor;
        css::Tomato, xterm::Lime, ansi::BrightBlue;
        rgb::Rgb::<1, 22, 255>, css::AliceBlue, rgb::Rgb::<9, 99, 199>;
        colorz::NoColor, xterm::Aqua, css::Gold;
        gen::rgb(r), gen::rgb(r), gen::rgb(r);
        gen::ansi(r), gen::xterm(r), gen::css(r);
        Some(gen::rgb(r)), None::<Color>, gen::color(r);
    }
    for _ in 0..n {
        let (s, _) = gen::style(r);
        let (u, _) = gen::style(r);
        let (t, st, st2, k) = (*r.pick(&WORDS), *r.pick(&OPT_STREAMS), *r.pick(&OPT_STREAMS), r.below(16));
        match r.below(8) {
            0 | 1 => add(format!("{s:?} on {st:?}, form {k}, around {t:?}"), false, Box::new(move |o| write_form!(o, StyledValue::new(Same(t), s, st), k))),
            2 => add(format!("the codes of {s:?}"), false, Box::new(move |o| write!(o, "{} {:?}", s.apply(), s.clear()))),
            3 => {
                let (c, k) = (gen::color(r), r.below(6));
                add(format!("{c:?} in position {k}"), false, Box::new(move |o| write!(o, "{}", Codes(c, k))))
            }
            4 => {
                let (c, k) = (gen::rgb(r), r.below(6));
                add(format!("{c:?} in position {k}"), false, Box::new(move |o| write!(o, "{}", Codes(c, k))))
            }
            5 => add(
                format!("{s:?} on {st:?} around {u:?} on {st2:?}"),
                false,
                Box::new(move |o| write!(o, "{:^9}", StyledValue::new(StyledValue::new(t, u, st2), s, st))),
            ),
            6 => {
                let kinds = mon::decide::random_kinds(r);
                add(format!("should_color({st:?}, {kinds:?})"), true, Box::new(move |o| o.write_str(if mode::should_color(st, &kinds) { "1" } else { "0" })))
            }
            _ => add(format!("17 in hexadecimal with {s:?} on {st:?}"), false, Box::new(move |o| write!(o, "{:#06x}{:?}", StyledValue::new(17u8, s, st), StyledValue::new(Some(t), u, st2)))),
        }
    }
    add("clear_all".into(), false, Box::new(|o| write!(o, "{}", Style::clear_all())));
    add(
        "shorthands".into(),
        false,
        Box::new(|o| write!(o, "{}{}", "x".red().on_blue().bold(), "y".into_bright_green().underline().stream(Stream::AlwaysColor))),
    );
    for t in ["bright blue", "#12ab9f", "204", "301", "nonsense"] {
        add(format!("parsing {t:?}"), false, Box::new(move |o| write!(o, "{:?}{:?}", t.parse::<Color>(), t.parse::<Stream>())));
    }
    v
}

/// Compares what it is given with what it should be.
struct Must<'a>(&'a str, bool);
impl Write for Must<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        match self.0.strip_prefix(s) {
            Some(x) => self.0 = x,
            None => self.1 = true,
        }
        Ok(())
    }
}
fn right(j: &Job, want: &str) -> bool {
    let mut m = Must(want, false);
    (j.run)(&mut m).is_ok() && m.0.is_empty() && !m.1
}

struct World<'a> {
    jobs: &'a [Job],
    want: &'a [String],
    set: Settings,
}
impl World<'_> {
    fn one(&self, c: &mut Ctx, i: usize, when: &dyn Fn() -> String) {
        let j = &self.jobs[i];
        case(|| format!("{} {}", j.name, when()));
        c.evals += 1;
        if !right(j, &self.want[i]) {
            c.violation(format!("{} under {:?} wrote {:?} {}, but {:?} in a fresh process", j.name, self.set, j.text(), when(), self.want[i]));
        }
    }
    fn any(&self, c: &mut Ctx, r: &mut Rng, when: &dyn Fn() -> String) {
        let i = r.idx(self.jobs.len());
        self.one(c, i, when);
        c.mark(hash_of(&(i, self.set, when())));
    }
}

struct Fails(usize);
impl Write for Fails {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}
/// panics at its n-th write
struct Breaks(usize);
impl Write for Breaks {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        if self.0 == 0 {
            resume_unwind(Box::new(4711u32))
        }
        self.0 -= 1;
        Ok(())
    }
}
struct Panics(u64);
mon::all_traits!(Panics, self, f, {
    f.write_str("p")?;
    resume_unwind(Box::new(self.0))
});
struct Errs;
mon::all_traits!(Errs, self, _f, Err(fmt::Error));

/// something that must leave no trace; returns a description
fn disturb(c: &mut Ctx, w: &World, r: &mut Rng, alone: bool) -> &'static str {
    let (s, _) = gen::style(r);
    let (st, k) = (*r.pick(&OPT_STREAMS), r.below(16));
    match r.below(if alone { 9 } else { 7 }) {
        0 => {
            let j = &w.jobs[r.idx(w.jobs.len())];
            let _ = (j.run)(&mut Fails(r.idx(50)));
            "after a sink that failed"
        }
        1 => {
            let j = &w.jobs[r.idx(w.jobs.len())];
            let n = r.idx(5);
            let p = catch_unwind(AssertUnwindSafe(|| (j.run)(&mut Breaks(n))));
            if let Err(p) = p {
                c.count("panics of the sink", 1);
                c.expect(p.downcast_ref() == Some(&4711u32), || format!("{}: a panic of the sink came out as another", j.name));
            }
            "after a sink that panicked"
        }
        2 | 3 => {
            let id = r.u64();
            let mut o = String::new();
            let p = catch_unwind(AssertUnwindSafe(|| write_form!(o, StyledValue::new(StyledValue::new(Panics(id), s, st), s, None), k)));
            c.count("panics of the value", 1);
            c.expect(p.is_err_and(|p| p.downcast_ref() == Some(&id)), || format!("{s:?} on {st:?}: a panic of the value was swallowed or replaced"));
            "after a value that panicked"
        }
        4 => {
            let mut o = String::new();
            let x = write_form!(o, StyledValue::new(Errs, s, st), k);
            c.expect(x.is_err(), || format!("{s:?} on {st:?}: an error of the value was swallowed"));
            "after a value that failed"
        }
        5 => {
            // one that is never formatted, one whose Display is leaked half way
            std::mem::forget(StyledValue::new(String::from("never"), s, st));
            let _ = (s.apply(), s.clear(), Style::clear_all());
            "after values that were never written"
        }
        6 => {
            let _ = ("junk".parse::<Color>(), "#1".parse::<Color>(), s.should_color(st));
            "after parsing"
        }
        7 => {
            for _ in 0..r.idx(4) {
                Settings::random(r).install();
                let j = &w.jobs[r.idx(w.jobs.len())];
                let _ = j.text();
            }
            w.set.install();
            "after other settings were in force"
        }
        _ => {
            #[cfg(feature = "f-std")]
            mode::set_coloring_mode_from_env();
            w.set.install();
            "after the environment was read"
        }
    }
}

/// formats jobs from inside itself, to a depth
struct Deep<'a>(&'a World<'a>, &'a RefCell<(Ctx, Rng)>, u64, u64);
mon::all_traits!(Deep<'_>, self, f, {
    let at = self.3 - self.2;
    {
        let (c, r) = &mut *self.1.borrow_mut();
        self.0.any(c, r, &|| format!("inside {at} styled values"));
    }
    f.write_str("<")?;
    if self.2 > 0 {
        let (s, st, k) = {
            let (_, r) = &mut *self.1.borrow_mut();
            (gen::style(r).0, *r.pick(&OPT_STREAMS), r.below(16))
        };
        write_form!(f, StyledValue::new(Deep(self.0, self.1, self.2 - 1, self.3), s, st), k)?;
        let (c, r) = &mut *self.1.borrow_mut();
        self.0.any(c, r, &|| format!("inside {at} styled values, after one more"));
    }
    f.write_str(">")
});

/// runs jobs when dropped
struct Last<'a>(&'a dyn Fn());
impl Drop for Last<'_> {
    fn drop(&mut self) {
        (self.0)()
    }
}

type Exp<'a> = (&'a [Job], &'a [String], usize);
/// runs jobs when its thread ends
struct AtExit(Cell<Option<Exp<'static>>>);
static BAD: AtomicU64 = AtomicU64::new(u64::MAX);
static DONE: AtomicU64 = AtomicU64::new(0);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some((jobs, want, n)) = self.0.take() {
            for k in 0..n {
                let i = (k * 7919 + DONE.load(Relaxed) as usize) % jobs.len();
                if !catch_unwind(AssertUnwindSafe(|| right(&jobs[i], &want[i]))).unwrap_or(false) {
                    BAD.store(i as u64, Relaxed);
                }
                DONE.fetch_add(1, Relaxed);
            }
        }
    }
}
thread_local!(static AT_EXIT: AtExit = const { AtExit(Cell::new(None)) });

fn histories(c: &mut Ctx, w: &World, salt: u64) {
    let mut r = c.rng(salt);
    for _ in 0..c.n(6_000, 200_000) {
        let after = if r.chance(1, 2) { disturb(c, w, &mut r, true) } else { "after others" };
        w.any(c, &mut r, &|| after.into());
        if r.chance(1, 8) {
            // the same again
            let i = r.idx(w.jobs.len());
            for _ in 0..4 {
                w.one(c, i, &|| "again".into());
            }
        }
        if c.full() {
            return;
        }
    }
    // inside others
    for _ in 0..c.n(60, 2000) {
        let depth = [1, 2, 3, 8, 20, 70][r.idx(6)];
        let cell = RefCell::new((c.child(), r.clone()));
        let s = gen::style(&mut r).0;
        let mut o = String::new();
        let _ = write!(o, "{}", StyledValue::new(Deep(w, &cell, depth, depth), s, *r.pick(&OPT_STREAMS)));
        let (k, r2) = cell.into_inner();
        r = r2;
        c.merge(k);
    }
    c.count("deep values", 60);
    // while a panic unwinds
    for _ in 0..c.n(300, 5000) {
        let cell = RefCell::new((c.child(), r.clone()));
        let drops = || {
            let (c, r) = &mut *cell.borrow_mut();
            for _ in 0..4 {
                w.any(c, r, &|| "while a panic unwinds".into());
            }
        };
        struct Unwinds<'a>(&'a dyn Fn());
        mon::all_traits!(Unwinds<'_>, self, f, {
            let _l = Last(self.0);
            f.write_str("u")?;
            resume_unwind(Box::new(1))
        });
        let (s, st, k) = (gen::style(&mut r).0, *r.pick(&OPT_STREAMS), r.below(16));
        let mut o = String::new();
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let _l = Last(&drops);
            write_form!(o, StyledValue::new(Unwinds(&drops), s, st), k)
        }));
        let (k, r2) = cell.into_inner();
        r = r2;
        c.merge(k);
        for _ in 0..3 {
            w.any(c, &mut r, &|| "after a panic unwound".into());
        }
        if c.full() {
            return;
        }
    }
}

/// different values at one address, in turn
fn same_place(c: &mut Ctx, salt: u64) {
    let mut r = c.rng(salt);
    type V = StyledValue<u16, Option<Color>, Option<Color>, Option<Color>>;
    let mut slot: Box<V> = Box::new(StyledValue::new(0, Style::new().fg(None).bg(None).underline_color(None), None));
    let mut col = Box::new(gen::rgb(&mut r));
    for _ in 0..c.n(40_000, 1_000_000) {
        let old = *slot;
        let (s, w) = gen::style(&mut r);
        *slot = StyledValue::new(r.u64() as u16, old.style, Some(Stream::AlwaysColor));
        // change little or much, in place
        let w = match r.below(3) {
            0 => {
                slot.style = s;
                w
            }
            1 => {
                slot.style.foreground = s.foreground;
                Wants { fg: w.fg, bg: slot.style.background.asks(), ul: slot.style.underline_color.asks(), eff: bits(&slot.style) }
            }
            _ => {
                slot.style.effects = s.effects;
                Wants { fg: slot.style.foreground.asks(), bg: slot.style.background.asks(), ul: slot.style.underline_color.asks(), eff: w.eff }
            }
        };
        let (text, plain) = (format!("{slot}"), slot.value.to_string());
        case(|| format!("{slot:?} where {old:?} was"));
        c.eval(Some(hash_of(&(s, w))));
        let ok = if !mon::STRIP {
            judge_wrapped(&text, &plain, &w)
        } else if text == plain {
            Ok(())
        } else {
            Err(format!("{text:?} was written with strip-colors"))
        };
        c.judge(ok.map_err(|e| format!("a value changed in place from {:?} to {:?}: {e}", old.style, slot.style)));
        *col = gen::rgb(&mut r);
        let k = r.below(3);
        let layer = [Layer::Fg, Layer::Bg, Layer::Ul][k as usize];
        c.judge(judge_color(&Codes(*col, k).to_string(), layer, Want::Rgb(col.red, col.green, col.blue)));
        if c.full() {
            return;
        }
    }
}
fn bits(s: &Style) -> u16 {
    EFFECTS.iter().filter(|e| s.is(**e)).map(|e| effect_bit(*e)).sum()
}

fn main() {
    mon::run(
        "C27",
        "styled values of all trait forms, style and color codes, nested values, decisions and parses, each first run alone in a fresh process and then many times: in random orders, \
         after failing and panicking sinks and values, after other settings, and after up to 2^17 changes of them, inside other styled values, while panics unwind, on many threads at once, in short-lived threads and \
         thread-exit destructors, at reused addresses, tens of thousands to millions of times over and in forked children. Distinct: operation, settings and circumstance differ",
        |c| {
            let mut r = c.rng(0x27);
            let js: &'static [Job] = jobs(&mut r, c.n(160, 1200)).leak();
            let sets: Vec<Settings> = {
                let all = Settings::all();
                let mut v = vec![Settings { mode: Mode2::Detect, default: Stream::AlwaysColor }];
                v.extend((0..c.n(3, 9)).map(|_| *r.pick(&all)));
                v
            };
            // what each writes in a fresh process: this one has done nothing yet
            let mut want: Vec<Vec<String>> = vec![vec![]; sets.len()];
            for j in js {
                let ch = mon::sys::spawn(|| {
                    sets.iter().map(|s| {
                        s.install();
                        j.text()
                    }).collect::<Vec<_>>().join("\u{0}")
                });
                match ch.wait(60_000) {
                    Outcome::Said(s) => {
                        let v: Vec<&str> = s.split('\u{0}').collect();
                        assert_eq!(v.len(), sets.len());
                        v.iter().zip(&mut want).for_each(|(t, w)| w.push(t.to_string()));
                    }
                    o => {
                        c.inconclusive.push(format!("{} in a fresh process: {o:?}", j.name));
                        return;
                    }
                }
            }
            let want: &'static [Vec<String>] = want.leak();
            c.count("operations run in a fresh process", js.len() as u64);
            for (k, set) in sets.iter().enumerate() {
                let w = World { jobs: js, want: &want[k], set: *set };
                set.install();
                c.guard("histories", |c| histories(c, &w, k as u64));
                set.install();
                c.parallel("threads", 8, |p, c| {
                    let mut r = c.rng(100 * k as u64 + p);
                    for _ in 0..c.n(8_000, 300_000) {
                        let after = if r.chance(1, 8) { disturb(c, &w, &mut r, false) } else { "with seven other threads doing the same" };
                        w.any(c, &mut r, &|| after.into());
                    }
                });
                c.guard("short-lived threads", |c| {
                    let n = c.n(40, 400);
                    for i in 0..n {
                        let mut k2 = c.child();
                        let w = &w;
                        std::thread::scope(|s| {
                            let h = s.spawn(move || {
                                // the destructor is registered before or after the first formatting
                                let early = i % 2 == 0;
                                let set = || AT_EXIT.with(|a| a.0.set(Some((js, &want[k], 40))));
                                if early {
                                    set();
                                }
                                k2.guard("a new thread", |c| {
                                    let mut r = c.rng(1000 + i);
                                    for _ in 0..30 {
                                        w.any(c, &mut r, &|| "in a new thread".into());
                                    }
                                });
                                if !early {
                                    set();
                                }
                                k2
                            });
                            c.merge(h.join().unwrap());
                        });
                    }
                    let bad = BAD.swap(u64::MAX, Relaxed);
                    c.expect(bad == u64::MAX, || format!("{} wrote something else, or panicked, in a destructor at the end of a thread", js[bad as usize].name));
                    c.count("operations at the end of threads", DONE.swap(0, Relaxed));
                });
                c.guard("forked", |c| {
                    let ch = mon::sys::spawn(|| (0..js.len()).filter(|i| !right(&js[*i], &w.want[*i])).map(|i| i.to_string()).collect::<Vec<_>>().join(" "));
                    match ch.wait(60_000) {
                        Outcome::Said(s) if s.is_empty() => c.evals += js.len() as u64,
                        Outcome::Said(s) => c.violation(format!("in a forked child, {} wrote something else", js[s.split(' ').next().unwrap().parse::<usize>().unwrap()].name)),
                        o => c.violation(format!("a forked child: {o:?}")),
                    }
                });
                if c.full() {
                    return;
                }
            }
            // however often the settings were changed in between
            c.guard("many settings", |c| {
                let mut lens: Vec<u64> = (1..=24).collect();
                for k in 5..=16u32 {
                    lens.extend([(1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1]);
                }
                let end = if c.thorough { 1 << 24 } else { 1 << 17 };
                lens.push(end);
                let all = Settings::all();
                for n in lens {
                    for how in 0..4 {
                        let (a, b) = (r.idx(sets.len()), r.idx(sets.len()));
                        let w = |k: usize| World { jobs: js, want: &want[k], set: sets[k] };
                        sets[a].install();
                        let i = r.idx(js.len());
                        w(a).one(c, i, &|| "before the settings changed often".into());
                        match how {
                            // the last one that matters is the last one
                            0 => (0..n).for_each(|_| mode::set_coloring_mode(sets[b].mode.real())),
                            1 => (0..n).for_each(|_| mode::set_default_stream(sets[b].default)),
                            2 => {
                                (1..n).for_each(|k| mode::set_coloring_mode(all[k as usize * 5 % all.len()].mode.real()));
                                mode::set_coloring_mode(sets[b].mode.real());
                            }
                            _ => (1..n / 2).for_each(|k| all[k as usize * 5 % all.len()].install()),
                        }
                        match how {
                            0 | 2 => mode::set_default_stream(sets[b].default),
                            1 => mode::set_coloring_mode(sets[b].mode.real()),
                            _ => sets[b].install(),
                        }
                        w(b).one(c, i, &|| format!("after settings were changed {n} times"));
                        w(b).any(c, &mut r, &|| format!("after settings were changed {n} times"));
                        c.count("times settings were changed", n);
                    }
                }
            });
            sets[0].install();
            c.parallel("one address", 4, |p, c| same_place(c, p));
            // over and over
            let w = World { jobs: js, want: &want[0], set: sets[0] };
            sets[0].install();
            let (cheap, dear): (Vec<usize>, Vec<usize>) = (0..js.len()).partition(|i| js[*i].cheap);
            let (some, often) = (c.n(48, 400) as usize, c.n(70_000, 2_000_000));
            c.parallel("over and over", some as u64, |p, c| {
                let i = dear[p as usize * 7 % dear.len()];
                for k in 0..often {
                    w.one(c, i, &|| format!("at time {k}"));
                }
                c.count("repetitions", often);
            });
            let (few, very) = (c.n(8, 16), c.n((1 << 24) + 5000, 1 << 28));
            c.parallel("very often", few, |p, c| {
                let i = if p % 2 == 0 { dear[(p as usize * 13 + 1) % dear.len()] } else { cheap[p as usize * 5 % cheap.len()] };
                for k in 0..very {
                    if !right(&js[i], &w.want[i]) {
                        c.violation(format!("{} wrote {:?} at time {k}, but {:?} in a fresh process", js[i].name, js[i].text(), w.want[i]));
                        return;
                    }
                }
                c.evals += very;
                c.count("repetitions", very);
            });
            c.sample(2, || format!("{} under {:?}: {:?}", js[0].name, sets[0], want[0][0]));
        },
    )
}
