//! C20: message passing through the settings, with plain data.
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, Colorize, Style};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

struct Cell(UnsafeCell<u64>);
// SAFETY: unsynchronized on purpose; the settings must order the accesses
unsafe impl Sync for Cell {}
impl Cell {
    fn new() -> Self {
        Cell(UnsafeCell::new(0))
    }
    fn put(&self, v: u64) {
        unsafe { *self.0.get() = v }
    }
    fn get(&self) -> u64 {
        unsafe { *self.0.get() }
    }
}

struct Scenario {
    name: String,
    before: (Mode, Stream),
    set: fn(),
    /// has the new value been read?
    seen: fn() -> bool,
}

fn values() -> bool {
    let v = "x".red().stream(Stream::NeverColor);
    v.to_string() != "x"
}

fn scenarios() -> Vec<Scenario> {
    use Mode::*;
    use Stream::*;
    let mut v: Vec<Scenario> = vec![];
    let mut add = |name: &str, before, set, seen| v.push(Scenario { name: name.into(), before, set, seen });
    if !cfg!(feature = "f-strip") {
        add("mode Always, get", (Detect, AlwaysColor), || mode::set_coloring_mode(Always), || mode::get_coloring_mode() == Always);
        add("mode Never, get", (Detect, AlwaysColor), || mode::set_coloring_mode(Never), || mode::get_coloring_mode() == Never);
        add("mode Detect, get", (Never, AlwaysColor), || mode::set_coloring_mode(Detect), || mode::get_coloring_mode() == Detect);
        add("mode Always, should_color", (Detect, AlwaysColor), || mode::set_coloring_mode(Always), || mode::should_color(Some(NeverColor), &[]));
        add("mode Never, should_color", (Detect, AlwaysColor), || mode::set_coloring_mode(Never), || !mode::should_color(Some(AlwaysColor), &[]));
        add("mode Detect, should_color", (Never, AlwaysColor), || mode::set_coloring_mode(Detect), || mode::should_color(Some(AlwaysColor), &[ColorKind::Rgb]));
        add("mode Detect, should_color by default", (Always, NeverColor), || mode::set_coloring_mode(Detect), || !mode::should_color(None, &[ColorKind::Ansi]));
        add("mode Always, Style::should_color", (Never, NeverColor), || mode::set_coloring_mode(Always), || Style::new().fg(ansi::Red).should_color(NeverColor));
        add("mode Never, Style::should_color", (Always, NeverColor), || mode::set_coloring_mode(Never), || !Style::new().fg(ansi::Red).should_color(None));
        add("mode Always, formatting", (Detect, NeverColor), || mode::set_coloring_mode(Always), values);
        add("mode Never, formatting", (Always, NeverColor), || mode::set_coloring_mode(Never), || !values());
        add("default NeverColor, should_color", (Detect, AlwaysColor), || mode::set_default_stream(NeverColor), || !mode::should_color(None, &[]));
        add("default AlwaysColor, should_color", (Detect, NeverColor), || mode::set_default_stream(AlwaysColor), || mode::should_color(None, &[ColorKind::Xterm]));
        add("default NeverColor, Style::should_color", (Detect, AlwaysColor), || mode::set_default_stream(NeverColor), || !Style::new().bold().should_color(None));
        add("default AlwaysColor, Style::should_color", (Detect, NeverColor), || mode::set_default_stream(AlwaysColor), || Style::new().bold().should_color(None));
        add("default NeverColor, formatting", (Detect, AlwaysColor), || mode::set_default_stream(NeverColor), || "x".red().to_string() == "x");
        add("default AlwaysColor, formatting", (Detect, NeverColor), || mode::set_default_stream(AlwaysColor), || "x".bold().to_string() != "x");
        // decisions that go on to detection; what is detected here is "no color" (not a terminal)
        // or, without detection, color
        add("default Stdout, should_color", (Detect, if DETECTS { AlwaysColor } else { NeverColor }), || mode::set_default_stream(Stdout), || mode::should_color(None, &[]) != DETECTS);
        add("default Stderr, should_color", (Detect, if DETECTS { AlwaysColor } else { NeverColor }), || mode::set_default_stream(Stderr), || mode::should_color(None, &[]) != DETECTS);
        add("mode Detect, should_color(Stdout)", (if DETECTS { Always } else { Never }, AlwaysColor), || mode::set_coloring_mode(Detect), || mode::should_color(Some(Stdout), &[]) != DETECTS);
        #[cfg(feature = "f-std")]
        {
            add("mode from environment, get", (Detect, AlwaysColor), mode::set_coloring_mode_from_env, || mode::get_coloring_mode() == Never);
            add("mode from environment, formatting", (Always, AlwaysColor), mode::set_coloring_mode_from_env, || !values());
        }
    }
    add("default NeverColor, get", (Detect, AlwaysColor), || mode::set_default_stream(NeverColor), || mode::get_default_stream() == NeverColor);
    add("default AlwaysColor, get", (Detect, Stdout), || mode::set_default_stream(AlwaysColor), || mode::get_default_stream() == AlwaysColor);
    add("default Stdout, get", (Detect, AlwaysColor), || mode::set_default_stream(Stdout), || mode::get_default_stream() == Stdout);
    add("default Stderr, get", (Detect, AlwaysColor), || mode::set_default_stream(Stderr), || mode::get_default_stream() == Stderr);
    v
}
type Overwritten = (&'static str, fn(), fn(), fn() -> bool);
fn overwritten() -> Vec<Overwritten> {
    use Mode::*;
    use Stream::*;
    let mut v: Vec<Overwritten> = vec![];
    if !cfg!(feature = "f-strip") {
        v.push(("mode Always, get", || mode::set_coloring_mode(Always), || mode::set_coloring_mode(Never), || mode::get_coloring_mode() == Never));
        v.push(("mode Never, get", || mode::set_coloring_mode(Never), || mode::set_coloring_mode(Always), || mode::get_coloring_mode() == Always));
        v.push(("mode Detect, get", || mode::set_coloring_mode(Detect), || mode::set_coloring_mode(Always), || mode::get_coloring_mode() == Always));
        v.push(("mode Always, should_color", || mode::set_coloring_mode(Always), || mode::set_coloring_mode(Never), || !mode::should_color(None, &[])));
        v.push(("mode Never, formatting", || mode::set_coloring_mode(Never), || mode::set_coloring_mode(Always), values));
        v.push(("default AlwaysColor, should_color", || mode::set_default_stream(AlwaysColor), || mode::set_default_stream(NeverColor), || !mode::should_color(None, &[])));
    }
    v.push(("default NeverColor, get", || mode::set_default_stream(NeverColor), || mode::set_default_stream(AlwaysColor), || mode::get_default_stream() == AlwaysColor));
    v.push(("default AlwaysColor, get", || mode::set_default_stream(AlwaysColor), || mode::set_default_stream(NeverColor), || mode::get_default_stream() == NeverColor));
    v
}
const DETECTS: bool = cfg!(any(feature = "f-std", feature = "f-sc"));

fn main() {
    let all = scenarios();
    let only = std::env::args().nth(1).and_then(|s| s.parse::<usize>().ok());
    #[cfg(feature = "f-std")]
    std::env::set_var("NO_COLOR", "1");
    let (mut seen_by, mut sig) = (0, 7u64);
    for (i, s) in all.iter().enumerate() {
        if only.is_some_and(|o| o != i) {
            continue;
        }
        println!("RUN {}", s.name);
        mode::set_coloring_mode(s.before.0);
        mode::set_default_stream(s.before.1);
        let cell = Cell::new();
        let readers = 2;
        let got: Vec<Option<u64>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..readers)
                .map(|_| {
                    sc.spawn(|| {
                        for polls in 0..60u64 {
                            if (s.seen)() {
                                let v = cell.get();
                                if v != 4711 {
                                    println!("BAD {}: read {v}", s.name);
                                }
                                return Some(polls);
                            }
                            std::thread::yield_now();
                        }
                        None
                    })
                })
                .collect();
            sc.spawn(|| {
                cell.put(4711);
                (s.set)();
            });
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        seen_by += got.iter().flatten().count();
        for g in &got {
            sig = sig.wrapping_mul(1099511628211).wrapping_add(g.map_or(99, |x| x + 1));
        }
        if (s.seen)() {
            println!("EV {} {}", s.name, got.iter().flatten().count());
        } else {
            println!("BAD {}: never took effect", s.name);
        }
    }
    println!("EV messages {seen_by}");
    println!("SIG {sig:x}");
    // a value set again after another thread has set something else in between; the second
    // setter knows of the first only through relaxed memory, so it may act on old news
    for (name, set, other, seen_other) in overwritten() {
        mode::set_coloring_mode(Mode::Detect);
        mode::set_default_stream(Stream::AlwaysColor);
        set();
        let (cell, flag) = (Cell::new(), AtomicBool::new(false));
        let got = std::thread::scope(|sc| {
            let reader = sc.spawn(|| {
                let mut polls = (0..120u64).map(|p| {
                    std::thread::yield_now();
                    p
                });
                polls.find(|_| seen_other())?;
                polls.find(|_| !seen_other())?;
                let v = cell.get();
                if v != 4711 {
                    println!("BAD {name}, overwritten: read {v}");
                }
                Some(v)
            });
            sc.spawn(|| {
                other();
                flag.store(true, Relaxed);
            });
            sc.spawn(|| {
                for _ in 0..60 {
                    if flag.load(Relaxed) {
                        cell.put(4711);
                        set();
                        break;
                    }
                    std::thread::yield_now();
                }
            });
            reader.join().unwrap()
        });
        println!("EV overwritten {name} {}", u64::from(got.is_some()));
    }
    // a baton passed back and forth by one setting
    if !cfg!(feature = "f-strip") {
        mode::set_coloring_mode(Mode::Always);
        mode::set_default_stream(Stream::AlwaysColor);
        let cell = Cell::new();
        let turns = std::thread::scope(|sc| {
            let play = |mine: Mode, theirs: Mode| {
                let cell = &cell;
                move || {
                    let mut turns = 0;
                    for _ in 0..300 {
                        if turns == 6 {
                            break;
                        }
                        if mode::get_coloring_mode() == mine {
                            cell.put(cell.get() + 1);
                            mode::set_coloring_mode(theirs);
                            turns += 1;
                        } else {
                            std::thread::yield_now();
                        }
                    }
                    turns
                }
            };
            let a = sc.spawn(play(Mode::Always, Mode::Never));
            let b = sc.spawn(play(Mode::Never, Mode::Always));
            a.join().unwrap() + b.join().unwrap()
        });
        if cell.get() != turns {
            println!("BAD baton: {} updates survived of {turns}", cell.get());
        }
        println!("EV baton {turns}");
    }
}
