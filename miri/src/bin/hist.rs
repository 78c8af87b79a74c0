//! C19 under Miri: one short history of the settings per execution, checked for linearizability,
//! with preemption anywhere and simulated weak memory; then sole setters reading back.
#[path = "../lin.rs"]
#[allow(dead_code)]
mod lin;
use colorz::mode::{self, Mode, Stream};
use lin::{Op, World};
use mirimon::Rng;

fn main() {
    let mut r = Rng::new(mirimon::arg(1) ^ &raw const TAG as u64);
    let w = World {
        // without std or supports-color streams always take colors; otherwise this program runs on pipes and NO_COLOR-less environments
        stdout: !cfg!(feature = "f-std"),
        stderr: !cfg!(feature = "f-std"),
        strip: cfg!(feature = "f-strip"),
        env: None,
    };
    let threads = 2 + r.below(2) as usize;
    let first = r.below(3) == 0;
    let known = if first { Some((Mode::Detect, Stream::AlwaysColor)) } else { None };
    let p = lin::plan(&w, &mut |n| r.below(n), threads, 4, known);
    let mut before = vec![];
    if !first {
        before.push(lin::timed(0, Op::SetMode(p.initial.0)));
        before.push(lin::timed(0, Op::SetDefault(p.initial.1)));
    }
    let mut events = before;
    std::thread::scope(|s| {
        let hs: Vec<_> = p
            .ops
            .iter()
            .enumerate()
            .map(|(t, ops)| s.spawn(move || ops.iter().map(|op| lin::timed(t, *op)).collect::<Vec<_>>()))
            .collect();
        for h in hs {
            events.extend(h.join().unwrap());
        }
    });
    match lin::check(&w, &p.domain, p.initial, threads, &events) {
        Ok(k) => {
            println!("EV operations {}", events.len());
            println!("EV overlapping pairs with a set {}", k.overlaps);
            println!("SIG {:x}", k.signature);
        }
        Err(e) => println!("BAD {e}"),
    }
    // one setter for each
    std::thread::scope(|s| {
        let (mut a, mut b) = (Rng::new(r.u64()), Rng::new(r.u64()));
        s.spawn(move || {
            for _ in 0..6 {
                let m = lin::MODES[a.below(3) as usize];
                mode::set_coloring_mode(m);
                let (got, want) = (mode::get_coloring_mode(), if w.strip { Mode::Never } else { m });
                if got != want {
                    println!("BAD the only setter of the mode set {m:?} and read {got:?}");
                }
            }
        });
        s.spawn(move || {
            for _ in 0..6 {
                let d = lin::STREAMS[b.below(4) as usize];
                mode::set_default_stream(d);
                let got = mode::get_default_stream();
                if got != d {
                    println!("BAD the only setter of the default stream set {d:?} and read {got:?}");
                }
            }
        });
    });
    println!("EV sets read back {}", 12);
}
static TAG: u8 = 0;
