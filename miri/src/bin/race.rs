//! C03 under Miri: threads race for the first detection of each stream; what is right is
//! measured before (with std alone) or follows from the environment (with supports-color).
use colorz::mode::{self, ColorKind, Stream};
use mirimon::Rng;
use std::io::IsTerminal;

fn truth(stdout: bool, kinds: &[ColorKind]) -> bool {
    #[cfg(feature = "f-sc")]
    {
        let l = supports_color::on(if stdout { supports_color::Stream::Stdout } else { supports_color::Stream::Stderr });
        l.is_some_and(|l| {
            kinds.iter().all(|k| match k {
                ColorKind::Ansi => l.has_basic,
                ColorKind::Xterm => l.has_256,
                ColorKind::Rgb => l.has_16m,
                _ => true,
            })
        })
    }
    #[cfg(not(feature = "f-sc"))]
    {
        let _ = kinds;
        if stdout {
            std::io::stdout().is_terminal()
        } else {
            std::io::stderr().is_terminal()
        }
    }
}

fn main() {
    let mut r = Rng::new(mirimon::arg(1) ^ &raw const TAG as u64);
    let kinds: [&[ColorKind]; 6] =
        [&[], &[ColorKind::Ansi], &[ColorKind::Xterm], &[ColorKind::Rgb], &[ColorKind::NoColor], &[ColorKind::Ansi, ColorKind::Xterm]];
    let right: [[bool; 6]; 2] = [true, false].map(|o| kinds.map(|k| truth(o, k)));
    let plans: Vec<Vec<(usize, usize)>> = (0..3 + r.below(2))
        .map(|_| (0..4).map(|_| (r.below(2) as usize, r.below(6) as usize)).collect())
        .collect();
    // relaxed, so that counting orders nothing
    let clock = std::sync::atomic::AtomicU64::new(0);
    let order: Vec<_> = (0..16).map(|_| std::sync::atomic::AtomicU64::new(0)).collect();
    let n = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for (t, p) in plans.iter().enumerate() {
            let (n, clock, order) = (&n, &clock, &order);
            let (right, kinds) = (&right, &kinds);
            s.spawn(move || {
                for (i, (st, k)) in p.iter().enumerate() {
                    let got = mode::should_color(Some([Stream::Stdout, Stream::Stderr][*st]), kinds[*k]);
                    if got != right[*st][*k] {
                        println!(
                            "BAD thread {t} decision {i}: {} {:?} answered {got}, expected {}",
                            ["stdout", "stderr"][*st], kinds[*k], right[*st][*k]
                        );
                    }
                    order[t * 4 + i].store(clock.fetch_add(1, std::sync::atomic::Ordering::Relaxed), std::sync::atomic::Ordering::Relaxed);
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            });
        }
    });
    for st in 0..2 {
        for k in 0..6 {
            if mode::should_color(Some([Stream::Stdout, Stream::Stderr][st]), kinds[k]) != right[st][k] {
                println!("BAD later: {} {:?} is not {}", ["stdout", "stderr"][st], kinds[k], right[st][k]);
            }
        }
    }
    let sig = order.iter().zip(plans.iter().flatten()).fold(7u64, |h, (o, p)| {
        h.wrapping_mul(1099511628211).wrapping_add(o.load(std::sync::atomic::Ordering::Relaxed) * 12 + p.0 as u64 * 6 + p.1 as u64)
    });
    println!("SIG {sig:x}");
    println!("EV decisions {}", n.into_inner() + 12);
}
static TAG: u8 = 0;
