//! C22: every kind of public operation under Miri, from two threads.
#[path = "../../../freestanding/src/ops.rs"]
#[allow(dead_code)]
mod ops;
use colorz::mode::Stream;

fn main() {
    let st = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
    let base = mirimon::arg(1) ^ &raw const TAG as u64;
    let out: Vec<u64> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2u64)
            .map(|t| {
                s.spawn(move || {
                    let mut r = ops::Rand(base.wrapping_add(t << 40));
                    let mut h = 0u64;
                    let mut n = 0;
                    for _ in 0..mirimon::arg(2) {
                        let k = r.below(ops::OPS.len() as u64) as usize;
                        let (name, op) = ops::OPS[k];
                        let mut text = String::new();
                        if op(&mut r, &mut text, &st).is_err() {
                            println!("BAD {name} failed after {text:?}");
                        }
                        h = text.bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                        n += 1;
                    }
                    println!("EV operations {n}");
                    h
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    println!("SIG {:x}", out[0] ^ out[1].rotate_left(1));
}
static TAG: u8 = 0;
