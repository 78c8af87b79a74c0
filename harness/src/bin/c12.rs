//! Mode and stream words parse exactly and case-insensitively.
use colorz::mode::{Mode, Stream};
use mon::{case, hash_of, Ctx};

const MODES: [(&str, Mode); 3] = [("detect", Mode::Detect), ("always", Mode::Always), ("never", Mode::Never)];
const STREAMS: [(&str, Stream); 4] = [
    ("stdout", Stream::Stdout),
    ("stderr", Stream::Stderr),
    ("always", Stream::AlwaysColor),
    ("never", Stream::NeverColor),
];

fn one(c: &mut Ctx, b: &[u8]) {
    let find = |w: &str| w.len() == b.len() && w.bytes().zip(b).all(|(x, y)| x == *y || x - 32 == *y);
    let m = MODES.iter().find(|x| find(x.0)).map(|x| x.1);
    let s = STREAMS.iter().find(|x| find(x.0)).map(|x| x.1);
    c.evals += 1;
    let (gm, gs) = (Mode::from_ascii_bytes(b), Stream::from_ascii_bytes(b));
    let show = || String::from_utf8_lossy(b).into_owned();
    if gm.ok() != m {
        c.violation(format!("Mode::from_ascii_bytes({b:?} = {:?}) gave {gm:?}, expected {m:?}", show()));
    }
    if gs.ok() != s {
        c.violation(format!("Stream::from_ascii_bytes({b:?} = {:?}) gave {gs:?}, expected {s:?}", show()));
    }
    if let Ok(t) = std::str::from_utf8(b) {
        let (tm, ts) = (t.parse::<Mode>(), t.parse::<Stream>());
        if tm.ok() != m {
            c.violation(format!("parsing {t:?} as a Mode gave {tm:?}, expected {m:?}"));
        }
        if ts.ok() != s {
            c.violation(format!("parsing {t:?} as a Stream gave {ts:?}, expected {s:?}"));
        }
    }
}

fn words() -> Vec<&'static str> {
    vec!["detect", "always", "never", "stdout", "stderr"]
}

/// what an error's message offers (in quotes) is what parses
fn judge_message(c: &mut Ctx, what: &str, text: String, accepts: fn(&str) -> bool) {
    let mut said: Vec<&str> = text.split('"').skip(1).step_by(2).collect();
    let mut want: Vec<&str> = words().into_iter().filter(|w| accepts(w)).collect();
    said.sort();
    want.sort();
    c.eval(None);
    c.enumerated += 1;
    c.expect(said == want && text.matches('"').count() == 2 * want.len(), || format!("the error of {what} says {text:?}, but the words are {want:?}"));
}

fn main() {
    mon::run(
        "C12",
        "byte strings parsed as Mode and Stream, as bytes and as text, against the word list: every character of Unicode \
         inserted anywhere in or replacing anything in a word, lengths off by powers of two, every case mix of every \
         word, every replacement of any one or two bytes, every insertion of one or two bytes, every deletion, every \
         word with up to three bytes before or after it, random bytes of lengths 0-16; distinct by construction or hash",
        |c| {
            c.guard("messages", |c| {
                judge_message(c, "Mode", "?".parse::<Mode>().unwrap_err().to_string(), |w| w.parse::<Mode>().is_ok());
                judge_message(c, "Mode", Mode::from_ascii_bytes(b"stdout").unwrap_err().to_string(), |w| w.parse::<Mode>().is_ok());
                judge_message(c, "Stream", "".parse::<Stream>().unwrap_err().to_string(), |w| w.parse::<Stream>().is_ok());
                judge_message(c, "Stream", Stream::from_ascii_bytes(b"detect").unwrap_err().to_string(), |w| w.parse::<Stream>().is_ok());
            });
            c.guard("case", |c| {
                for w in words() {
                    for mask in 0..1u32 << w.len() {
                        let v: Vec<u8> = w.bytes().enumerate().map(|(i, x)| if mask >> i & 1 != 0 { x - 32 } else { x }).collect();
                        case(|| format!("{v:?}"));
                        one(c, &v);
                        c.enumerated += 1;
                        c.sample(2, || format!("{:?} -> {:?}", String::from_utf8_lossy(&v), Mode::from_ascii_bytes(&v)));
                    }
                }
                one(c, b"");
                for w in words() {
                    for i in 0..w.len() {
                        one(c, &w.as_bytes()[..i]);
                        one(c, &w.as_bytes()[i..]);
                        for j in i..w.len() {
                            let mut v = w.as_bytes().to_vec();
                            v.remove(j);
                            if i < v.len() {
                                v.remove(i);
                            }
                            one(c, &v);
                        }
                    }
                    for o in words() {
                        one(c, format!("{w}{o}").as_bytes());
                        one(c, format!("{w} {o}").as_bytes());
                        // halves of two words
                        for i in 0..=w.len() {
                            for j in 0..=o.len() {
                                one(c, format!("{}{}", &w[..i], &o[j..]).as_bytes());
                            }
                        }
                    }
                }
                for x in ["", "true", "false", "on", "off", "auto", "yes", "no", "0", "1", "alwayscolor", "nevercolor", "default", "none", "color"] {
                    one(c, x.as_bytes());
                }
            });
            // replacements and insertions of up to two arbitrary bytes
            c.parallel("edits", 256, |x, c| {
                let x = x as u8;
                for w in words() {
                    for upper in [false, true] {
                        let b = if upper { w.to_uppercase().into_bytes() } else { w.as_bytes().to_vec() };
                        case(|| format!("edit of {w} with {x}"));
                        for i in 0..b.len() {
                            let mut v = b.clone();
                            v[i] = x;
                            for j in i..b.len() {
                                for y in 0..=255u8 {
                                    let mut u = v.clone();
                                    u[j] = y;
                                    one(c, &u);
                                }
                            }
                        }
                        for i in 0..=b.len() {
                            let mut v = b.clone();
                            v.insert(i, x);
                            one(c, &v);
                            for y in 0..=255u8 {
                                for j in i..=v.len() {
                                    let mut u = v.clone();
                                    u.insert(j, y);
                                    one(c, &u);
                                }
                                // one inserted, one replaced; one removed, one replaced
                                for j in 0..v.len() {
                                    let mut u = v.clone();
                                    u[j] = y;
                                    one(c, &u);
                                }
                            }
                        }
                        for i in 0..b.len() {
                            let mut v = b.clone();
                            v.remove(i);
                            for j in 0..v.len() {
                                let mut u = v.clone();
                                u[j] = x;
                                one(c, &u);
                            }
                        }
                        // padding on either side, up to 3
                        for n in 1..=3 {
                            let pad = vec![x; n];
                            one(c, &[b.clone(), pad.clone()].concat());
                            one(c, &[pad, b.clone()].concat());
                        }
                        // two-replacement combinations counted once per (i <= j) pair and value
                        let l = b.len() as u64;
                        c.enumerated += l * (l - 1) / 2 * 256;
                    }
                }
            });
            // every character of Unicode inserted or put in place of another, anywhere
            c.parallel("characters", 64, |p, c| {
                let mut s = String::new();
                for x in (0..0x11_0000u32).filter(|x| *x as u64 % 64 == p) {
                    let Some(x) = char::from_u32(x) else { continue };
                    case(|| format!("around {x:?}"));
                    for w in words() {
                        for i in 0..=w.len() {
                            for cut in [0, 1] {
                                if i + cut > w.len() {
                                    continue;
                                }
                                s.clear();
                                s.push_str(&w[..i]);
                                s.push(x);
                                s.push_str(&w[i + cut..]);
                                one(c, s.as_bytes());
                                c.enumerated += 1;
                            }
                        }
                    }
                    if c.full() {
                        return;
                    }
                }
            });
            // lengths that differ from a valid one by multiples of 2^8 and 2^16
            c.guard("long texts", |c| {
                for w in words().into_iter().flat_map(|w| [w.to_string(), w.to_uppercase()]) {
                    for total in [8, 16, 24, 32, 64, 128, 256, 512, 1024, 4096, 65536, 131072] {
                        for fill in [0u8, b' ', b'a', b'\n', w.as_bytes()[0], w.as_bytes()[w.len() - 1], 0xff, 0x20 ^ w.as_bytes()[0]] {
                            for off in [0, w.len(), 2 * w.len()] {
                                let pad = vec![fill; total + off - w.len()];
                                case(|| format!("{w} in {} bytes of {fill}", total + off));
                                one(c, &[w.as_bytes(), &pad[..]].concat());
                                one(c, &[&pad[..], w.as_bytes()].concat());
                                one(c, &[&pad[..pad.len() / 2], w.as_bytes()].concat().repeat(1 + pad.len() % 2));
                                c.enumerated += 3;
                            }
                        }
                    }
                    for k in [2, 3, 4, 8, 16, 256, 257] {
                        one(c, &w.as_bytes().repeat(k));
                    }
                }
            });
            let n = c.n(200_000, 10_000_000);
            c.parallel("random", 8, |p, c| {
                let mut r = c.rng(3).fork(p);
                for _ in 0..n {
                    let mut v: Vec<u8> = if r.chance(1, 2) {
                        r.pick(&words()).bytes().collect()
                    } else {
                        let l = r.below(17);
                        (0..l).map(|_| r.u8()).collect()
                    };
                    for _ in 0..r.below(4) {
                        if v.is_empty() {
                            break;
                        }
                        let i = r.idx(v.len());
                        v[i] = match r.below(4) {
                            0 => v[i] ^ 0x20,
                            1 => v[i] ^ (1 << r.below(8)),
                            2 => *r.pick(b"\0 \x20@`\x80\xe1"),
                            _ => r.u8(),
                        };
                    }
                    case(|| format!("{v:?}"));
                    one(c, &v);
                    c.mark(hash_of(&v));
                    c.sample(2, || format!("{:?} -> {:?}", String::from_utf8_lossy(&v), Stream::from_ascii_bytes(&v)));
                }
            });
        },
    )
}
