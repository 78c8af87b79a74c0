//! Color strings parse by the documented grammar and nothing else.
use colorz::{rgb::RgbColor, Color, ParseColorError};
use mon::{case, hash_of, Ctx, Rng};

#[derive(Debug, PartialEq, Clone, Copy)]
enum Ref {
    Rgb(u8, u8, u8),
    Xterm(u8),
    Ansi(usize),
    Overflow,
    BadDigit,
    Unknown,
    /// any error
    SomeError,
    /// not specified
    Free,
}

const NAMES: [&str; 17] = [
    "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "bright black", "bright red",
    "bright green", "bright yellow", "bright blue", "bright magenta", "bright cyan", "bright white", "purple",
];

/// the documented grammar, written over characters
fn reference(s: &str) -> Ref {
    if s == "default" || s == "bright purple" {
        return Ref::Free;
    }
    if let Some(i) = NAMES.iter().position(|n| *n == s) {
        return Ref::Ansi(if i == 16 { 5 } else { i });
    }
    let ch: Vec<char> = s.chars().collect();
    if ch.first() == Some(&'#') {
        let digits = &ch[1..];
        if !s.is_ascii() {
            return Ref::SomeError;
        }
        if !matches!(digits.len(), 1 | 2 | 6) {
            return Ref::Unknown;
        }
        let mut v: u64 = 0;
        for d in digits {
            match d.to_digit(16) {
                Some(x) => v = v * 16 + x as u64,
                None => return Ref::BadDigit,
            }
        }
        return if digits.len() == 6 {
            Ref::Rgb((v >> 16) as u8, (v >> 8) as u8, v as u8)
        } else {
            Ref::Xterm(v as u8)
        };
    }
    if (1..=3).contains(&ch.len()) && ch.iter().all(|c| c.is_ascii_digit()) {
        let n: u32 = s.parse().unwrap();
        return u8::try_from(n).map_or(Ref::Overflow, Ref::Xterm);
    }
    Ref::Unknown
}

fn agrees(want: Ref, got: &Result<Color, ParseColorError>) -> bool {
    match (want, got) {
        (Ref::Free, _) => true,
        (Ref::Rgb(r, g, b), Ok(Color::Rgb(c))) => *c == RgbColor { red: r, green: g, blue: b },
        (Ref::Xterm(n), Ok(Color::Xterm(x))) => *x == mon::spec::XTERM[n as usize].0,
        (Ref::Ansi(i), Ok(Color::Ansi(a))) => *a == mon::spec::ANSI[i].0,
        (Ref::Overflow, Err(ParseColorError::U8Overflow)) => true,
        (Ref::BadDigit, Err(ParseColorError::InvalidHexDigit)) => true,
        (Ref::Unknown, Err(ParseColorError::UnknownColor)) => true,
        (Ref::SomeError, Err(_)) => true,
        _ => false,
    }
}

fn one(c: &mut Ctx, s: &str) {
    let got = s.parse::<Color>();
    let want = reference(s);
    c.evals += 1;
    if !agrees(want, &got) {
        c.violation(format!("parsing {s:?} gave {got:?}, expected {want:?}"));
    }
}

const HEX: &[u8; 22] = b"0123456789abcdefABCDEF";

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut ch: Vec<char> = s.chars().collect();
    let rc = |r: &mut Rng| match r.below(6) {
        0 => *r.pick(&['é', '０', '１', '\u{7f}', '\0', '\u{2003}', '\u{10ffff}', '#', 'ſ', 'K']),
        1 => (b'0' + r.below(10) as u8) as char,
        2 => *r.pick(HEX) as char,
        _ => (r.below(128) as u8) as char,
    };
    for _ in 0..1 + r.below(2) {
        match r.below(7) {
            0 if !ch.is_empty() => {
                let i = r.idx(ch.len());
                ch.remove(i);
            }
            1 => {
                let i = r.idx(ch.len() + 1);
                ch.insert(i, rc(r));
            }
            2 if !ch.is_empty() => {
                let i = r.idx(ch.len());
                ch[i] = rc(r);
            }
            3 if !ch.is_empty() => {
                let i = r.idx(ch.len());
                ch[i] = if ch[i].is_lowercase() { ch[i].to_ascii_uppercase() } else { ch[i].to_ascii_lowercase() };
            }
            4 if ch.len() > 1 => {
                let i = r.idx(ch.len() - 1);
                ch.swap(i, i + 1);
            }
            5 => ch.insert(0, rc(r)),
            _ => ch.push(rc(r)),
        }
    }
    ch.into_iter().collect()
}

fn main() {
    mon::run(
        "C11",
        "strings parsed and compared with a reference parser of the documented grammar: every ASCII string of up to 3 \
         characters, # with every pair of ASCII characters, every #rrggbb in lower case, every #rrggbb with one other \
         ASCII character, every single edit of every name, every character of Unicode before, after and in place of the ends \
         of names, numbers and hex forms (everywhere in them in the thorough tier), lengths off by powers of two, random strings and edits; distinct by construction or by hash",
        |c| {
            // names and every single edit of them
            c.parallel("names", NAMES.len() as u64, |p, c| {
                let n = NAMES[p as usize];
                case(|| format!("near {n}"));
                one(c, n);
                c.sample(1, || format!("{n:?} -> {:?}", n.parse::<Color>()));
                c.enumerated += 1;
                let b = n.as_bytes();
                for i in 0..=b.len() {
                    for x in 0..128u8 {
                        let mut v = b.to_vec();
                        v.insert(i, x);
                        one(c, std::str::from_utf8(&v).unwrap());
                        if i < b.len() {
                            v = b.to_vec();
                            v[i] = x;
                            one(c, std::str::from_utf8(&v).unwrap());
                        }
                    }
                    if i < b.len() {
                        let mut v = b.to_vec();
                        v.remove(i);
                        one(c, std::str::from_utf8(&v).unwrap());
                        one(c, &n[i..]);
                        one(c, &n[..i]);
                    }
                }
                c.enumerated += b.len() as u64 * 255 + 128;
                for m in NAMES {
                    for sep in ["", " ", "-", "_", "\0", "\n"] {
                        let s = format!("{n}{sep}{m}");
                        one(c, &s);
                        c.enumerated += 1;
                    }
                }
                for pre in ["bright ", "bright", "bright-", "bright_", "Bright ", " ", "light ", "on ", "dark "] {
                    one(c, &format!("{pre}{n}"));
                    one(c, &format!("{n} {pre}"));
                }
                one(c, &n.to_uppercase());
                one(c, &(n[..1].to_uppercase() + &n[1..]));
            });
            c.parallel("short ascii", 128, |a, c| {
                let mut buf = vec![a as u8];
                case(|| format!("starting with {a}"));
                if a == 0 {
                    one(c, "");
                }
                one(c, std::str::from_utf8(&buf).unwrap());
                buf.push(0);
                for b in 0..128u8 {
                    buf[1] = b;
                    one(c, std::str::from_utf8(&buf).unwrap());
                    buf.push(0);
                    for d in 0..128u8 {
                        buf[2] = d;
                        one(c, std::str::from_utf8(&buf).unwrap());
                    }
                    buf.pop();
                }
                c.enumerated += 1 + 128 + 128 * 128;
            });
            c.parallel("rgb", 256, |red, c| {
                let mut buf = *b"#000000";
                const L: &[u8; 16] = b"0123456789abcdef";
                case(|| format!("#{red:02x}...."));
                buf[1] = L[red as usize >> 4];
                buf[2] = L[red as usize & 15];
                for g in 0..256usize {
                    buf[3] = L[g >> 4];
                    buf[4] = L[g & 15];
                    for b in 0..256usize {
                        buf[5] = L[b >> 4];
                        buf[6] = L[b & 15];
                        let s = std::str::from_utf8(&buf).unwrap();
                        let got = s.parse::<Color>();
                        c.evals += 1;
                        let ok = matches!(got, Ok(Color::Rgb(RgbColor { red: x, green: y, blue: z })) if (x as u64, y as usize, z as usize) == (red, g, b));
                        if !ok {
                            c.violation(format!("parsing {s:?} gave {got:?}"));
                            return;
                        }
                    }
                }
                c.enumerated += 65536;
            });
            // one character replaced anywhere in a hex color, by any ASCII character
            c.guard("hex edits", |c| {
                let mut r = c.rng(7);
                for _ in 0..c.n(60, 2000) {
                    for len in [1, 2, 6] {
                        let mut v = vec![b'#'];
                        v.extend((0..len).map(|_| *r.pick(HEX)));
                        let base = String::from_utf8(v.clone()).unwrap();
                        case(|| base.clone());
                        one(c, &base);
                        for i in 0..v.len() {
                            for x in 0..128u8 {
                                let mut w = v.clone();
                                w[i] = x;
                                one(c, std::str::from_utf8(&w).unwrap());
                                c.mark(hash_of(&w));
                            }
                        }
                    }
                }
            });
            // digit strings of every length up to 4, and longer ones
            c.guard("digits", |c| {
                for n in 0..20000u32 {
                    for s in [n.to_string(), format!("{n:02}"), format!("{n:03}"), format!("{n:04}"), format!("+{n}"), format!("-{n}"), format!(" {n}"), format!("{n} "), format!("#{n}"), format!("0x{n:x}")] {
                        one(c, &s);
                    }
                    c.enumerated += 10;
                }
                c.sample(3, || format!("\"255\" -> {:?}, \"256\" -> {:?}", "255".parse::<Color>(), "256".parse::<Color>()));
            });
            // every character of Unicode before, after and inside words, numbers and hex forms
            let deep = c.n(0, 1) != 0;
            c.parallel("characters", 64, |p, c| {
                let mut s = String::new();
                for x in (0..0x11_0000u32).filter(|x| *x as u64 % 64 == p) {
                    let Some(x) = char::from_u32(x) else { continue };
                    case(|| format!("around {x:?}"));
                    let mut put = |c: &mut Ctx, a: &str, b: &str| {
                        s.clear();
                        s.push_str(a);
                        s.push(x);
                        s.push_str(b);
                        one(c, &s);
                        c.enumerated += 1;
                    };
                    for w in NAMES.iter().copied().chain(["#1", "#ff", "#00Ff10", "7", "25", "255", "#", "", "256"]) {
                        put(c, w, "");
                        put(c, "", w);
                        if !w.is_empty() {
                            put(c, &w[..w.len() - 1], "");
                            put(c, "", &w[1..]);
                        }
                        if deep {
                            for i in 1..w.len() {
                                put(c, &w[..i], &w[i..]);
                                put(c, &w[..i], &w[i + 1..]);
                            }
                        }
                    }
                    // # forms of 1, 2 and 6 bytes or characters
                    for (a, b) in [("#", "1"), ("#a", ""), ("#", "12345"), ("#12", "345"), ("#1234", ""), ("#", "1234"), ("#123", ""), ("#", "123"), ("bright", "red"), ("bright ", "red")] {
                        put(c, a, b);
                    }
                    if c.full() {
                        return;
                    }
                }
            });
            // lengths that differ from a valid one by multiples of 2^8 and 2^16
            c.guard("long texts", |c| {
                let words: Vec<&str> = NAMES.iter().copied().chain(["#1", "#ff", "#00ff10", "7", "25", "255", "300"]).collect();
                for w in words {
                    for total in [16, 32, 64, 128, 256, 512, 1024, 4096, 65536, 131072] {
                        for fill in ["0", " ", "\0", "a", "d", "#", "\u{e9}"] {
                            for off in [0, w.len(), 2 * w.len()] {
                                let n: usize = total + off;
                                let pad = fill.repeat((n - w.len()) / fill.len());
                                for s in [format!("{w}{pad}"), format!("{pad}{w}"), format!("{}{w}", &pad[..pad.len() / 2 / fill.len() * fill.len()])] {
                                    case(|| format!("{w} in {} bytes of {fill:?}", s.len()));
                                    if s != w {
                                        one(c, &s);
                                    }
                                }
                            }
                        }
                    }
                    for k in [2, 3, 4, 8, 16, 256, 257] {
                        one(c, &w.repeat(k));
                    }
                    c.enumerated += 10 * 7 * 9;
                }
            });
            let n = c.n(60_000, 3_000_000);
            c.parallel("random", 8, |p, c| {
                let mut r = c.rng(300).fork(p);
                for _ in 0..n {
                    let s: String = match r.below(5) {
                        0 => {
                            let b = *r.pick(&NAMES);
                            mutate(&mut r, b)
                        }
                        1 => {
                            let b: String = format!("#{:06x}", r.below(1 << 24));
                            mutate(&mut r, &b)
                        }
                        2 => {
                            let l = r.below(9);
                            std::iter::once('#').chain((0..l).map(|_| *r.pick(HEX) as char)).collect()
                        }
                        3 => {
                            let l = r.below(12);
                            (0..l).map(|_| char::from_u32(if r.chance(1, 2) { r.below(0x250) as u32 } else { r.below(0x10000) as u32 }).unwrap_or('\u{fffd}')).collect()
                        }
                        _ => {
                            let l = if r.chance(1, 50) { r.below(5000) } else { r.below(20) };
                            (0..l).map(|_| *r.pick(b"0123456789abcdef#ABCDEF brightedl\0\n") as char).collect()
                        }
                    };
                    case(|| s.clone());
                    one(c, &s);
                    c.mark(hash_of(&s));
                    c.sample(2, || format!("{s:?} -> {:?}", s.parse::<Color>()));
                }
            });
        },
    )
}
