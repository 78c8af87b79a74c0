//! Values compare, hash, copy and print by what they are made of.
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Colorize, EffectFlags, NoColor, Style};
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Records what is hashed, byte by byte.
#[derive(Default, PartialEq)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape(x: &impl Hash) -> Tape {
    let mut t = Tape::default();
    x.hash(&mut t);
    t
}

fn eq<T: PartialEq + Debug>(c: &mut Ctx, a: &T, b: &T, want: bool) {
    c.evals += 1;
    if (a == b) != want || (b == a) != want || (a != b) == want {
        c.violation(format!("{a:?} and {b:?} are made of {} parts, but == is {} and {}, != is {}", if want { "the same" } else { "different" }, a == b, b == a, a != b));
    }
}
/// equality, hash and copies
fn pair<T: Eq + Hash + Clone + Debug>(c: &mut Ctx, a: &T, b: &T, want: bool) {
    eq(c, a, b, want);
    if want {
        c.expect(tape(a) == tape(b) && hash_of(a) == hash_of(b), || format!("{a:?} and {b:?} are equal but hash differently"));
    }
    let k = a.clone();
    let mut m = b.clone();
    c.expect(k == *a && tape(&k) == tape(a), || format!("the clone of {a:?} is {k:?}"));
    m.clone_from(a);
    c.expect(m == *a && tape(&m) == tape(a), || format!("cloning {a:?} into {b:?} gives {m:?}"));
}
fn debug<T: Debug>(c: &mut Ctx, a: &T, b: &T, want: bool) {
    c.expect((format!("{a:?}") == format!("{b:?}")) == want, || format!("debug output of two {} values: {a:?} and {b:?}", if want { "equal" } else { "different" }));
    c.expect((format!("{a:#?}") == format!("{b:#?}")) == want, || format!("pretty debug output of two {} values: {a:#?} and {b:#?}", if want { "equal" } else { "different" }));
}
fn both<T: Eq + Hash + Clone + Debug>(c: &mut Ctx, a: &T, b: &T, want: bool) {
    case(|| format!("comparing {a:?} and {b:?}"));
    pair(c, a, b, want);
    debug(c, a, b, want);
    c.mark(hash_of(&(a, b)));
}

/// what a color is made of
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Part {
    Nothing,
    Ansi(u8),
    Xterm(u8),
    Css(u8),
    Rgb(u8, u8, u8),
}
fn color(p: Part) -> Option<Color> {
    Some(match p {
        Part::Nothing => return None,
        Part::Ansi(16) => ansi::AnsiColor::Default.into(),
        Part::Ansi(i) => ANSI[i as usize].0.into(),
        Part::Xterm(i) => XTERM[i as usize].0.into(),
        Part::Css(i) => CSS[i as usize].0.into(),
        Part::Rgb(red, green, blue) => Color::Rgb(rgb::RgbColor { red, green, blue }),
    })
}
/// two CSS names of one RGB value: whether they are equal is not specified
fn aliases(a: Part, b: Part) -> bool {
    matches!((a, b), (Part::Css(i), Part::Css(j)) if i != j && CSS[i as usize].1 == CSS[j as usize].1)
}
fn random_part(r: &mut mon::Rng) -> Part {
    match r.below(6) {
        0 => Part::Nothing,
        1 => Part::Ansi(r.below(17) as u8),
        2 => Part::Xterm(gen::byte(r)),
        3 => Part::Css(r.below(147) as u8),
        _ => Part::Rgb(gen::byte(r), gen::byte(r), gen::byte(r)),
    }
}
/// a part that differs from `p` as little as possible
fn near(r: &mut mon::Rng, p: Part) -> Part {
    let bit = |r: &mut mon::Rng, x: u8| x ^ (1 << r.below(8));
    match p {
        _ if r.chance(1, 8) => random_part(r),
        Part::Nothing => [Part::Ansi(16), Part::Ansi(0), Part::Xterm(0), Part::Css(0), Part::Rgb(0, 0, 0)][r.idx(5)],
        Part::Ansi(i) => match r.below(3) {
            0 => Part::Ansi(if i == 16 { 0 } else { i ^ (1 << r.below(4)) }),
            1 => Part::Nothing,
            _ => Part::Xterm(i),
        },
        Part::Xterm(i) => match r.below(3) {
            0 if i < 16 => Part::Ansi(i),
            1 if i < 147 => Part::Css(i),
            _ => Part::Xterm(bit(r, i)),
        },
        Part::Css(i) => match r.below(3) {
            0 => {
                let (r, g, b) = CSS[i as usize].1;
                Part::Rgb(r, g, b)
            }
            1 => Part::Xterm(i),
            _ => Part::Css((i + 1) % 147),
        },
        Part::Rgb(x, y, z) => match r.below(7) {
            0 => Part::Rgb(bit(r, x), y, z),
            1 => Part::Rgb(x, bit(r, y), z),
            2 => Part::Rgb(x, y, bit(r, z)),
            3 => Part::Rgb(y, x, z),
            4 => Part::Rgb(x, z, y),
            5 => Part::Rgb(z, y, x),
            _ => CSS.iter().position(|k| k.1 == (x, y, z)).map_or(Part::Rgb(x.wrapping_add(1), y.wrapping_sub(1), z), |i| Part::Css(i as u8)),
        },
    }
}
type Key = (Part, Part, Part, u16);
fn style(k: Key) -> Style {
    Style::new().fg(color(k.0)).bg(color(k.1)).underline_color(color(k.2)).effect_flags(flags(k.3))
}
/// the same style, put together another way
fn other_way(r: &mut mon::Rng, k: Key) -> Style {
    let mut s = style((random_part(r), random_part(r), random_part(r), gen::effects(r)));
    let order = r.below(6);
    for i in 0..4 {
        match (i + order) % 4 {
            0 => s = s.bg(color(k.1)),
            1 => s.underline_color = color(k.2),
            2 => {
                s = s.clear_effects();
                for (i, e) in EFFECTS.iter().enumerate().rev() {
                    if k.3 >> i & 1 != 0 {
                        s = if r.chance(1, 2) { s.with(*e) } else { s.toggled(*e) };
                    } else if r.chance(1, 3) {
                        s = s.with(*e).without(*e);
                    }
                }
            }
            _ => s = s.fg(color(k.0)),
        }
    }
    s
}

fn main() {
    mon::run(
        "C24",
        "pairs of colors, styles, effects, effect sets and settings made of the same or of minimally different parts (every pair of named colors, every single-bit and swapped RGB \
         difference, every pair of nearly equal effect sets, styles that differ in one part or are put together differently); ==, !=, Hash, Clone, debug output and use as a map key \
         against a record of the parts. Distinct: the pair differs",
        |c| {
            c.guard("named colors", |c| {
                let ansi: Vec<_> = ANSI.iter().map(|x| x.0).chain([ansi::AnsiColor::Default]).collect();
                for (i, a) in ansi.iter().enumerate() {
                    for (j, b) in ansi.iter().enumerate() {
                        both(c, a, b, i == j);
                        both(c, &Color::from(*a), &Color::from(*b), i == j);
                    }
                    for (j, (x, _)) in XTERM.iter().enumerate() {
                        both(c, &Color::from(*a), &Color::from(*x), false);
                        if i == 0 {
                            for (k, (y, _)) in XTERM.iter().enumerate() {
                                both(c, x, y, j == k);
                                pair(c, &Color::from(*x), &Color::from(*y), j == k);
                            }
                        }
                    }
                    for (x, ..) in CSS {
                        both(c, &Color::from(*a), &Color::from(x), false);
                    }
                }
                for (i, (a, ra, _)) in CSS.iter().enumerate() {
                    for (j, (b, rb, _)) in CSS.iter().enumerate() {
                        if i == j || ra != rb {
                            both(c, a, b, i == j);
                            both(c, &Some(Color::from(*a)), &Some(Color::from(*b)), i == j);
                        }
                    }
                    for (x, _) in XTERM {
                        pair(c, &Color::from(*a), &Color::from(x), false);
                    }
                    let k = Color::Rgb(rgb::RgbColor { red: ra.0, green: ra.1, blue: ra.2 });
                    both(c, &Color::from(*a), &k, false);
                }
                c.count("pairs of named colors", 17 * 17 + 256 * 256 + 147 * 147);
            });
            c.guard("settings", |c| {
                const M: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
                for (i, a) in M.iter().enumerate() {
                    for (j, b) in M.iter().enumerate() {
                        eq(c, a, b, i == j);
                        debug(c, a, b, i == j);
                        eq(c, &a.clone(), a, true);
                    }
                }
                const S: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
                const K: [ColorKind; 4] = [ColorKind::NoColor, ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb];
                for i in 0..4 {
                    for j in 0..4 {
                        both(c, &S[i], &S[j], i == j);
                        both(c, &K[i], &K[j], i == j);
                        both(c, &(i > 0).then_some(S[i]), &(j > 0).then_some(S[j]), i == j);
                    }
                }
                for (i, a) in EFFECTS.iter().enumerate() {
                    for (j, b) in EFFECTS.iter().enumerate() {
                        both(c, a, b, i == j);
                    }
                }
                let errs = ["", "#zz", "256"].map(|s| s.parse::<Color>().unwrap_err());
                for i in 0..3 {
                    for j in 0..3 {
                        eq(c, &errs[i], &errs[j], i == j);
                        debug(c, &errs[i], &errs[j], i == j);
                    }
                }
                let (m, s) = ("x".parse::<Mode>().unwrap_err(), "x".parse::<Stream>().unwrap_err());
                eq(c, &m, &m.clone(), true);
                eq(c, &s, &s.clone(), true);
                eq(c, &NoColor, &NoColor.clone(), true);
                both(c, &ansi::Red, &ansi::Red, true);
                both(c, &xterm::Red, &xterm::Red, true);
                both(c, &css::Red, &css::Red, true);
                both(c, &rgb::Rgb::<1, 2, 3>, &rgb::Rgb::<1, 2, 3>, true);
            });
            c.parallel("effect sets", 8, |p, c| {
                let mut r = c.rng(p);
                for a in (0..8192u16).filter(|a| *a as u64 % 8 == p) {
                    let f = flags(a);
                    for i in 0..13 {
                        pair(c, &f, &flags(a ^ (1 << i)), false);
                        c.mark(hash_of(&(a, i)));
                    }
                    for _ in 0..20 {
                        let b = if r.chance(1, 2) { gen::effects(&mut r) } else { a ^ (1 << r.below(13)) ^ (1 << r.below(13)) };
                        pair(c, &f, &flags(b), a == b);
                    }
                    let g: EffectFlags = EFFECTS.iter().rev().filter(|e| a & effect_bit(**e) != 0).copied().collect();
                    both(c, &f, &g, true);
                    debug(c, &f, &flags(a ^ (1 << r.below(13))), false);
                }
            });
            c.parallel("RGB colors", 8, |p, c| {
                let mut r = c.rng(20 + p);
                for _ in 0..c.n(1_500, 40_000) {
                    let k = [gen::byte(&mut r), gen::byte(&mut r), gen::byte(&mut r)];
                    let of = |k: [u8; 3]| rgb::RgbColor { red: k[0], green: k[1], blue: k[2] };
                    let a = of(k);
                    for at in 0..3 {
                        for v in 0..=255 {
                            let mut l = k;
                            l[at] = v;
                            pair(c, &a, &of(l), l == k);
                            pair(c, &Color::Rgb(a), &Color::Rgb(of(l)), l == k);
                        }
                        let mut l = k;
                        l.swap(at, (at + 1) % 3);
                        both(c, &a, &of(l), l == k);
                        c.mark(hash_of(&(k, l)));
                    }
                    let l = std::array::from_fn(|i| if r.chance(1, 2) { k[i] } else { gen::byte(&mut r) });
                    both(c, &a, &of(l), l == k);
                }
            });
            c.parallel("styles", 8, |p, c| {
                let mut r = c.rng(40 + p);
                let mut map: HashMap<Style, Key> = HashMap::new();
                let mut cols: HashMap<Option<Color>, Part> = HashMap::new();
                for _ in 0..c.n(40_000, 2_000_000) {
                    let k: Key = (random_part(&mut r), random_part(&mut r), random_part(&mut r), gen::effects(&mut r));
                    let mut l = k;
                    match r.below(9) {
                        0 => l.0 = near(&mut r, k.0),
                        1 => l.1 = near(&mut r, k.1),
                        2 => l.2 = near(&mut r, k.2),
                        3 => l.3 = k.3 ^ (1 << r.below(13)),
                        4 => (l.0, l.1) = (k.1, k.0),
                        5 => (l.0, l.2) = (k.2, k.0),
                        6 => (l.1, l.2) = (k.2, k.1),
                        7 => (l.0, l.1, l.2) = (k.1, k.2, k.0),
                        _ => (l.0, l.3) = (near(&mut r, k.0), k.3 ^ (1 << r.below(13))),
                    }
                    let (a, b) = (style(k), style(l));
                    case(|| format!("comparing {a:?} and {b:?}"));
                    if ![(k.0, l.0), (k.1, l.1), (k.2, l.2)].iter().any(|(x, y)| aliases(*x, *y)) {
                        both(c, &a, &b, k == l);
                    }
                    let o = other_way(&mut r, k);
                    both(c, &a, &o, true);
                    // the same parts in styles of narrower types
                    if let (Part::Rgb(..), Part::Rgb(..)) = (k.0, l.0) {
                        let (Some(Color::Rgb(x)), Some(Color::Rgb(y))) = (color(k.0), color(l.0)) else { continue };
                        let s = |x| Style::new().fg(x).bg(None::<Color>).underline_color(xterm::Lime).effect_flags(flags(k.3));
                        both(c, &s(x), &s(y), k.0 == l.0);
                        let s = |x| Style::new().fg(css::Red).bg(Some(x)).underline_color(rgb::Rgb::<0, 1, 2>).effect_flags(flags(k.3));
                        both(c, &s(x), &s(y), k.0 == l.0);
                        // without Hash
                        let s = |x| Style::new().underline_color(x).effect_flags(flags(k.3));
                        eq(c, &s(x), &s(y), k.0 == l.0);
                        debug(c, &s(x), &s(y), k.0 == l.0);
                    }
                    if map.len() < 60_000 {
                        if let Some(was) = map.insert(a, k) {
                            c.expect(was == k || [(was.0, k.0), (was.1, k.1), (was.2, k.2)].iter().any(|(x, y)| aliases(*x, *y)), || {
                                format!("as map keys, {:?} and {a:?} are the same", style(was))
                            });
                        }
                        cols.insert(color(k.0), k.0);
                    }
                    let got = map.get(&o).copied();
                    c.expect(got.is_none() && map.len() >= 60_000 || got == Some(k), || format!("{a:?} was put in a map and looked up as {o:?}: {got:?}"));
                    let got = cols.get(&color(k.0)).copied();
                    c.expect(got.is_none() && map.len() >= 60_000 || got.is_some_and(|g| g == k.0 || aliases(g, k.0)), || format!("{:?} was put in a map: {got:?}", k.0));
                    // a clone of a styled value is written alike
                    let v = String::from("a\u{e9}").into_style_with(a).stream(Stream::AlwaysColor);
                    let w = v.clone();
                    let (x, y) = (v.to_string(), format!("{w:?}"));
                    c.expect(w.to_string() == x && format!("{v:?}") == y && w.style == a && w.stream == v.stream, || format!("the clone of {v:?} is {w:?}"));
                }
                c.count("styles used as map keys", map.len() as u64);
                c.count("colors used as map keys", cols.len() as u64);
            });
            let (a, b) = (style((Part::Ansi(1), Part::Nothing, Part::Nothing, 0)), style((Part::Xterm(1), Part::Nothing, Part::Nothing, 0)));
            c.sample(1, || format!("{a:?} == {b:?}: {}", a == b));
        },
    )
}
