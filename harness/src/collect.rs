//! Arrays and iterators of effects of every length.
use crate::spec::*;
use crate::Rng;
use colorz::Effect;

pub trait Arrays {
    fn array<const N: usize>(&mut self, es: [Effect; N], bits: u16);
}
fn fill<const N: usize>(r: &mut Rng, v: &mut impl Arrays) {
    // one common effect with others at single places: first, last, anywhere
    for place in 0..4 {
        let (a, b) = (*r.pick(&EFFECTS), *r.pick(&EFFECTS));
        let mut es = [a; N];
        if N > 0 {
            let at = match place {
                0 => 0,
                1 => N - 1,
                _ => r.idx(N),
            };
            es[at] = b;
        }
        v.array(es, es.iter().fold(0, |m, e| m | effect_bit(*e)));
    }
    let mut es = [Effect::Bold; N];
    es.iter_mut().for_each(|e| *e = *r.pick(&EFFECTS));
    v.array(es, es.iter().fold(0, |m, e| m | effect_bit(*e)));
}
/// arrays of many lengths, small and around powers of two
pub fn arrays(r: &mut Rng, v: &mut impl Arrays) {
    macro_rules! all { ($($n:literal)*) => { $( fill::<$n>(r, v); )* } }
    all! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 24 25 26 27 31 32 33 48 63 64 65 99 100 101 127 128 129 200 254 255 256 257 258 300 511 512 513 1000 1023 1024 1025 4095 4096 4097 65535 65536 65537 }
}

/// Effects from an iterator that says as little (or as wrong a thing) about its length as allowed.
pub struct Told<I>(pub I, pub (usize, Option<usize>));
impl<I: Iterator> Iterator for Told<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
/// Yields again after its end, which nobody may ask it to.
pub struct Unfused<'a>(pub &'a [Effect], pub usize);
impl Iterator for Unfused<'_> {
    type Item = Effect;
    fn next(&mut self) -> Option<Effect> {
        self.1 += 1;
        match self.1 - 1 {
            i if i < self.0.len() => Some(self.0[i]),
            i if i == self.0.len() => None,
            i => Some(EFFECTS[i % 13]),
        }
    }
}
/// a sequence of effects and the set it makes
pub fn sequence(r: &mut Rng) -> (Vec<Effect>, u16) {
    let n = match r.below(8) {
        0..=4 => r.idx(40),
        5 => r.idx(300),
        6 => (1usize << r.below(17)) + r.idx(3),
        _ => r.idx(5000),
    };
    let mut v: Vec<Effect> = match r.below(3) {
        0 => (0..n).map(|_| *r.pick(&EFFECTS)).collect(),
        _ => vec![*r.pick(&EFFECTS); n],
    };
    if n > 0 {
        for _ in 0..r.below(3) {
            let at = match r.below(3) {
                0 => n - 1,
                1 => 0,
                _ => r.idx(n),
            };
            v[at] = *r.pick(&EFFECTS);
        }
    }
    let m = v.iter().fold(0, |m, e| m | effect_bit(*e));
    (v, m)
}
/// Run `$go` on every kind of iterator over `$v` there is, with a name.
#[macro_export]
macro_rules! each_iterator {
    ($v:expr, $go:ident) => {{
        let v: &Vec<colorz::Effect> = $v;
        let n = v.len();
        $go!("a slice", v);
        $go!("a slice's iterator", v.iter());
        $go!("an owned vector", v.clone());
        $go!("copies", v.iter().copied());
        $go!("mutable references", v.clone().iter_mut());
        $go!("a reversed iterator", v.iter().rev());
        $go!("a chain", v[..n / 2].iter().chain(&v[n / 2..]));
        $go!("a filter", v.iter().filter(|_| true));
        $go!("a flat map", v.iter().flat_map(|e| [*e, *e]));
        $go!("an iterator that counts on nothing", $crate::collect::Told(v.iter(), (0, None)));
        $go!("an iterator with a low bound only", $crate::collect::Told(v.iter(), (n / 2, None)));
        $go!("an iterator with loose bounds", $crate::collect::Told(v.iter(), (0, Some(usize::MAX))));
        $go!("an iterator that goes on after its end", $crate::collect::Unfused(v, 0));
        $go!("a linked list", v.iter().copied().collect::<std::collections::LinkedList<_>>());
        $go!("a ring buffer", { let mut d: std::collections::VecDeque<_> = v.iter().copied().collect(); d.rotate_left(n / 3); d });
        $go!("a boxed iterator", Box::new(v.iter()) as Box<dyn Iterator<Item = &colorz::Effect>>);
        $go!("a hash set", v.iter().copied().collect::<std::collections::HashSet<_>>());
        $go!("a peeked iterator", { let mut p = v.iter().peekable(); p.peek(); p });
        $go!("a channel", { let (s, r) = std::sync::mpsc::channel(); v.iter().for_each(|e| s.send(*e).unwrap()); drop(s); r });
    }};
}
