//! Effect flags behave as a set of effects.
use colorz::{Effect, EffectFlags, EffectFlagsIter};
use mon::spec::*;
use mon::{case, hash_of, Ctx, Rng};
use std::collections::HashSet;

fn names(bits: u16) -> Vec<String> {
    EFFECTS.iter().enumerate().filter(|(i, _)| bits >> i & 1 != 0).map(|(_, e)| format!("{e:?}")).collect()
}
fn debug_set(s: &str) -> Option<Vec<String>> {
    let inner = s.trim().strip_prefix('{')?.strip_suffix('}')?;
    Some(inner.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
}

/// Iterating yields each member once, then ends for good.
fn judge_iter(c: &mut Ctx, mut it: EffectFlagsIter, bits: u16, what: &str) {
    let mut seen = 0u16;
    let left = |seen: u16| (bits & !seen).count_ones() as usize;
    loop {
        let (lo, hi) = it.size_hint();
        let n = left(seen);
        if lo > n || hi.is_some_and(|h| h < n) {
            c.violation(format!("{what} {:?}: size hint ({lo}, {hi:?}) with {n} left", names(bits)));
            return;
        }
        match it.next() {
            Some(e) => {
                let b = effect_bit(e);
                if bits & b == 0 || seen & b != 0 {
                    c.violation(format!("{what} {:?} yielded {e:?} after {:?}", names(bits), names(seen)));
                    return;
                }
                seen |= b;
            }
            None => break,
        }
    }
    if seen != bits {
        c.violation(format!("{what} {:?} yielded only {:?}", names(bits), names(seen)));
    }
    for _ in 0..3 {
        if let Some(e) = it.next() {
            c.violation(format!("{what} {:?} yielded {e:?} after its end", names(bits)));
        }
    }
}

/// everything observable about `f` must be what the set `bits` says
fn judge(c: &mut Ctx, f: EffectFlags, bits: u16, what: &str) {
    c.eval(None);
    for (i, e) in EFFECTS.iter().enumerate() {
        if f.is(*e) != (bits >> i & 1 != 0) {
            c.violation(format!("{what}: is({e:?}) is {} in {:?}", f.is(*e), names(bits)));
            return;
        }
    }
    if f.is_plain() != (bits == 0) {
        c.violation(format!("{what}: is_plain() is {} for {:?}", f.is_plain(), names(bits)));
    }
    judge_iter(c, f.iter(), bits, &format!("{what}: iter of"));
}

fn judge_deep(c: &mut Ctx, f: EffectFlags, bits: u16, what: &str) {
    judge(c, f, bits, what);
    if !c.viol.is_empty() {
        // an iterator that does not end would hang what follows
        return;
    }
    judge_iter(c, f.into_iter(), bits, &format!("{what}: into_iter of"));
    // a clone taken part-way continues on its own
    let mut it = f.iter();
    let mut done = 0;
    for _ in 0..bits.count_ones() / 2 {
        done |= it.next().map_or(0, effect_bit);
    }
    judge_iter(c, it.clone(), bits & !done, &format!("{what}: clone part-way of"));
    for (d, b) in [(format!("{:?}", f), bits), (format!("{:?}", f.iter()), bits), (format!("{:?}", it), bits & !done), (format!("{:#?}", f), bits)] {
        let mut got = debug_set(&d).unwrap_or_else(|| vec![d.clone()]);
        let mut want = names(b);
        got.sort();
        want.sort();
        if got != want {
            c.violation(format!("{what}: debug output {d:?} for {want:?}"));
        }
    }
    judge_iter(c, it, bits & !done, &format!("{what}: rest of"));
    let same = flags(bits);
    if f != same || hash_of(&f) != hash_of(&same) {
        c.violation(format!("{what}: {f:?} does not equal (or hash like) {same:?} built by adding"));
    }
    let fold = f.iter().fold(0u16, |a, e| a | effect_bit(e));
    let (count, last) = (f.iter().count(), f.iter().last());
    if fold != bits || count != bits.count_ones() as usize || last.is_some() != (bits != 0) {
        c.violation(format!("{what}: fold/count/last of {:?} give {:?}, {count}, {last:?}", names(bits), names(fold)));
    }
    // whatever the order, every way of iterating sees the same sequence
    let mut seq = vec![];
    let mut it = f.iter();
    while let Some(e) = it.next() {
        seq.push(e);
        if seq.len() > 13 {
            c.violation(format!("{what}: the iterator of {:?} does not end", names(bits)));
            return;
        }
    }
    if let Err(e) = adapters(f, &seq) {
        c.violation(format!("{what}: {:?}, in order {seq:?}: {e}", names(bits)));
    }
}

fn adapters(f: EffectFlags, seq: &[Effect]) -> Result<(), String> {
    use std::ops::ControlFlow;
    fn same<T: PartialEq + std::fmt::Debug>(how: &str, got: T, want: T) -> Result<(), String> {
        if got == want {
            Ok(())
        } else {
            Err(format!("{how} gives {got:?}, expected {want:?}"))
        }
    }
    let all = || seq.iter().copied();
    same("last", f.iter().last(), seq.last().copied())?;
    same("collect", f.iter().collect::<Vec<_>>(), seq.to_vec())?;
    same("for", { let mut v = vec![]; for e in f { v.push(e) } v }, seq.to_vec())?;
    let mut v = vec![];
    f.iter().for_each(|e| v.push(e));
    same("for_each", v, seq.to_vec())?;
    same("fold", f.iter().fold(vec![], |mut v, e| { v.push(e); v }), seq.to_vec())?;
    same("reduce", f.iter().reduce(|_, b| b), seq.last().copied())?;
    same("min_by_key", f.iter().min_by_key(|e| *e as u8), all().min_by_key(|e| *e as u8))?;
    same("max_by_key", f.iter().max_by_key(|e| *e as u8), all().max_by_key(|e| *e as u8))?;
    same("partition", f.iter().partition::<Vec<_>, _>(|e| *e as u8 % 2 == 0), all().partition(|e| *e as u8 % 2 == 0))?;
    same("eq", f.iter().eq(all()), true)?;
    same("peekable", { let mut p = f.iter().peekable(); p.peek(); p.collect::<Vec<_>>() }, seq.to_vec())?;
    same("chain", f.iter().chain(f.iter()).collect::<Vec<_>>(), all().chain(all()).collect())?;
    same("zip", f.iter().zip(0..).map(|(e, _)| e).collect::<Vec<_>>(), seq.to_vec())?;
    same("cycle", f.iter().cycle().take(30).collect::<Vec<_>>(), all().cycle().take(30).collect())?;
    let mut x = vec![Effect::Bold];
    x.extend(f);
    same("extend", &x[1..], seq)?;
    for k in 0..=seq.len() + 1 {
        let rest = || seq.get(k..).unwrap_or(&[]).to_vec();
        let after = || seq.get(k + 1..).unwrap_or(&[]).to_vec();
        let mut it = f.iter();
        same(&format!("nth({k})"), it.nth(k), seq.get(k).copied())?;
        same(&format!("the rest after nth({k})"), it.collect::<Vec<_>>(), after())?;
        same(&format!("skip({k})"), f.iter().skip(k).collect::<Vec<_>>(), rest())?;
        same(&format!("take({k})"), f.iter().take(k).collect::<Vec<_>>(), all().take(k).collect())?;
        same(&format!("step_by({})", k + 1), f.iter().step_by(k + 1).collect::<Vec<_>>(), all().step_by(k + 1).collect())?;
        let mut it = f.iter();
        same(&format!("by_ref().take({k})"), it.by_ref().take(k).count(), k.min(seq.len()))?;
        let (lo, hi) = it.size_hint();
        let left = rest().len();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size hint {:?} with {left} left", (lo, hi)));
        }
        same(&format!("last after {k}"), it.clone().last(), rest().last().copied())?;
        same(&format!("count after {k}"), it.clone().count(), left)?;
        same(&format!("fold after {k}"), it.clone().fold(vec![], |mut v, e| { v.push(e); v }), rest())?;
        same(&format!("rest after {k}"), it.collect::<Vec<_>>(), rest())?;
        if let Some(&e) = seq.get(k) {
            let mut it = f.iter();
            same(&format!("find({e:?})"), it.find(|x| *x == e), Some(e))?;
            same(&format!("the rest after find({e:?})"), it.collect::<Vec<_>>(), after())?;
            let mut it = f.iter();
            same(&format!("position({e:?})"), it.position(|x| x == e), Some(k))?;
            same(&format!("the rest after position({e:?})"), it.collect::<Vec<_>>(), after())?;
            let mut it = f.iter();
            let r = it.try_fold(0, |n, x| if x == e { ControlFlow::Break(n) } else { ControlFlow::Continue(n + 1) });
            same(&format!("try_fold until {e:?}"), r, ControlFlow::Break(k))?;
            same(&format!("the rest after try_fold until {e:?}"), it.collect::<Vec<_>>(), after())?;
            let mut it = f.iter();
            same(&format!("any({e:?})"), it.any(|x| x == e), true)?;
            same(&format!("the rest after any({e:?})"), it.collect::<Vec<_>>(), after())?;
            let mut it = f.iter();
            same(&format!("all(not {e:?})"), it.all(|x| x != e), false)?;
            same(&format!("the rest after all(not {e:?})"), it.collect::<Vec<_>>(), after())?;
        }
    }
    Ok(())
}

struct FromArrays<'a>(&'a mut Ctx);
impl mon::collect::Arrays for FromArrays<'_> {
    #[inline(never)]
    fn array<const N: usize>(&mut self, es: [Effect; N], bits: u16) {
        case(|| format!("array of {N}"));
        let what = format!("from_array of {N} effects");
        judge(self.0, EffectFlags::from_array(es), bits, &what);
        judge(self.0, es.into_iter().collect(), bits, &format!("collecting {N} effects"));
        self.0.count("arrays", 1);
    }
}
/// any number of effects, from any kind of iterator
fn collected(c: &mut Ctx, r: &mut Rng) {
    let (v, bits) = mon::collect::sequence(r);
    case(|| format!("collecting {} effects", v.len()));
    macro_rules! go {
        ($how:expr, $i:expr) => {{
            let f: EffectFlags = $i.into_iter().collect();
            judge(c, f, bits, &format!("{} effects collected from {}", v.len(), $how));
        }};
    }
    mon::each_iterator!(&v, go);
    c.count("sequences collected", 1);
}

fn history(c: &mut Ctx, r: &mut Rng, steps: u64) {
    let (mut f, mut m) = (EffectFlags::new(), 0u16);
    if r.chance(1, 4) {
        (f, m) = (EffectFlags::all(), mon::sgr::ALL);
    }
    let mut log = Vec::new();
    for _ in 0..steps {
        let i = r.idx(13);
        let e = EFFECTS[i];
        let b = 1u16 << i;
        let op = r.below(11);
        match op {
            0 => (f, m) = (f.with(e), m | b),
            1 => (f, m) = (f.without(e), m & !b),
            2 => (f, m) = (f.toggled(e), m ^ b),
            3 => {
                f.set(e);
                m |= b
            }
            4 => {
                f.unset(e);
                m &= !b
            }
            5 => {
                f.toggle(e);
                m ^= b
            }
            6 => {
                let es: Vec<Effect> = (0..r.below(20)).map(|_| *r.pick(&EFFECTS)).collect();
                m = es.iter().fold(0, |a, e| a | effect_bit(*e));
                f = match r.below(2) {
                    0 => es.iter().collect(),
                    _ => es.into_iter().collect(),
                };
            }
            7 => {
                let mut es = [e, *r.pick(&EFFECTS), *r.pick(&EFFECTS), e];
                m = es.iter().fold(0, |a, e| a | effect_bit(*e));
                f = match r.below(3) {
                    0 => EffectFlags::from_array(es),
                    1 => {
                        let before = es;
                        let f = es.iter_mut().collect();
                        c.expect(es == before, || format!("collecting changed {before:?} to {es:?}"));
                        f
                    }
                    _ => EffectFlags::from_iter(es),
                };
            }
            8 => f = f.iter().collect(),
            9 => {
                // methods that take a copy leave the original alone
                let _ = (f.with(e), f.without(e), f.toggled(e));
            }
            _ => {
                let o = r.u64() as u16 & mon::sgr::ALL;
                if f.is_any(flags(o)) != (m & o != 0) || (f == flags(o)) != (m == o) {
                    c.violation(format!("{f:?} against {:?} (should be {:?}): is_any {}, equal {}", names(o), names(m), f.is_any(flags(o)), f == flags(o)));
                }
            }
        }
        log.push((op, e));
        judge(c, f, m, "history");
        if c.full() {
            c.violation(format!("after {log:?}"));
            return;
        }
    }
    c.mark(hash_of(&format!("{log:?}")));
    c.sample(2, || format!("{:?}... -> {f:?}", &log[..log.len().min(6)]));
}

fn main() {
    mon::run(
        "C14",
        "all 8192 effect sets built by adding, each with every single-effect operation and every view of it; all pairs \
         of sets for intersection and equality; random operation histories against a bit-set model; distinct by \
         construction or by hash of the history",
        |c| {
            c.guard("basics", |c| {
                judge_deep(c, EffectFlags::new(), 0, "new");
                judge_deep(c, EffectFlags::default(), 0, "default");
                judge_deep(c, EffectFlags::all(), mon::sgr::ALL, "all");
                judge_deep(c, EffectFlags::from_array([]), 0, "empty array");
                judge_deep(c, EffectFlags::from_array(EFFECTS), mon::sgr::ALL, "array of all");
                judge_deep(c, EFFECTS.iter().collect(), mon::sgr::ALL, "collected");
                const C: EffectFlags = EffectFlags::new().with(Effect::Bold).toggled(Effect::Hidden).without(Effect::Bold);
                judge_deep(c, C, effect_bit(Effect::Hidden), "constant");
                // taking an effect from a reference only copies it
                for e in EFFECTS {
                    let (mut a, b) = (e, e);
                    let got = [Effect::from(&mut a), Effect::from(&b), Effect::from(e)];
                    c.eval(None);
                    c.expect(got == [e; 3] && a == e && b == e, || format!("{e:?} taken from references gives {got:?} and leaves {a:?}, {b:?}"));
                    let mut es = [e, EFFECTS[0], e];
                    let f: EffectFlags = es.iter_mut().collect();
                    judge(c, f, effect_bit(e) | 1, "collected from mutable references");
                    c.expect(es == [e, EFFECTS[0], e], || format!("collecting from mutable references to {:?} leaves {es:?}", [e, EFFECTS[0], e]));
                }
                let distinct: HashSet<Effect> = EFFECTS.into_iter().collect();
                c.expect(distinct.len() == 13, || format!("the effects are not distinct: {distinct:?}"));
            });
            c.parallel("sets", 64, |p, c| {
                for bits in (p as u16) * 128..(p as u16 + 1) * 128 {
                    if c.full() {
                        return;
                    }
                    case(|| format!("{:?}", names(bits)));
                    let f = flags(bits);
                    judge_deep(c, f, bits, "set");
                    c.enumerated += 1;
                    for (i, e) in EFFECTS.iter().enumerate() {
                        let b = 1u16 << i;
                        let mut g = [f, f, f];
                        g[0].set(*e);
                        g[1].unset(*e);
                        g[2].toggle(*e);
                        judge(c, f.with(*e), bits | b, "with");
                        judge(c, f.without(*e), bits & !b, "without");
                        judge(c, f.toggled(*e), bits ^ b, "toggled");
                        judge(c, g[0], bits | b, "set");
                        judge(c, g[1], bits & !b, "unset");
                        judge(c, g[2], bits ^ b, "toggle");
                        judge(c, EffectFlags::from_array([*e]), b, "from_array of one");
                        c.enumerated += 6;
                    }
                    // built in reverse order, and by removing from the full set
                    let mut back = EffectFlags::new();
                    let mut down = EffectFlags::all();
                    for (i, e) in EFFECTS.iter().enumerate().rev() {
                        if bits >> i & 1 != 0 {
                            back.set(*e);
                        } else {
                            down.unset(*e);
                        }
                    }
                    judge_deep(c, back, bits, "built backwards");
                    judge_deep(c, down, bits, "by removal");
                    judge(c, f.iter().collect(), bits, "collected from its own iterator");
                }
            });
            c.parallel("pairs", 64, |p, c| {
                for a in (p as u16) * 128..(p as u16 + 1) * 128 {
                    let f = flags(a);
                    case(|| format!("{:?} with others", names(a)));
                    for b in 0..8192u16 {
                        // adding effects in order is judged above
                        let g = GRID.with(|g| g[b as usize]);
                        if f.is_any(g) != (a & b != 0) || (f == g) != (a == b) || (f != g) != (a != b) {
                            c.violation(format!("{f:?} and {g:?}: is_any {}, equal {}", f.is_any(g), f == g));
                            return;
                        }
                    }
                    c.evals += 8192;
                    c.enumerated += 8192;
                }
            });
            c.guard("arrays", |c| {
                let mut r = c.rng(5);
                for _ in 0..c.n(2, 40) {
                    mon::collect::arrays(&mut r, &mut FromArrays(c));
                }
            });
            let n = c.n(300, 20_000);
            c.parallel("collected", 8, |p, c| {
                let mut r = c.rng(6).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    collected(c, &mut r);
                }
            });
            let n = c.n(4_000, 200_000);
            c.parallel("history", 8, |p, c| {
                let mut r = c.rng(9).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    case(|| "history".into());
                    let steps = 1 + r.below(30);
                    history(c, &mut r, steps);
                }
            });
        },
    )
}
thread_local! { static GRID: Vec<EffectFlags> = (0..8192u16).map(flags).collect(); }
