//! Style building changes only the aspect named, and plainness is exact.
use colorz::{Color, Effect, EffectFlags, Style};
use mon::gen::{self, TypedVisitor};
use mon::oracle::*;
use mon::spec::*;
use mon::{case, hash_of, Ctx, Rng};

/// The style's fields must be exactly those of the model.
fn judge(c: &mut Ctx, s: &Style, m: &(Option<Color>, Option<Color>, Option<Color>, u16), log: &[String]) {
    c.eval(None);
    let (f, b, u, e) = *m;
    if s.foreground != f || s.background != b || s.underline_color != u || s.effects != flags(e) {
        c.violation(format!("after {log:?}: {s:?}, expected fg {f:?}, bg {b:?}, underline {u:?}, effects {:?}", flags(e)));
    }
    for (i, x) in EFFECTS.iter().enumerate() {
        if s.is(*x) != (e >> i & 1 != 0) {
            c.violation(format!("after {log:?}: is({x:?}) is {}", s.is(*x)));
        }
    }
    let plain = f.is_none() && b.is_none() && e == 0;
    if s.is_plain() != plain {
        c.violation(format!("after {log:?}: is_plain() is {} for {s:?}", s.is_plain()));
    }
    let copy = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(e));
    if *s != copy || hash_of(s) != hash_of(&copy) {
        c.violation(format!("after {log:?}: {s:?} does not equal (or hash like) {copy:?}"));
    }
}

fn named(s: Style, i: usize) -> Style {
    match i {
        0 => s.bold(),
        1 => s.dimmed(),
        2 => s.italics(),
        3 => s.underline(),
        4 => s.double_underline(),
        5 => s.blink(),
        6 => s.blink_fast(),
        7 => s.reverse(),
        8 => s.hide(),
        9 => s.strikethrough(),
        10 => s.overline(),
        11 => s.superscript(),
        _ => s.subscript(),
    }
}

fn history(c: &mut Ctx, r: &mut Rng, steps: u64) {
    let mut s: Style = Style::new().into_runtime_style();
    let mut m = (None, None, None, 0u16);
    let mut log = vec![];
    for _ in 0..steps {
        let i = r.idx(13);
        let e = EFFECTS[i];
        let k = gen::opt_color(r);
        let set: Vec<Effect> = (0..r.below(6)).map(|_| *r.pick(&EFFECTS)).collect();
        let bits = set.iter().fold(0, |a, e| a | effect_bit(*e));
        let (name, t): (String, Style) = match r.below(16) {
            0 => {
                m.0 = k;
                (format!("fg({k:?})"), s.fg(k))
            }
            1 => {
                m.1 = k;
                (format!("bg({k:?})"), s.bg(k))
            }
            2 => {
                m.2 = k;
                (format!("underline_color({k:?})"), s.underline_color(k))
            }
            3 => {
                m.3 = bits;
                (format!("effects({set:?})"), s.effects(set))
            }
            4 => {
                m.3 = bits;
                (format!("effects(&{set:?})"), s.effects(&set))
            }
            5 => {
                m.3 = bits;
                let t = match set[..] {
                    [] => s.effects_array([]),
                    [a] => s.effects_array([a]),
                    [a, b] => s.effects_array([a, b]),
                    [a, b, x] => s.effects_array([a, b, x]),
                    [a, b, x, y] => s.effects_array([a, b, x, y]),
                    [a, b, x, y, z] => s.effects_array([a, b, x, y, z]),
                    _ => unreachable!(),
                };
                (format!("effects_array({set:?})"), t)
            }
            6 => {
                m.3 = bits;
                (format!("effect_flags({set:?})"), s.effect_flags(EffectFlags::from_iter(set)))
            }
            7 => {
                m.3 = 0;
                ("clear_effects".into(), s.clear_effects())
            }
            8 => {
                m.3 |= 1 << i;
                (format!("with({e:?})"), s.with(e))
            }
            9 => {
                m.3 &= !(1 << i);
                (format!("without({e:?})"), s.without(e))
            }
            10 => {
                m.3 ^= 1 << i;
                (format!("toggled({e:?})"), s.toggled(e))
            }
            11 => ("into_runtime_style".into(), s.into_runtime_style()),
            12 => {
                // fields are public
                let mut t = s;
                t.effects.toggle(e);
                t.foreground = k;
                m.3 ^= 1 << i;
                m.0 = k;
                ("fields".into(), t)
            }
            _ => {
                m.3 |= 1 << i;
                (format!("{e:?} by name"), named(s, i))
            }
        };
        log.push(name);
        s = t;
        judge(c, &s, &m, &log);
        if c.full() {
            return;
        }
    }
    c.mark(hash_of(&log));
    c.sample(2, || format!("{log:?} -> {s:?}"));
}

/// On styles of any color types: one builder call changes one aspect.
struct V<'a> {
    c: &'a mut Ctx,
    r: Rng,
    buf: String,
}
impl TypedVisitor for V<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let c = &mut *self.c;
        let k = gen::rgb(&mut self.r);
        let kw = k.asks();
        let base = Style::new().fg(fg).bg(bg).underline_color(ul);
        // every effect set: plainness says whether anything is written
        for eff in 0..1u16 << 13 {
            let s = base.effect_flags(flags(eff));
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            apply_text(s, &mut self.buf);
            let a = self.buf.is_empty();
            clear_text(s, &mut self.buf);
            let b = self.buf.is_empty();
            c.evals += 1;
            if s.is_plain() != w.plain() || s.is_plain() != (a && b) {
                c.violation(format!("{s:?}: is_plain() is {}, apply writes nothing: {a}, clear writes nothing: {b}", s.is_plain()));
                if c.full() {
                    return;
                }
            }
        }
        c.enumerated += 1 << 13;
        for i in 0..64 {
            let eff = if i < 14 { (1u16 << i) & mon::sgr::ALL } else { gen::effects(&mut self.r) };
            let e = self.r.idx(13);
            let (x, xb) = (EFFECTS[e], 1u16 << e);
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            let s = base.effect_flags(flags(eff));
            case(|| format!("{s:?} and {x:?}"));
            let mut is = |what: &str, got: Wants, want: Wants| {
                c.evals += 1;
                if got != want {
                    c.violation(format!("{what} of {s:?} gave {got:?}, expected {want:?}"));
                }
            };
            is("nothing", wants(&s), w);
            is("fg", wants(&s.fg(k)), Wants { fg: kw, ..w });
            is("bg", wants(&s.bg(k)), Wants { bg: kw, ..w });
            is("underline_color", wants(&s.underline_color(k)), Wants { ul: kw, ..w });
            is("with", wants(&s.with(x)), Wants { eff: eff | xb, ..w });
            is("without", wants(&s.without(x)), Wants { eff: eff & !xb, ..w });
            is("toggled", wants(&s.toggled(x)), Wants { eff: eff ^ xb, ..w });
            is("clear_effects", wants(&s.clear_effects()), Wants { eff: 0, ..w });
            is("effects", wants(&s.effects([x])), Wants { eff: xb, ..w });
            is("effects_array", wants(&s.effects_array([x, x])), Wants { eff: xb, ..w });
            let all = [
                s.bold(),
                s.dimmed(),
                s.italics(),
                s.underline(),
                s.double_underline(),
                s.blink(),
                s.blink_fast(),
                s.reverse(),
                s.hide(),
                s.strikethrough(),
                s.overline(),
                s.superscript(),
                s.subscript(),
            ];
            for (j, t) in all.iter().enumerate() {
                is("a named effect", wants(t), Wants { eff: eff | 1 << j, ..w });
            }
            // colors set twice, in different orders
            let k2 = gen::xterm(&mut self.r);
            is("fg twice", wants(&s.fg(k2).bg(bg).fg(k)), Wants { fg: kw, ..w });
            is("bg, fg, bg", wants(&s.bg(k2).fg(k2).bg(k)), Wants { bg: kw, fg: k2.asks(), ..w });
        }
        c.count("style types", 1);
    }
}

struct StyleArrays<'a>(&'a mut Ctx, Rng);
impl mon::collect::Arrays for StyleArrays<'_> {
    #[inline(never)]
    fn array<const N: usize>(&mut self, es: [Effect; N], bits: u16) {
        let (s, w) = gen::style(&mut self.1);
        case(|| format!("effects_array of {N} on {s:?}"));
        let want = Wants { eff: bits, ..w };
        for (how, t) in [("effects_array", s.effects_array(es)), ("effects", s.effects(es)), ("effects of references", s.effects(&es))] {
            let got = wants(&t);
            self.0.eval(None);
            self.0.expect(got == want, || format!("{how} with {N} effects, which are {:?}, on {s:?} gives {t:?}", flags(bits)));
        }
        self.0.count("long arrays of effects", 1);
    }
}
/// effects given as any kind of iterator
fn iterators(c: &mut Ctx, r: &mut Rng) {
    let (s, w) = gen::style(r);
    let (v, bits) = mon::collect::sequence(r);
    case(|| format!("effects({} effects) on {s:?}", v.len()));
    let want = Wants { eff: bits, ..w };
    macro_rules! go {
        ($how:expr, $i:expr) => {{
            let t = s.effects($i);
            let got = wants(&t);
            c.eval(None);
            c.expect(got == want, || format!("effects with {} effects, which are {:?}, from {} on {s:?} gives {t:?}", v.len(), flags(bits), $how));
        }};
    }
    mon::each_iterator!(&v, go);
    c.count("sequences of effects", 1);
}

fn main() {
    mon::run(
        "C15",
        "random sequences of builder calls against a field-by-field model; single builder calls on styles of every mix of \
         color types; plainness against what is written for every effect set of each; distinct by the call sequence or \
         by construction",
        |c| {
            c.guard("start", |c| {
                let s = Style::new().into_runtime_style();
                judge(c, &s, &(None, None, None, 0), &["new".into()]);
                let d: Style = Style::default().into_runtime_style();
                judge(c, &d, &(None, None, None, 0), &["default".into()]);
            });
            let reps = c.n(1, 4);
            for rep in 0..reps {
                c.parallel("typed", 32, |p, c| {
                    let mut r = c.rng(100 + rep).fork(0);
                    let v = c.rng(500 + rep).fork(p);
                    gen::typed_styles(&mut r, p, 32, &mut V { c, r: v, buf: String::new() });
                });
            }
            c.guard("arrays", |c| {
                let mut r = c.rng(5);
                for i in 0..c.n(1, 20) {
                    let own = c.rng(7).fork(i);
                    mon::collect::arrays(&mut r, &mut StyleArrays(c, own));
                }
            });
            let n = c.n(200, 10_000);
            c.parallel("iterators", 8, |p, c| {
                let mut r = c.rng(6).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    iterators(c, &mut r);
                }
            });
            let n = c.n(30_000, 1_000_000);
            c.parallel("history", 8, |p, c| {
                let mut r = c.rng(9).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    case(|| "history".into());
                    let steps = 1 + r.below(14);
                    history(c, &mut r, steps);
                }
            });
        },
    )
}
