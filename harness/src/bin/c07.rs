//! Clearing a style undoes exactly what applying it did, judged by a terminal model.
use colorz::Style;
use mon::gen::{self, TypedVisitor};
use mon::oracle::*;
use mon::sgr::{self, Term};
use mon::spec::*;
use mon::{case, hash_of, Ctx};

fn one<F: Asks, B: Asks, U: Asks>(
    c: &mut Ctx,
    s: Style<F, B, U>,
    w: Wants,
    probes: &[Term],
    a: &mut String,
    b: &mut String,
) {
    case(|| format!("{w:?}"));
    apply_text(s, a);
    clear_text(s, b);
    c.eval(None);
    if let Err(e) = judge_clear(a, b, &w, probes) {
        c.violation(format!("style {s:?}: {e}"));
    }
}

struct V<'a> {
    c: &'a mut Ctx,
    a: String,
    b: String,
}
impl TypedVisitor for V<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let probes = gen::probe_terms();
        let base = Style::new().fg(fg).bg(bg).underline_color(ul);
        for eff in 0..1u16 << 13 {
            if self.c.full() {
                return;
            }
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            one(self.c, base.effect_flags(flags(eff)), w, &probes, &mut self.a, &mut self.b);
            self.c.enumerated += !w.plain() as u64;
        }
        self.c.count("style types", 1);
        clear_text(base.bold().underline(), &mut self.b);
        let b = &self.b;
        self.c.sample(2, || format!("{fg:?}/{bg:?}/{ul:?} bold underline cleared by {b:?}"));
    }
}

fn main() {
    mon::run(
        "C07",
        "apply() then clear() codes interpreted by a terminal model from revealing prior states; every effect set for \
         every mix of color types and of runtime color variants, random styles from random states, clear_all from \
         random states; non-trivial: the style is not plain",
        |c| {
            let reps = c.n(1, 6);
            for rep in 0..reps {
                c.parallel("typed styles", 32, |p, c| {
                    let mut r = c.rng(100 + rep).fork(0);
                    gen::typed_styles(&mut r, p, 32, &mut V { c, a: String::new(), b: String::new() });
                });
                c.parallel("runtime styles", 125, |p, c| {
                    let mut r = c.rng(200 + rep).fork(p);
                    let probes = gen::probe_terms();
                    let (mut a, mut b) = (String::new(), String::new());
                    let v = [p / 25, p / 5 % 5, p % 5];
                    for eff in 0..1u16 << 13 {
                        if c.full() {
                            return;
                        }
                        let mut k = v.map(|v| if v == 4 { None } else { Some(gen::color_of(&mut r, v)) });
                        if eff & 7 == 3 && v[0] == v[1] {
                            k[1] = k[0];
                        }
                        let s = Style::new().fg(k[0]).bg(k[1]).underline_color(k[2]).effect_flags(flags(eff));
                        let w = Wants { fg: k[0].asks(), bg: k[1].asks(), ul: k[2].asks(), eff };
                        one(c, s, w, &probes, &mut a, &mut b);
                        c.enumerated += !w.plain() as u64;
                    }
                });
            }
            let n = c.n(20_000, 400_000);
            c.parallel("random states", 8, |p, c| {
                let mut r = c.rng(300).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    let (s, w) = gen::style(&mut r);
                    let t = gen::term(&mut r);
                    case(|| format!("{w:?}"));
                    let a = format!("{}", s.apply());
                    let b = match r.below(5) {
                        0 => format!("{:?}", s.clear()),
                        1 => format!("{:^30}", s.clear()),
                        2 => format!("{:.1}", s.clear()),
                        _ => format!("{}", s.clear()),
                    };
                    c.eval(if w.plain() { None } else { Some(hash_of(&(w, t))) });
                    c.judge(judge_clear(&a, &b, &w, &[t]));
                    // anything else on the terminal survives an inner style that ends meanwhile
                    let (o, ow) = gen::style(&mut r);
                    let mut u = sgr::DEFAULT;
                    c.judge(u.codes(&format!("{}{a}{b}{}", o.apply(), o.clear())));
                    c.expect(u == sgr::DEFAULT, || format!("after nested {ow:?} and {w:?} the terminal is {u:?}"));
                    // clear_all
                    let mut u = t;
                    let all = if r.chance(1, 2) { format!("{}", Style::clear_all()) } else { format!("{:?}", Style::clear_all()) };
                    c.judge(u.codes(&all));
                    c.expect(u == sgr::DEFAULT, || format!("clear_all {all:?} left {u:?} of {t:?}"));
                    c.sample(4, || format!("{w:?}: {a:?} ... {b:?}"));
                }
            });
            c.guard("effect codes", |c| {
                for (i, e) in EFFECTS.iter().enumerate() {
                    let w = Wants { fg: None, bg: None, ul: None, eff: 1 << i };
                    let probes = gen::probe_terms();
                    c.eval(None);
                    c.enumerated += 1;
                    c.judge(judge_clear(e.apply_escape(), e.clear_escape(), &w, &probes));
                    let args = format!("\x1b[{}m", e.clear_args());
                    c.judge(judge_clear(e.apply_escape(), &args, &w, &probes));
                }
            });
        },
    )
}
