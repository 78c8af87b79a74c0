//! Applying a style sets exactly what it asks for, judged by a terminal model.
use colorz::Style;
use mon::gen::{self, TypedVisitor};
use mon::oracle::*;
use mon::sgr::Term;
use mon::spec::*;
use mon::{case, hash_of, Ctx, Rng};

fn one<F: Asks, B: Asks, U: Asks>(c: &mut Ctx, s: Style<F, B, U>, w: Wants, probes: &[Term], buf: &mut String) {
    case(|| format!("{w:?}"));
    apply_text(s, buf);
    c.eval(None);
    if let Err(e) = judge_apply(buf, &w, probes) {
        c.violation(format!("style {s:?}: {e}"));
    }
}

struct V<'a> {
    c: &'a mut Ctx,
    buf: String,
}
impl TypedVisitor for V<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let probes = gen::probe_terms();
        let base = Style::new().fg(fg).bg(bg).underline_color(ul);
        for eff in 0..1u16 << 13 {
            if self.c.full() {
                return;
            }
            let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
            one(self.c, base.effect_flags(flags(eff)), w, &probes, &mut self.buf);
            self.c.enumerated += !w.plain() as u64;
        }
        self.c.count("style types", 1);
        apply_text(base.bold().underline(), &mut self.buf);
        let b = &self.buf;
        self.c.sample(2, || format!("{fg:?}/{bg:?}/{ul:?} bold underline -> {b:?}"));
    }
}

fn main() {
    mon::run(
        "C06",
        "apply() codes of typed and runtime styles interpreted by a terminal model from revealing prior states; \
         every effect set for every mix of color types, every effect set for every mix of runtime color variants, \
         random styles from random terminal states; non-trivial: the style is not plain",
        |c| {
            let reps = c.n(1, 6);
            for rep in 0..reps {
                c.parallel("typed styles", 32, |p, c| {
                    let mut r = c.rng(100 + rep).fork(0); // same values in all parts
                    gen::typed_styles(&mut r, p, 32, &mut V { c, buf: String::new() });
                });
            }
            // runtime styles: variant x variant x variant x effects
            for rep in 0..reps {
                c.parallel("runtime styles", 125, |p, c| {
                    let mut r = c.rng(200 + rep).fork(p);
                    let probes = gen::probe_terms();
                    let mut buf = String::new();
                    let v = [p / 25, p / 5 % 5, p % 5];
                    for eff in 0..1u16 << 13 {
                        if c.full() {
                            return;
                        }
                        let mut k = v.map(|v| if v == 4 { None } else { Some(gen::color_of(&mut r, v)) });
                        if eff & 7 == 3 && v[0] == v[1] {
                            k[1] = k[0];
                        }
                        let s = Style::new().fg(k[0]).bg(k[1]).underline_color(k[2]).effect_flags(flags(eff));
                        let w = Wants { fg: k[0].asks(), bg: k[1].asks(), ul: k[2].asks(), eff };
                        one(c, s, w, &probes, &mut buf);
                        c.enumerated += !w.plain() as u64;
                    }
                });
            }
            // random styles from random states, through Display, Debug and padded formatting
            let n = c.n(20_000, 400_000);
            c.parallel("random states", 8, |p, c| {
                let mut r = c.rng(300).fork(p);
                for _ in 0..n {
                    if c.full() {
                        return;
                    }
                    let (s, w) = gen::style(&mut r);
                    let t = gen::term(&mut r);
                    case(|| format!("{w:?}"));
                    let out = match r.below(5) {
                        0 => format!("{:?}", s.apply()),
                        1 => format!("{:>40}", s.apply()),
                        2 => format!("{:<3.1}", s.apply()),
                        _ => format!("{}", s.apply()),
                    };
                    c.eval(if w.plain() { None } else { Some(hash_of(&(w, t))) });
                    c.judge(judge_apply(&out, &w, &[t]));
                    c.sample(4, || format!("{w:?} -> {out:?}"));
                }
            });
            // the effects' own codes
            c.guard("effect codes", |c| {
                for (i, e) in EFFECTS.iter().enumerate() {
                    let w = Wants { fg: None, bg: None, ul: None, eff: 1 << i };
                    let probes = gen::probe_terms();
                    c.eval(None);
                    c.enumerated += 1;
                    c.judge(judge_apply(e.apply_escape(), &w, &probes));
                    c.judge(judge_apply(&format!("\x1b[{}m", e.apply_args()), &w, &probes));
                }
            });
            let _ = Rng::new(0);
        },
    )
}
