//! Asking the code under test for coloring decisions, in all the ways a user can.
use crate::model::*;
use crate::oracle::*;
use crate::spec::*;
use crate::{case, hash_of, Ctx, Rng};
use colorz::mode::{self, ColorKind, Stream};
use crate::flags::Same;
use colorz::{Color, Colorize, Style, StyledValue};
use std::fmt::Write;

pub fn kinds_lists(max: usize) -> Vec<Vec<ColorKind>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|l| {
                KINDS.iter().map(move |k| {
                    let mut l = l.clone();
                    l.push(*k);
                    l
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

pub fn random_kinds(r: &mut Rng) -> Vec<ColorKind> {
    let n = if r.chance(1, 8) { r.idx(20) } else { r.idx(5) };
    (0..n).map(|_| *r.pick(&KINDS)).collect()
}

/// Lists of every length up to some, and around the powers of two, all of one kind but for one or two elements anywhere.
pub fn long_kinds(r: &mut Rng, f: &mut impl FnMut(&mut Rng, &[ColorKind])) {
    let mut lens: Vec<usize> = (4..=40).collect();
    for p in [6, 7, 8, 9, 10, 12, 14, 15, 16, 17] {
        lens.extend([(1 << p) - 1, 1 << p, (1 << p) + 1, (1 << p) + 7]);
    }
    for n in lens {
        let base = *r.pick(&KINDS);
        let mut l = vec![base; n];
        f(r, &l);
        for at in [0, n - 1, n / 2, 3, r.idx(n), r.idx(n)] {
            l[at] = *r.pick(&KINDS);
            let two = r.idx(n);
            let was = l[two];
            if r.chance(1, 3) {
                l[two] = *r.pick(&KINDS);
            }
            f(r, &l);
            l[two] = was;
            l[at] = base;
        }
        // what a list of nothing says must not outweigh the one element that says something
        for k in KINDS {
            let mut l = vec![ColorKind::NoColor; n];
            let at = match r.below(4) {
                0 => 0,
                1 | 2 => n - 1,
                _ => r.idx(n),
            };
            l[at] = k;
            f(r, &l);
        }
    }
}

fn key(set: &Settings, stream: Option<Stream>, what: &impl std::hash::Hash) -> u64 {
    hash_of(&(set, stream, what))
}

pub fn by_function(c: &mut Ctx, set: &Settings, truth: &Truth, stream: Option<Stream>, kinds: &[ColorKind]) {
    let show = || {
        if kinds.len() <= 40 {
            return format!("{kinds:?}");
        }
        let mut runs: Vec<(ColorKind, usize)> = vec![];
        for k in kinds {
            match runs.last_mut() {
                Some((l, n)) if l == k => *n += 1,
                _ => runs.push((*k, 1)),
            }
        }
        format!("list of {runs:?}")
    };
    case(|| format!("should_color({stream:?}, {}) under {set:?}", show()));
    let got = mode::should_color(stream, kinds);
    let want = set.decide(truth, stream, kinds);
    c.eval(Some(key(set, stream, &kinds)));
    c.count(if got { "decided to color" } else { "decided not to color" }, 1);
    c.expect(got == want, || {
        format!("should_color({stream:?}, {}) is {got}, expected {want}; settings {set:?}, streams {truth:?}", show())
    });
    c.sample(3, || format!("should_color({stream:?}, {}) under {set:?} -> {got}", show()));
}

pub fn style_kinds(w: &Wants) -> Vec<ColorKind> {
    w.kinds().into_iter().flatten().collect()
}

pub type RtStyle = Style<Option<Color>, Option<Color>, Option<Color>>;

pub fn by_style(c: &mut Ctx, set: &Settings, truth: &Truth, stream: Option<Stream>, s: RtStyle, w: &Wants) {
    case(|| format!("{s:?}.should_color({stream:?}) under {set:?}"));
    let want = set.decide(truth, stream, &style_kinds(w));
    let got = s.should_color(stream);
    c.eval(Some(key(set, stream, w)));
    c.expect(got == want, || {
        format!("{s:?}.should_color({stream:?}) is {got}, expected {want}; settings {set:?}, streams {truth:?}")
    });
    if let Some(x) = stream {
        let got = s.should_color(x);
        c.expect(got == want, || format!("{s:?}.should_color({x:?}) is {got}, expected {want}; settings {set:?}, streams {truth:?}"));
    }
}

/// How a styled value is made and written; the text must be the same.
pub fn value_text(how: u64, text: &str, s: RtStyle, stream: Option<Stream>) -> String {
    let text = Same(text);
    let v = match how % 5 {
        0 => StyledValue::new(text, s, None),
        1 => {
            let mut v = text.into_style().fg(s.foreground).bg(s.background).underline_color(s.underline_color).stream_opt(stream);
            v.style = s;
            v
        }
        2 => {
            let mut v = text.into_style_with(s).stream(Stream::NeverColor);
            v.stream = stream;
            v
        }
        3 => StyledValue::new(text, s, stream),
        _ => text.into_style_with(s),
    };
    let v = match (stream, how % 2) {
        (Some(x), 0) => v.stream(x),
        (x, _) => v.stream_opt(x),
    };
    let mut out = String::new();
    match how / 5 % 18 {
        16 => out = v.to_string(),
        17 => {
            struct W<'a>(StyledValue<Same<'a>, Option<Color>, Option<Color>, Option<Color>>);
            impl std::fmt::Display for W<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt_with(f, |t, f| f.write_str(t.0))
                }
            }
            write!(out, "{}", W(v)).unwrap()
        }
        k => crate::write_form!(out, v, k).unwrap(),
    }
    out
}
pub const WAYS: u64 = 90;
pub fn by_value(c: &mut Ctx, r: &mut Rng, set: &Settings, truth: &Truth, stream: Option<Stream>, s: RtStyle, w: &Wants) {
    let how = r.below(WAYS);
    case(|| format!("formatting with {s:?} on {stream:?} under {set:?}, way {how}"));
    let got = value_text(how, "t\u{e9}xt", s, stream);
    let want = set.decide(truth, stream, &style_kinds(w));
    c.eval(Some(key(set, stream, &(w, how))));
    let r = if want {
        c.count("values written colored", 1);
        judge_wrapped(&got, "t\u{e9}xt", w)
    } else if got != "t\u{e9}xt" {
        Err(format!("{got:?} was written, expected plain text"))
    } else {
        c.count("values written plain", 1);
        Ok(())
    };
    c.judge(r.map_err(|e| format!("{s:?} on {stream:?} (way {how}), settings {set:?}, streams {truth:?}: {e}")));
    c.sample(6, || format!("{s:?} on {stream:?} under {set:?} -> {got:?}"));
}

/// Compile-time and mixed style types.
pub struct Typed<'a> {
    pub c: &'a mut Ctx,
    pub r: Rng,
    pub set: Settings,
    pub truth: Truth,
}
impl crate::gen::TypedVisitor for Typed<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let eff = crate::gen::effects(&mut self.r);
        let stream = *self.r.pick(&OPT_STREAMS);
        let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
        let s = Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(eff));
        let got = s.should_color(stream);
        let mut text = String::new();
        // a fresh style of the same types, as formatted values have it
        let done = write!(text, "{}", StyledValue::new(Same("v\u{e4}l"), s, stream));
        typed_judge(self, stream, &w, got, done.is_ok().then_some(text));
    }
}
#[inline(never)]
fn typed_judge(t: &mut Typed, stream: Option<Stream>, w: &Wants, got: bool, text: Option<String>) {
    let want = t.set.decide(&t.truth, stream, &style_kinds(w));
    t.c.eval(Some(key(&t.set, stream, &(w, "typed"))));
    let (set, truth) = (t.set, t.truth);
    t.c.expect(got == want, || {
        format!("a style of compile-time colors asking for {w:?}: should_color({stream:?}) is {got}, expected {want}; settings {set:?}, streams {truth:?}")
    });
    let r = match (&text, want) {
        (None, _) => Err("formatting failed".to_string()),
        (Some(x), true) => judge_wrapped(x, "v\u{e4}l", w),
        (Some(x), false) if x == "v\u{e4}l" => Ok(()),
        (Some(x), false) => Err(format!("{x:?} was written, expected plain text")),
    };
    t.c.count("typed values formatted", 1);
    t.c.judge(r.map_err(|e| format!("a value in compile-time colors asking for {w:?} on {stream:?}, settings {set:?}, streams {truth:?}: {e}")));
}
