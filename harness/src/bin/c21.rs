//! Nested styled values compose layer by layer, each with its own condition.
use colorz::mode::{self, Stream};
use colorz::{Colorize, Style, StyledValue};
use mon::decide::{style_kinds, RtStyle};
use mon::model::*;
use mon::sgr::{Term, DEFAULT};
use mon::spec::*;
use mon::{case, gen, hash_of, Ctx, Rng};
use std::fmt::{self, Debug, Display, Formatter};

/// What is formatted.
enum Node {
    Text(String),
    Group(Vec<Node>),
    Styled(RtStyle, Wants, Option<Stream>, u64, Box<Node>),
    /// sets the settings half-way, as a value that does so would
    Set(Settings),
}

impl Node {
    fn show(&self) -> String {
        match self {
            Node::Text(t) => format!("{t:?}"),
            Node::Group(v) => format!("[{}]", v.iter().map(Node::show).collect::<Vec<_>>().join(" ")),
            Node::Styled(_, w, st, how, n) => format!("{{fg {:?} bg {:?} ul {:?} effects {:013b} on {st:?}, way {how}: {}}}", w.fg, w.bg, w.ul, w.eff, n.show()),
            Node::Set(s) => format!("<settings become {s:?}>"),
        }
    }
    /// What must be seen: each character with the attributes it is shown with.
    fn expect(&self, t: &mut Term, now: &mut Settings, truth: &Truth, out: &mut Vec<(char, Term)>, on: &mut [u64; 2]) {
        match self {
            Node::Text(s) => out.extend(s.chars().map(|c| (c, *t))),
            Node::Group(v) => v.iter().for_each(|n| n.expect(t, now, truth, out, on)),
            Node::Set(s) => *now = *s,
            Node::Styled(_, w, st, _, n) => {
                let colored = now.decide(truth, *st, &style_kinds(w));
                on[colored as usize] += 1;
                if colored {
                    *t = w.applied(*t);
                }
                n.expect(t, now, truth, out, on);
                if colored {
                    *t = w.cleared(*t);
                }
            }
        }
    }
    fn depth(&self) -> u64 {
        match self {
            Node::Text(_) | Node::Set(_) => 0,
            Node::Group(v) => v.iter().map(Node::depth).max().unwrap_or(0),
            Node::Styled(_, _, _, _, n) => 1 + n.depth(),
        }
    }
    fn key(&self) -> u64 {
        match self {
            Node::Text(_) => 1,
            Node::Set(s) => hash_of(s),
            Node::Group(v) => hash_of(&(2, v.iter().map(Node::key).collect::<Vec<_>>())),
            Node::Styled(_, w, st, _, n) => hash_of(&(w, st, n.key())),
        }
    }
}

impl Display for Node {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Node::Text(s) => f.write_str(s),
            Node::Group(v) => v.iter().try_for_each(|n| Display::fmt(n, f)),
            Node::Set(s) => {
                s.install();
                Ok(())
            }
            Node::Styled(s, _, st, how, n) => match layer(n, *s, *st, *how) {
                Some(b) => Display::fmt(&b, f),
                None => fmt_layer(n, *s, *st, *how, f),
            },
        }
    }
}
impl Debug for Node {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(self, f)
    }
}

/// a layer kept behind a vtable
fn layer<'a>(n: &'a Node, s: RtStyle, st: Option<Stream>, how: u64) -> Option<Box<dyn Display + 'a>> {
    match how % 8 {
        0 => Some(Box::new(StyledValue::new(n, s, st))),
        1 => Some(Box::new(n.style_with(s).stream_opt(st))),
        _ => None,
    }
}
fn fmt_layer(n: &Node, s: RtStyle, st: Option<Stream>, how: u64, f: &mut Formatter<'_>) -> fmt::Result {
    match how % 8 {
        2 => Debug::fmt(&StyledValue::new(n, s, st), f),
        3 => StyledValue::new(n, s, st).fmt_with(f, |n, f| Display::fmt(n, f)),
        // between two layers that do nothing
        4 => StyledValue::new(n, s, st).style().stream(Stream::AlwaysColor).fmt_with(f, |v, f| Display::fmt(v, f)),
        5 => Display::fmt(&StyledValue::new(n.into_style(), s, st), f),
        6 => {
            let mut v = n.style().fg(s.foreground).bg(s.background).underline_color(s.underline_color).stream_opt(st);
            v.style = s;
            write!(f, "{v}")
        }
        _ => f.write_fmt(format_args!("{}", n.into_style_with(s).stream_opt(st).into_style())),
    }
}

struct Names(u32);
impl Names {
    /// text with no character used twice
    fn text(&mut self, r: &mut Rng) -> String {
        (0..1 + r.below(3))
            .map(|_| {
                self.0 += 1;
                char::from_u32(0x4e00 + self.0).unwrap()
            })
            .collect()
    }
}

fn style(r: &mut Rng) -> (RtStyle, Wants) {
    loop {
        let (s, w) = gen::style(r);
        // which of two encodings a default underline color has is not specified
        if w.ul != Some(Want::Default) {
            return (s, w);
        }
    }
}
fn node(r: &mut Rng, depth: u64, names: &mut Names, set: bool) -> Node {
    if depth == 0 {
        return Node::Text(names.text(r));
    }
    match r.below(8) {
        0 => Node::Text(names.text(r)),
        1 | 2 => Node::Group(
            (0..1 + r.below(3))
                .flat_map(|_| {
                    let mut v = vec![node(r, depth - 1, names, set)];
                    if r.chance(1, 2) {
                        v.push(Node::Text(names.text(r)));
                    }
                    if set && r.chance(1, 3) {
                        v.push(Node::Set(Settings::random(r)));
                    }
                    v
                })
                .collect(),
        ),
        _ => {
            let (s, w) = style(r);
            Node::Styled(s, w, *r.pick(&OPT_STREAMS), r.u64(), Box::new(node(r, depth - 1, names, set)))
        }
    }
}

fn judge(out: &str, start: Term, want: &[(char, Term)], end: Term) -> Result<(), String> {
    let mut t = start;
    let mut i = 0;
    t.feed(out, |c, seen| {
        match want.get(i) {
            Some((w, u)) if *w == c && *u == seen => {}
            Some((w, u)) => return Err(format!("character {i} is {c:?} shown as {seen:?}, expected {w:?} as {u:?}")),
            None => return Err(format!("text after the end: {c:?}")),
        }
        i += 1;
        Ok(())
    })
    .map_err(|e| format!("{e}; wrote {out:?}"))?;
    if i < want.len() {
        return Err(format!("only {i} of {} characters were written: {out:?}", want.len()));
    }
    if t != end {
        return Err(format!("the terminal is left as {t:?}, expected {end:?}; wrote {out:?}"));
    }
    Ok(())
}

fn one(c: &mut Ctx, truth: &Truth, set: Settings, n: &Node) {
    case(|| format!("{} under {set:?}", n.show()));
    set.install();
    let out = format!("{n}");
    c.eval(Some(hash_of(&(n.key(), set))));
    let mut on = [0; 2];
    for start in gen::probe_terms() {
        let (mut t, mut now, mut want) = (start, set, vec![]);
        on = [0; 2];
        n.expect(&mut t, &mut now, truth, &mut want, &mut on);
        // each layer puts back to default what it set
        assert!(start != DEFAULT || t == DEFAULT, "the model is consistent");
        c.judge(judge(&out, start, &want, t).map_err(|e| format!("{} under {set:?}, streams {truth:?}: {e}", n.show())));
    }
    c.count("layers written colored", on[1]);
    c.count("layers written plain", on[0]);
    if on[0] > 0 && on[1] > 0 {
        c.count("values with both colored and plain layers", 1);
    }
    let d = n.depth();
    c.count(if d == 0 { "no layer" } else if d == 1 { "one layer" } else if d < 5 { "2 to 4 layers deep" } else if d < 16 { "5 to 15 layers deep" } else if d < 64 { "16 to 63 layers deep" } else { "64 to 263 layers deep" }, 1);
    if d > 1 && d < 4 {
        c.sample(5, || format!("{} under {set:?} -> {out:?}", n.show()));
    }
}

/// Three typed layers, made with style()/into_style() and the shorthand methods.
struct Typed<'a> {
    c: &'a mut Ctx,
    r: Rng,
    truth: Truth,
}
type Shown<'a> = (Wants, Option<Stream>, &'a str);

fn judge_layers(t: &mut Typed, set: Settings, layers: &[Shown], plain: &str, out: &str, what: &str) {
    let n = layers.iter().rev().fold(Node::Text(plain.to_string()), |n, (w, st, _)| Node::Styled(Style::new().fg(None).bg(None).underline_color(None), *w, *st, 0, Box::new(n)));
    let (mut u, mut now, mut want, mut on) = (DEFAULT, set, vec![], [0; 2]);
    n.expect(&mut u, &mut now, &t.truth, &mut want, &mut on);
    t.c.eval(Some(hash_of(&(n.key(), set, what))));
    t.c.count("typed nestings", 1);
    let truth = t.truth;
    t.c.judge(judge(out, DEFAULT, &want, u).map_err(|e| format!("{what}: {} under {set:?}, streams {truth:?}: {e}", n.show())));
}

fn three<F: Asks, B: Asks, U: Asks>(t: &mut Typed, s: Style<F, B, U>, w: Wants) {
    let set = Settings::random(&mut t.r);
    let st = [0; 3].map(|_| *t.r.pick(&OPT_STREAMS));
    let v = t.r.u64() as u32;
    case(|| format!("{v} in typed layers: bold, {w:?}, red on_blue; streams {st:?}; {set:?}"));
    set.install();
    let bold = Wants { fg: None, bg: None, ul: None, eff: mon::sgr::BOLD };
    let red = Wants { fg: Some(Want::Ansi(1)), bg: Some(Want::Ansi(4)), ul: None, eff: 0 };
    let inner = v.bold().stream_opt(st[0]);
    let mid = StyledValue::new(&inner, s, st[1]);
    let outer = mid.style().red().on_blue().stream_opt(st[2]);
    let layers = [(red, st[2], ""), (w, st[1], ""), (bold, st[0], "")];
    judge_layers(t, set, &layers, &format!("{v}"), &format!("{outer}"), "Display through style()");
    judge_layers(t, set, &layers, &format!("{v:#010x}"), &format!("{outer:#010x}"), "LowerHex through style()");
    judge_layers(t, set, &layers, &format!("{v:+?}"), &format!("{outer:+?}"), "Debug through style()");
    let outer = StyledValue::new(inner, s, st[1]).into_style().red().on_blue().stream_opt(st[2]);
    judge_layers(t, set, &layers, &format!("{v:b}"), &format!("{outer:b}"), "Binary through into_style()");
    judge_layers(t, set, &layers, &format!("{v:#?}"), &format!("{outer:#?}"), "alternate Debug through into_style()");
    judge_layers(t, set, &layers, &format!("{v:>14}"), &format!("{outer:>14}"), "padded Display through into_style()");
    // the wrapper starts with no style and no stream of its own
    let again = outer.into_style();
    let none = Wants { fg: None, bg: None, ul: None, eff: 0 };
    let four = [(none, None, ""), layers[0], layers[1], layers[2]];
    judge_layers(t, set, &four, &format!("{v:o}"), &format!("{again:o}"), "Octal through an added empty layer");
    t.c.expect(again.stream.is_none() && wants(&again.style) == none, || "into_style() of a styled value starts with a style or stream".into());
    let again = again.value.style();
    t.c.expect(again.stream.is_none() && wants(&again.style) == none, || "style() of a styled value starts with a style or stream".into());
}
impl gen::TypedVisitor for Typed<'_> {
    fn visit<F: Asks, B: Asks, U: Asks>(&mut self, fg: F, bg: B, ul: U) {
        let eff = gen::effects(&mut self.r);
        let w = Wants { fg: fg.asks(), bg: bg.asks(), ul: ul.asks(), eff };
        if w.ul == Some(Want::Default) {
            return;
        }
        three(self, Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(eff)), w);
    }
}

fn main() {
    mon::run(
        "C21",
        "random trees of styled values: 1 to 263 layers deep, several styled values and text side by side inside one, runtime styles and a stream for each layer, \
         under every mode and default stream, some changing the settings half-way; every character must be shown with exactly the attributes the layers that are \
         allowed to color give it, and the terminal be left as the model says, from three prior states; typed three-layer values through five formatting traits. \
         Distinct: shape, layers or settings differ",
        |c| {
            let truth = Truth::measure();
            let mut r = c.rng(0xc21);
            c.guard("exhaustive pairs", |c| {
                // every decision pair of two layers, with a sibling
                for set in Settings::all() {
                    for so in OPT_STREAMS {
                        for si in OPT_STREAMS {
                            for _ in 0..c.n(6, 60) {
                                let mut names = Names(0);
                                let (a, wa) = style(&mut r);
                                let (b, wb) = style(&mut r);
                                let inner = Node::Styled(b, wb, si, r.u64(), Box::new(Node::Text(names.text(&mut r))));
                                let n = if r.chance(1, 2) {
                                    inner
                                } else {
                                    Node::Group(vec![Node::Text(names.text(&mut r)), inner, Node::Text(names.text(&mut r))])
                                };
                                one(c, &truth, set, &Node::Styled(a, wa, so, r.u64(), Box::new(n)));
                            }
                            if c.full() {
                                return;
                            }
                        }
                    }
                }
            });
            c.guard("trees", |c| {
                for i in 0..c.n(12_000, 400_000) {
                    let depth = match i % 20 {
                        0 => 40,
                        1..=4 => 12,
                        _ => 2 + i % 4,
                    };
                    let n = node(&mut r, depth, &mut Names(0), i % 5 == 0);
                    let n = if depth >= 12 && n.depth() > 0 || n.depth() > 1 { n } else {
                        let (s, w) = style(&mut r);
                        Node::Styled(s, w, *r.pick(&OPT_STREAMS), r.u64(), Box::new(n))
                    };
                    one(c, &truth, Settings::random(&mut r), &n);
                    if c.full() {
                        return;
                    }
                }
            });
            c.guard("deep", |c| {
                for i in 0..c.n(300, 4_000) {
                    let mut names = Names(0);
                    let mut n = Node::Text(names.text(&mut r));
                    for _ in 0..[17, 33, 66, 130, 260][i as usize % 5] + r.below(4) {
                        if r.chance(1, 4) {
                            n = Node::Group(vec![Node::Text(names.text(&mut r)), n, Node::Text(names.text(&mut r))]);
                        }
                        let (s, w) = style(&mut r);
                        let st = if i % 2 == 0 { Some(Stream::AlwaysColor) } else { *r.pick(&OPT_STREAMS) };
                        n = Node::Styled(s, w, st, r.u64(), Box::new(n));
                    }
                    one(c, &truth, Settings::random(&mut r), &n);
                    if c.full() {
                        return;
                    }
                }
            });
            c.guard("typed", |c| {
                for _ in 0..c.n(2, 60) {
                    let mut t = Typed { r: r.fork(77), c, truth };
                    let mut r2 = r.fork(78);
                    gen::typed_styles(&mut r2, 0, 1, &mut t);
                    r.u64();
                }
            });
            mode::set_coloring_mode(mode::Mode::Detect);
        },
    )
}
