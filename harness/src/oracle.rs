//! Judgements shared by several checks.
use crate::sgr::Term;
use crate::spec::*;
use colorz::{OptionalColor, Style, WriteColor};
use std::fmt::{self, Write};

pub fn apply_text<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: Style<F, B, U>, out: &mut String) {
    out.clear();
    write!(out, "{}", s.apply()).expect("apply to a String");
}
pub fn clear_text<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: Style<F, B, U>, out: &mut String) {
    out.clear();
    write!(out, "{}", s.clear()).expect("clear to a String");
}

/// `codes` must take each probe state where applying `w` takes it.
pub fn judge_apply(codes: &str, w: &Wants, probes: &[Term]) -> Result<(), String> {
    for t in probes {
        let mut u = *t;
        u.codes(codes)?;
        w.check_apply(*t, u).map_err(|e| format!("{e} by {codes:?}"))?;
    }
    Ok(())
}
/// `apply` then `clear` must undo exactly what `w` sets.
pub fn judge_clear(apply: &str, clear: &str, w: &Wants, probes: &[Term]) -> Result<(), String> {
    for t in probes {
        let mut u = *t;
        u.codes(apply)?;
        u.codes(clear)?;
        let want = w.cleared(*t);
        if u != want {
            return Err(format!(
                "apply {apply:?} then clear {clear:?} of {w:?} took the terminal from {t:?} to {u:?}, expected {want:?}"
            ));
        }
    }
    Ok(())
}

/// Split `out` into codes + `plain` + codes where the codes apply and clear `w`.
/// Judged by effect, not by bytes.
pub fn judge_wrapped(out: &str, plain: &str, w: &Wants) -> Result<(), String> {
    let probes = crate::gen::probe_terms();
    let mut last = Err(format!("{out:?} does not contain the plain text {plain:?}"));
    let mut from = 0;
    while let Some(i) = out[from..].find(plain) {
        let i = from + i;
        let (a, b) = (&out[..i], &out[i + plain.len()..]);
        let r = judge_apply(a, w, &probes).and_then(|_| judge_clear(a, b, w, &probes));
        match r {
            Ok(()) => return Ok(()),
            Err(e) => last = Err(format!("{out:?} is not {plain:?} between apply and clear codes: {e}")),
        }
        from = i + 1;
        while from <= out.len() && !out.is_char_boundary(from) {
            from += 1;
        }
        if from > out.len() {
            break;
        }
    }
    last
}

macro_rules! via {
    ($($n:ident $m:ident)*) => { $(
        pub struct $n<C>(pub C);
        impl<C: WriteColor> fmt::Display for $n<C> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.$m(f) }
        }
    )* };
}
via! {
    FgArgs fmt_foreground_args BgArgs fmt_background_args UlArgs fmt_underline_args
    FgEsc fmt_foreground BgEsc fmt_background UlEsc fmt_underline
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layer {
    Fg,
    Bg,
    Ul,
}

/// `codes` must set exactly `layer` to `w`, on every probe state.
pub fn judge_color(codes: &str, layer: Layer, w: Want) -> Result<(), String> {
    for t in crate::gen::probe_terms() {
        let mut u = t;
        u.codes(codes)?;
        let mut want = t;
        let ok = match layer {
            Layer::Fg => {
                want.fg = w.layer();
                u == want
            }
            Layer::Bg => {
                want.bg = w.layer();
                u == want
            }
            Layer::Ul => {
                want.ul = u.ul;
                u == want && w.underline_ok(u.ul)
            }
        };
        if !ok {
            return Err(format!("{codes:?} as {layer:?} of {w:?} took the terminal from {t:?} to {u:?}"));
        }
    }
    Ok(())
}

/// The six texts of a color: args/escape for fg, bg, ul.
pub fn judge_six(six: [&str; 6], w: Want) -> Result<(), String> {
    for (i, layer) in [Layer::Fg, Layer::Bg, Layer::Ul].into_iter().enumerate() {
        let (args, esc) = (six[2 * i], six[2 * i + 1]);
        judge_color(esc, layer, w)?;
        judge_color(&format!("\x1b[{args}m"), layer, w)?;
        if args.contains('\x1b') || args.contains('m') || args.contains('[') {
            return Err(format!("argument form {args:?} of {w:?} contains ESC, [ or m"));
        }
    }
    Ok(())
}

/// A color behind a vtable, so that judging hundreds of color types compiles to little code.
pub trait DynColor: fmt::Debug {
    fn write(&self, which: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn kind(&self) -> colorz::mode::ColorKind;
}
impl<C: WriteColor + fmt::Debug> DynColor for C {
    fn write(&self, which: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match which {
            0 => self.fmt_foreground_args(f),
            1 => self.fmt_foreground(f),
            2 => self.fmt_background_args(f),
            3 => self.fmt_background(f),
            4 => self.fmt_underline_args(f),
            _ => self.fmt_underline(f),
        }
    }
    fn kind(&self) -> colorz::mode::ColorKind {
        self.color_kind()
    }
}
pub struct Text<'a>(pub &'a dyn DynColor, pub usize);
impl fmt::Display for Text<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}

pub fn six_texts(c: &dyn DynColor) -> [String; 6] {
    [0, 1, 2, 3, 4, 5].map(|i| Text(c, i).to_string())
}
pub fn judge_color_value(c: &dyn DynColor, w: Want) -> Result<(), String> {
    let t = six_texts(c);
    judge_six([&t[0], &t[1], &t[2], &t[3], &t[4], &t[5]], w).map_err(|e| format!("{c:?}: {e}"))?;
    if c.kind() != w.kind() {
        return Err(format!("{c:?} reports kind {:?}, expected {:?}", c.kind(), w.kind()));
    }
    Ok(())
}
