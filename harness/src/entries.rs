// every compile-time color type with all its forms (included by the checks that judge them)
/// everything a compile-time color type says about itself
struct Entry {
    name: String,
    want: Want,
    /// args/escape per position, from the trait's static texts
    fixed: [&'static str; 6],
    /// the same from the type's constants, where it has them
    consts: Vec<(usize, &'static str)>,
    raw_args: Option<&'static str>,
    kind: ColorKind,
    value: Option<Color>,
    into: Color,
    into_opt: Option<Color>,
    forms: Vec<Box<dyn DynColor>>,
    xterm: Vec<Box<dyn DynColor>>,
}

fn entry<T, D>(c: T, want: Want) -> Entry
where
    T: ColorSpec<Dynamic = D> + ComptimeColor + Debug + Into<Color> + Into<Option<Color>> + Into<D> + 'static,
    D: colorz::WriteColor + Debug + Into<Color> + 'static,
{
    let d: D = c.into();
    Entry {
        name: format!("{c:?}"),
        want,
        fixed: [
            c.foreground_args(),
            c.foreground_escape(),
            c.background_args(),
            c.background_escape(),
            c.underline_args(),
            c.underline_escape(),
        ],
        consts: vec![],
        raw_args: None,
        kind: T::KIND,
        value: T::VALUE,
        into: c.into(),
        into_opt: c.into(),
        forms: vec![
            Box::new(c),
            Box::new(c.into_dynamic()),
            Box::new(d),
            Box::new(Into::<Color>::into(c.into_dynamic())),
        ],
        xterm: vec![],
    }
}

fn judge_entry(c: &mut Ctx, e: Entry) {
    case(|| e.name.clone());
    let n = &e.name;
    c.eval(None);
    c.enumerated += 1;
    if let Err(m) = judge_six(e.fixed, e.want) {
        c.violation(format!("{n}: static texts {m}"));
    }
    for (i, t) in &e.consts {
        let mut six = e.fixed;
        six[*i] = t;
        if let Err(m) = judge_six(six, e.want) {
            c.violation(format!("{n}: constant {t:?}: {m}"));
        }
    }
    if let (Some(a), Want::Idx(_) | Want::Rgb(..)) = (e.raw_args, e.want) {
        if let Err(m) = judge_color(&format!("\x1b[38;{a}m"), Layer::Fg, e.want) {
            c.violation(format!("{n}: ARGS {a:?}: {m}"));
        }
    }
    if e.kind != e.want.kind() {
        c.violation(format!("{n}: KIND is {:?}", e.kind));
    }
    for f in &e.forms {
        c.eval(None);
        c.enumerated += 1;
        if let Err(m) = judge_color_value(&**f, e.want) {
            c.violation(format!("{n}: {m}"));
        }
    }
    if let Want::Ansi(i) = e.want {
        for f in &e.xterm {
            c.eval(None);
            c.enumerated += 1;
            if let Err(m) = judge_color_value(&**f, Want::Idx(i)) {
                c.violation(format!("{n}: 256-color equivalent {m}"));
            }
        }
    }
    for (what, v) in [("Color", Some(e.into)), ("Option<Color>", e.into_opt), ("VALUE", e.value)] {
        c.eval(None);
        c.enumerated += 1;
        match v {
            None => c.violation(format!("{n}: {what} is no color")),
            Some(v) => {
                if let Err(m) = judge_color_value(&v, e.want) {
                    c.violation(format!("{n}: {what}: {m}"));
                }
                if v != e.into {
                    c.violation(format!("{n}: {what} {v:?} differs from {:?}", e.into));
                }
                let family = matches!(
                    (v, e.want, e.name.starts_with("Rgb")),
                    (Color::Ansi(_), Want::Ansi(_) | Want::Default, _)
                        | (Color::Xterm(_), Want::Idx(_), _)
                        | (Color::Rgb(_), Want::Rgb(..), true)
                        | (Color::Css(_), Want::Rgb(..), false)
                );
                if !family {
                    c.violation(format!("{n}: {what} is {v:?}, of another palette"));
                }
            }
        }
    }
    c.sample(4, || format!("{n}: {:?}, VALUE {:?}", e.fixed, e.value));
}

macro_rules! full_consts { ($e:ident, $t:ty) => {
    $e.consts = vec![
        (0, <$t>::FOREGROUND_ARGS), (1, <$t>::FOREGROUND_ESCAPE), (2, <$t>::BACKGROUND_ARGS),
        (3, <$t>::BACKGROUND_ESCAPE), (4, <$t>::UNDERLINE_ARGS), (5, <$t>::UNDERLINE_ESCAPE),
    ];
    $e.raw_args = Some(<$t>::ARGS);
    $e.forms.push(Box::new(<$t>::DYNAMIC));
} }
macro_rules! ansi_entries { ($($i:literal $n:ident)*) => { const ANSI_TYPES: &[fn() -> Entry] = &[ $( || {
    let mut e = entry(ansi::$n, Want::Ansi($i));
    e.consts = vec![
        (0, ansi::$n::FOREGROUND_ARGS), (1, ansi::$n::FOREGROUND_ESCAPE),
        (2, ansi::$n::BACKGROUND_ARGS), (3, ansi::$n::BACKGROUND_ESCAPE),
    ];
    e.forms.push(Box::new(ansi::$n::DYNAMIC));
    // its 256-color equivalent, as a type and as a value
    e.xterm = vec![Box::new(ansi::$n::XTERM), Box::new(ansi::$n::DYNAMIC_XTERM), Box::new(xterm::XtermColor::from(ansi::$n::DYNAMIC))];
    e
}, )* ]; } }
mon::for_each_ansi!(ansi_entries);
macro_rules! xterm_entries { ($($i:literal $n:ident)*) => { const XTERM_TYPES: &[fn() -> Entry] = &[ $( || {
    let mut e = entry(xterm::$n, Want::Idx($i));
    full_consts!(e, xterm::$n);
    e
}, )* ]; } }
mon::for_each_xterm!(xterm_entries);
macro_rules! css_entries { ($($n:ident $r:literal $g:literal $b:literal)*) => { const CSS_TYPES: &[fn() -> Entry] = &[ $( || {
    let mut e = entry(css::$n, Want::Rgb($r, $g, $b));
    full_consts!(e, css::$n);
    e.forms.push(Box::new(css::$n::RGB));
    e.forms.push(Box::new(css::$n::DYNAMIC.rgb()));
    e.forms.push(Box::new(RgbColor::from(css::$n::DYNAMIC)));
    e
}, )* ]; } }
mon::for_each_css!(css_entries);

fn rgb_entry<const R: u8, const G: u8, const B: u8>() -> Entry {
    let mut e = entry(Rgb::<R, G, B>, Want::Rgb(R, G, B));
    full_consts!(e, Rgb<R, G, B>);
    e.forms.push(Box::new(RgbColor::from(Rgb::<R, G, B>)));
    e.name = format!("Rgb<{R}, {G}, {B}>");
    e
}
include!("rgb_types.rs");

/// judge them all
fn judge_types(c: &mut Ctx) {
    for (n, types) in [("ansi", ANSI_TYPES), ("xterm", XTERM_TYPES), ("css", CSS_TYPES)] {
        c.guard(n, |c| {
            for f in types {
                judge_entry(c, f());
            }
        });
    }
    c.guard("default color", |c| {
        let mut e = entry(ansi::Default, Want::Default);
        e.forms.push(Box::new(ansi::Default::DYNAMIC));
        judge_entry(c, e);
    });
    c.guard("rgb", |c| {
        for f in RGB_TYPES {
            judge_entry(c, f());
        }
        c.count("compile-time RGB types", RGB_TYPES.len() as u64);
    });
}
