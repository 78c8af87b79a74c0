//! Formatters with every combination of formatting options.
use std::fmt::{self, Formatter};

/// Runs the closure with whatever formatter it is given.
pub struct Via<'a>(pub &'a dyn Fn(&mut Formatter<'_>) -> fmt::Result);
impl fmt::Display for Via<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
impl fmt::Debug for Via<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}

pub type Spec = (&'static str, fn(&mut dyn fmt::Write, Via<'_>, usize, usize) -> fmt::Result);

/// Widths (or precisions) of all sizes, mostly small.
pub fn size(r: &mut crate::Rng) -> usize {
    match r.below(200) {
        0..=139 => r.idx(24),
        140..=189 => r.idx(130),
        190..=194 => 1usize << r.below(10),
        195..=198 => r.idx(1000),
        _ => r.idx(5000),
    }
}

macro_rules! one {
    ($fill:literal $sign:literal $alt:literal $zero:literal none none $ty:literal) => {
        (concat!("{:", $fill, $sign, $alt, $zero, $ty, "}"), |o, v, _, _| write!(o, concat!("{:", $fill, $sign, $alt, $zero, $ty, "}"), v))
    };
    ($fill:literal $sign:literal $alt:literal $zero:literal width none $ty:literal) => {
        (concat!("{:", $fill, $sign, $alt, $zero, "w$", $ty, "}"), |o, v, w, _| write!(o, concat!("{:", $fill, $sign, $alt, $zero, "1$", $ty, "}"), v, w))
    };
    ($fill:literal $sign:literal $alt:literal $zero:literal none prec $ty:literal) => {
        (concat!("{:", $fill, $sign, $alt, $zero, ".p$", $ty, "}"), |o, v, _, p| write!(o, concat!("{:", $fill, $sign, $alt, $zero, ".1$", $ty, "}"), v, p))
    };
    ($fill:literal $sign:literal $alt:literal $zero:literal width prec $ty:literal) => {
        (concat!("{:", $fill, $sign, $alt, $zero, "w$.p$", $ty, "}"), |o, v, w, p| write!(o, concat!("{:", $fill, $sign, $alt, $zero, "1$.2$", $ty, "}"), v, w, p))
    };
}
macro_rules! table {
    // cross products, innermost first
    (@ty $v:ident $f:literal $s:literal $a:literal $z:literal $w:ident $p:ident) => {
        $v.push(one!($f $s $a $z $w $p ""));
        $v.push(one!($f $s $a $z $w $p "?"));
        $v.push(one!($f $s $a $z $w $p "x?"));
        $v.push(one!($f $s $a $z $w $p "X?"));
    };
    (@p $v:ident $f:literal $s:literal $a:literal $z:literal $w:ident) => {
        table!(@ty $v $f $s $a $z $w none);
        table!(@ty $v $f $s $a $z $w prec);
    };
    (@w $v:ident $f:literal $s:literal $a:literal $z:literal) => {
        table!(@p $v $f $s $a $z none);
        table!(@p $v $f $s $a $z width);
    };
    (@z $v:ident $f:literal $s:literal $a:literal) => { table!(@w $v $f $s $a ""); table!(@w $v $f $s $a "0"); };
    (@a $v:ident $f:literal $s:literal) => { table!(@z $v $f $s ""); table!(@z $v $f $s "#"); };
    (@s $v:ident $f:literal) => { table!(@a $v $f ""); table!(@a $v $f "+"); table!(@a $v $f "-"); };
    ($($name:ident $f:literal)*) => {
        $( #[inline(never)] fn $name() -> Vec<Spec> { let mut v: Vec<Spec> = Vec::new(); table!(@s v $f); v } )*
        /// every combination of fill/align, sign, #, 0, width, precision and debug-hex
        pub fn all() -> Vec<Spec> { let mut v = Vec::new(); $( v.extend($name()); )* v }
    };
}
table! { plain "" left "<" center "^" right ">" star "*<" accent "\u{e9}^" zero "0>" esc "\u{1b}<" }

/// Text that is the same under every trait and with all options.
pub struct Same<'a>(pub &'a str);
/// Implements all nine formatting traits by one closure-like method `show`.
#[macro_export]
macro_rules! all_traits {
    ($t:ty, $self:ident, $f:ident, $e:expr) => {
        $crate::all_traits!(@ $t, $self, $f, $e, Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex);
    };
    (@ $t:ty, $self:ident, $f:ident, $e:expr, $($tr:ident)*) => { $(
        impl ::std::fmt::$tr for $t {
            fn fmt(&$self, $f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                $e
            }
        }
    )* };
}
all_traits!(Same<'_>, self, f, f.write_str(self.0));

/// Ways of writing one value that implements all traits.
pub const FORMS: [&str; 16] = [
    "{}", "{:?}", "{:b}", "{:o}", "{:p}", "{:e}", "{:E}", "{:x}", "{:X}", "{:#?}", "{:>12}", "{:#010x}", "{:*^30.2?}", "{:+.3e}", "{:x?}", "{:#b}",
];
/// Write `v` in form number `k` of FORMS.
#[macro_export]
macro_rules! write_form {
    ($o:expr, $v:expr, $k:expr) => {
        match $k as u64 % 16 {
            0 => write!($o, "{}", $v),
            1 => write!($o, "{:?}", $v),
            2 => write!($o, "{:b}", $v),
            3 => write!($o, "{:o}", $v),
            4 => write!($o, "{:p}", $v),
            5 => write!($o, "{:e}", $v),
            6 => write!($o, "{:E}", $v),
            7 => write!($o, "{:x}", $v),
            8 => write!($o, "{:X}", $v),
            9 => write!($o, "{:#?}", $v),
            10 => write!($o, "{:>12}", $v),
            11 => write!($o, "{:#010x}", $v),
            12 => write!($o, "{:*^30.2?}", $v),
            13 => write!($o, "{:+.3e}", $v),
            14 => write!($o, "{:x?}", $v),
            _ => write!($o, "{:#b}", $v),
        }
    };
}
