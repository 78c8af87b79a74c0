//! The oracle for emitted codes: a small terminal model that interprets SGR sequences
//! (ECMA-48 / xterm). It knows nothing about how colorz builds its text.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Col {
    /// the terminal's default
    Def,
    /// 0-15 by the 30-37/90-97 (40-47/100-107) codes
    Ansi(u8),
    /// 256-color entry
    Idx(u8),
    Rgb(u8, u8, u8),
}

pub const BOLD: u16 = 1 << 0;
pub const DIM: u16 = 1 << 1;
pub const ITALIC: u16 = 1 << 2;
pub const UNDER: u16 = 1 << 3;
pub const DUNDER: u16 = 1 << 4;
pub const BLINK: u16 = 1 << 5;
pub const FBLINK: u16 = 1 << 6;
pub const REV: u16 = 1 << 7;
pub const HIDE: u16 = 1 << 8;
pub const STRIKE: u16 = 1 << 9;
pub const OVER: u16 = 1 << 10;
pub const SUPER: u16 = 1 << 11;
pub const SUB: u16 = 1 << 12;
pub const ALL: u16 = (1 << 13) - 1;

/// attributes that share one clear code
pub const GROUPS: [u16; 9] = [
    BOLD | DIM,
    ITALIC,
    UNDER | DUNDER,
    BLINK | FBLINK,
    REV,
    HIDE,
    STRIKE,
    OVER,
    SUPER | SUB,
];

/// the closure of a set of effects under "shares a clear code with"
pub fn group_closure(e: u16) -> u16 {
    GROUPS.iter().filter(|g| *g & e != 0).fold(0, |a, g| a | g)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Term {
    pub fg: Col,
    pub bg: Col,
    pub ul: Col,
    pub eff: u16,
}

pub const DEFAULT: Term = Term {
    fg: Col::Def,
    bg: Col::Def,
    ul: Col::Def,
    eff: 0,
};

impl Term {
    fn ext(params: &[u32], i: usize) -> Result<(Col, usize), String> {
        let b = |k: usize| -> Result<u8, String> {
            let v = *params
                .get(i + k)
                .ok_or_else(|| format!("truncated extended color in {params:?}"))?;
            u8::try_from(v).map_err(|_| format!("color component {v} out of range in {params:?}"))
        };
        match params.get(i + 1) {
            Some(5) => Ok((Col::Idx(b(2)?), 3)),
            Some(2) => Ok((Col::Rgb(b(2)?, b(3)?, b(4)?), 5)),
            x => Err(format!("unknown extended color selector {x:?} in {params:?}")),
        }
    }

    fn sgr(&mut self, params: &[u32]) -> Result<(), String> {
        let mut i = 0;
        while i < params.len() {
            let mut used = 1;
            match params[i] {
                0 => *self = DEFAULT,
                1 => self.eff |= BOLD,
                2 => self.eff |= DIM,
                3 => self.eff |= ITALIC,
                4 => self.eff |= UNDER,
                5 => self.eff |= BLINK,
                6 => self.eff |= FBLINK,
                7 => self.eff |= REV,
                8 => self.eff |= HIDE,
                9 => self.eff |= STRIKE,
                21 => self.eff |= DUNDER,
                22 => self.eff &= !(BOLD | DIM),
                23 => self.eff &= !ITALIC,
                24 => self.eff &= !(UNDER | DUNDER),
                25 => self.eff &= !(BLINK | FBLINK),
                27 => self.eff &= !REV,
                28 => self.eff &= !HIDE,
                29 => self.eff &= !STRIKE,
                n @ 30..=37 => self.fg = Col::Ansi((n - 30) as u8),
                n @ 90..=97 => self.fg = Col::Ansi((n - 90 + 8) as u8),
                38 => {
                    let (c, n) = Self::ext(params, i)?;
                    self.fg = c;
                    used = n;
                }
                39 => self.fg = Col::Def,
                n @ 40..=47 => self.bg = Col::Ansi((n - 40) as u8),
                n @ 100..=107 => self.bg = Col::Ansi((n - 100 + 8) as u8),
                48 => {
                    let (c, n) = Self::ext(params, i)?;
                    self.bg = c;
                    used = n;
                }
                49 => self.bg = Col::Def,
                53 => self.eff |= OVER,
                55 => self.eff &= !OVER,
                58 => {
                    let (c, n) = Self::ext(params, i)?;
                    self.ul = c;
                    used = n;
                }
                59 => self.ul = Col::Def,
                73 => self.eff |= SUPER,
                74 => self.eff |= SUB,
                75 => self.eff &= !(SUPER | SUB),
                n => return Err(format!("unknown SGR parameter {n} in {params:?}")),
            }
            i += used;
        }
        Ok(())
    }

    /// Interpret text that must consist of SGR sequences only.
    pub fn codes(&mut self, s: &str) -> Result<(), String> {
        let rest = self.feed(s, |c, _| Err(format!("unexpected text {c:?}")));
        rest.map_err(|e| format!("{e} in {s:?}"))
    }

    /// Interpret mixed text and SGR sequences; `on` sees each printed character with the
    /// attributes it is shown with.
    pub fn feed(
        &mut self,
        s: &str,
        mut on: impl FnMut(char, Term) -> Result<(), String>,
    ) -> Result<(), String> {
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() {
            if c != '\x1b' {
                on(c, *self)?;
                continue;
            }
            if it.next() != Some('[') {
                return Err(format!("ESC without [ in {s:?}"));
            }
            let mut params: Vec<u32> = Vec::new();
            let mut cur: Option<u32> = None;
            loop {
                match it.next() {
                    Some(d @ '0'..='9') => {
                        let v = cur.unwrap_or(0) * 10 + (d as u32 - '0' as u32);
                        if v > 9999 {
                            return Err(format!("oversized parameter in {s:?}"));
                        }
                        cur = Some(v);
                    }
                    // a missing parameter is 0
                    Some(';') => params.push(cur.take().unwrap_or(0)),
                    Some('m') => {
                        params.push(cur.take().unwrap_or(0));
                        break;
                    }
                    x => return Err(format!("malformed control sequence ({x:?}) in {s:?}")),
                }
            }
            self.sgr(&params)?;
        }
        Ok(())
    }
}

/// Interpret bare color arguments such as `38;5;1` as if wrapped in ESC [ ... m.
pub fn args(s: &str, t: &mut Term) -> Result<(), String> {
    t.codes(&format!("\x1b[{s}m"))
}
