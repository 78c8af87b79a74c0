//! The documented coloring decision as a sequential model.
use colorz::mode::{ColorKind, Mode, Stream};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Settings {
    pub mode: Mode2,
    pub default: Stream,
}

/// Mode with Hash
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode2 {
    Detect,
    Always,
    Never,
}
pub const MODES: [Mode2; 3] = [Mode2::Detect, Mode2::Always, Mode2::Never];
pub const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
pub const OPT_STREAMS: [Option<Stream>; 5] = [
    None,
    Some(Stream::Stdout),
    Some(Stream::Stderr),
    Some(Stream::AlwaysColor),
    Some(Stream::NeverColor),
];
pub const KINDS: [ColorKind; 4] = [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor];

impl Mode2 {
    pub fn real(self) -> Mode {
        match self {
            Mode2::Detect => Mode::Detect,
            Mode2::Always => Mode::Always,
            Mode2::Never => Mode::Never,
        }
    }
    pub fn of(m: Mode) -> Self {
        match m {
            Mode::Detect => Mode2::Detect,
            Mode::Always => Mode2::Always,
            Mode::Never => Mode2::Never,
        }
    }
}

pub const INITIAL: Settings = Settings { mode: Mode2::Detect, default: Stream::AlwaysColor };

/// What a stream supports, measured independently of colorz.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Support {
    pub ansi: bool,
    pub xterm: bool,
    pub rgb: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Truth {
    pub stdout: Support,
    pub stderr: Support,
}

const ALL: Support = Support { ansi: true, xterm: true, rgb: true };
const NONE: Support = Support { ansi: false, xterm: false, rgb: false };

impl Truth {
    /// Measure with this process's streams and environment, for this feature set.
    pub fn measure() -> Truth {
        #[cfg(feature = "f-sc")]
        {
            let on = |s| {
                supports_color::on(s).map_or(NONE, |l| Support { ansi: l.has_basic, xterm: l.has_256, rgb: l.has_16m })
            };
            return Truth { stdout: on(supports_color::Stream::Stdout), stderr: on(supports_color::Stream::Stderr) };
        }
        #[cfg(not(feature = "f-sc"))]
        {
            if crate::STD {
                let f = |fd| if crate::hooks::is_tty(fd) { ALL } else { NONE };
                Truth { stdout: f(1), stderr: f(2) }
            } else {
                Truth { stdout: ALL, stderr: ALL }
            }
        }
    }
    pub fn allows(&self, stdout: bool, kinds: &[ColorKind]) -> bool {
        let _ = ALL;
        let s = if stdout { self.stdout } else { self.stderr };
        if !(s.ansi || s.xterm || s.rgb) {
            return false;
        }
        kinds.iter().all(|k| match k {
            ColorKind::Ansi => s.ansi,
            ColorKind::Xterm => s.xterm,
            ColorKind::Rgb => s.rgb,
            _ => true,
        })
    }
}

impl Settings {
    pub fn decide(&self, truth: &Truth, stream: Option<Stream>, kinds: &[ColorKind]) -> bool {
        if crate::STRIP {
            return false;
        }
        match self.mode {
            Mode2::Always => return true,
            Mode2::Never => return false,
            Mode2::Detect => {}
        }
        match stream.unwrap_or(self.default) {
            Stream::AlwaysColor => true,
            Stream::NeverColor => false,
            Stream::Stdout => truth.allows(true, kinds),
            Stream::Stderr => truth.allows(false, kinds),
            s => panic!("unknown stream {s:?}"),
        }
    }
    pub fn install(&self) {
        colorz::mode::set_coloring_mode(self.mode.real());
        colorz::mode::set_default_stream(self.default);
    }
    pub fn random(r: &mut crate::Rng) -> Self {
        Settings { mode: *r.pick(&MODES), default: *r.pick(&STREAMS) }
    }
    pub fn all() -> Vec<Settings> {
        MODES.iter().flat_map(|m| STREAMS.iter().map(|s| Settings { mode: *m, default: *s })).collect()
    }
}
