//! Which environment variables are asked for: programs that invoke `spy_getenv!` replace the C library's getenv.
use std::ffi::{c_char, CStr};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());
extern "C" {
    static environ: *const *const c_char;
}

/// # Safety
/// as the C library's getenv
pub unsafe fn getenv(name: *const c_char) -> *mut c_char {
    let n = CStr::from_ptr(name).to_bytes();
    if ON.load(Ordering::Relaxed) {
        let s = String::from_utf8_lossy(n).into_owned();
        if let Ok(mut v) = NAMES.lock() {
            if !v.contains(&s) {
                v.push(s);
            }
        }
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && &e[..n.len()] == n && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
/// The names asked for while `f` runs.
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    NAMES.lock().unwrap().clear();
    ON.store(true, Ordering::Relaxed);
    let t = f();
    ON.store(false, Ordering::Relaxed);
    (t, NAMES.lock().unwrap().clone())
}
#[macro_export]
macro_rules! spy_getenv {
    () => {
        /// # Safety
        /// as the C library's getenv
        #[no_mangle]
        pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *mut std::ffi::c_char {
            $crate::spy::getenv(name)
        }
    };
}

/// Values that mean something to programs that look at the environment.
pub const VALUES: [&[u8]; 34] = [
    b"", b"0", b"1", b"2", b"3", b"true", b"false", b"never", b"always", b"auto", b"dumb", b"linux", b"ansi", b"vt100", b"xterm", b"xterm-color", b"xterm-256color", b"xterm-direct",
    b"screen", b"tmux-256color", b"cygwin", b"truecolor", b"24bit", b"C", b"POSIX", b"en_US.UTF-8", b"Apple_Terminal", b"iTerm.app", b"vscode", b"yes", b"no", b"off", b"on", b"\xff",
];
/// Variables that programs that look at the environment look at.
pub const NAMES_IN_USE: [&str; 44] = [
    "NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CLICOLOR", "TERM", "COLORTERM", "CI", "IGNORE_IS_TERMINAL", "TERM_PROGRAM", "TERM_PROGRAM_VERSION", "LC_TERMINAL", "LANG",
    "LC_ALL", "LC_CTYPE", "TMUX", "STY", "WT_SESSION", "VTE_VERSION", "KONSOLE_VERSION", "COLORFGBG", "MSYSTEM", "ConEmuANSI", "ANSICON", "SSH_TTY", "SSH_CONNECTION", "INSIDE_EMACS", "EMACS",
    "GITHUB_ACTIONS", "TEAMCITY_VERSION", "BUILDKITE", "TRAVIS", "GITLAB_CI", "COLUMNS", "LINES", "COLOR", "COLORS", "NOCOLOR", "COLORZ", "COLORZ_MODE", "CARGO_TERM_COLOR", "DEBUG", "PAGER", "NO_UNDERLINE",
];
