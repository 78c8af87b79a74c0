//! The few system calls the process-level monitors need.
use std::ffi::c_void;
extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

pub struct Child {
    pid: i32,
    fd: i32,
}
#[derive(Debug)]
pub enum Outcome {
    /// what the child wrote
    Said(String),
    Signal(i32, String),
    Hung,
}

/// Run `f` in a forked child (call from a single-threaded process only); `f` returns its report.
pub fn spawn(f: impl FnOnce() -> String) -> Child {
    spawn_fd(|_| f())
}
/// As `spawn`; `f` is told the descriptor its report will be written to.
pub fn spawn_fd(f: impl FnOnce(i32) -> String) -> Child {
    let mut p = [0i32; 2];
    // SAFETY: plain system calls; the child never returns from here
    unsafe {
        assert_eq!(pipe(p.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let s = f(p[1]);
            let b = s.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let n = write(p[1], b[i..].as_ptr().cast(), b.len() - i);
                if n <= 0 {
                    break;
                }
                i += n as usize;
            }
            _exit(0)
        }
        close(p[1]);
        Child { pid, fd: p[0] }
    }
}

impl Child {
    /// Wait for the child's report, at most `ms` without a sign of life.
    pub fn wait(self, ms: i32) -> Outcome {
        let mut out = vec![];
        let mut hung = false;
        // SAFETY: plain system calls on descriptors and a process owned by self
        unsafe {
            loop {
                let mut p = PollFd { fd: self.fd, events: 1, revents: 0 };
                if poll(&mut p, 1, ms) == 0 {
                    hung = true;
                    kill(self.pid, 9);
                    break;
                }
                let mut b = [0u8; 4096];
                let n = read(self.fd, b.as_mut_ptr().cast(), b.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&b[..n as usize]);
            }
            close(self.fd);
            let mut st = 0;
            waitpid(self.pid, &mut st, 0);
            let text = String::from_utf8_lossy(&out).into_owned();
            if hung {
                Outcome::Hung
            } else if st & 0x7f != 0 {
                Outcome::Signal(st & 0x7f, text)
            } else {
                Outcome::Said(text)
            }
        }
    }
}
