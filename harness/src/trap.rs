//! Every system call but a few harmless ones is recorded and refused (seccomp, SIGSYS).
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn prctl(op: i32, ...) -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Insn {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    insns: *const Insn,
}

pub const MAX: usize = 64;
pub static SEEN: AtomicUsize = AtomicUsize::new(0);
static CALLS: [[AtomicU64; 4]; MAX] = [const { [const { AtomicU64::new(0) }; 4] }; MAX];

/// the first recorded calls: number and three arguments
pub fn calls() -> Vec<[u64; 4]> {
    (0..SEEN.load(SeqCst).min(MAX)).map(|i| std::array::from_fn(|k| CALLS[i][k].load(SeqCst))).collect()
}

// general registers of the x86-64 ucontext_t, in the kernel's order
const RDX: usize = 12;
const RAX: usize = 13;
const RSI: usize = 9;
const RDI: usize = 8;
unsafe extern "C" fn refuse(_: i32, _: *mut c_void, ctx: *mut c_void) {
    // uc_flags, uc_link, uc_stack (3 words), then the registers
    let regs = (ctx as *mut i64).add(5);
    let i = SEEN.fetch_add(1, SeqCst);
    if i < MAX {
        for (k, r) in [RAX, RDI, RSI, RDX].into_iter().enumerate() {
            CALLS[i][k].store(*regs.add(r) as u64, SeqCst);
        }
    }
    *regs.add(RAX) = -1; // EPERM
}

/// What may be done unnoticed: memory, waiting, time, ending, and asking a terminal about itself.
const FREE: [u32; 22] = [
    9, 10, 11, 12, 25, 28, // mmap mprotect munmap brk mremap madvise
    202, 24, 35, 230, // futex sched_yield nanosleep clock_nanosleep
    228, 96, 201, // clock_gettime gettimeofday time
    15, 14, 131, // rt_sigreturn rt_sigprocmask sigaltstack
    60, 231, // exit exit_group
    318, // getrandom
    39, 186, 334, // getpid gettid rseq
];
/// ioctl requests that only ask: TCGETS TIOCGPGRP TIOCGWINSZ TIOCGSID
const ASK: [u32; 4] = [0x5401, 0x540f, 0x5413, 0x5429];
/// From now on this thread (and any it starts) is confined; `report` may be written to.
pub fn close_in(report: i32) -> bool {
    let (ld, jeq, ret) = (0x20u16, 0x15u16, 0x06u16);
    let (allow, trap) = (0x7fff_0000u32, 0x0003_0000u32);
    let mut p: Vec<Insn> = vec![];
    let i = |code, jt, jf, k| Insn { code, jt, jf, k };
    p.push(i(ld, 0, 0, 0));
    for n in FREE {
        p.push(i(jeq, 0, 1, n));
        p.push(i(ret, 0, 0, allow));
    }
    // write to the report
    p.push(i(jeq, 0, 3, 1));
    p.push(i(ld, 0, 0, 16));
    p.push(i(jeq, 0, 3 + 2 * ASK.len() as u8, report as u32));
    p.push(i(ret, 0, 0, allow));
    // ioctl
    p.push(i(jeq, 0, 1 + 2 * ASK.len() as u8, 16));
    p.push(i(ld, 0, 0, 24));
    for a in ASK {
        p.push(i(jeq, 0, 1, a));
        p.push(i(ret, 0, 0, allow));
    }
    p.push(i(ret, 0, 0, trap));
    let prog = Prog { len: p.len() as u16, insns: p.as_ptr() };
    let sa = SigAction { handler: refuse as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
    // SAFETY: plain system calls; the handler only touches atomics and the saved registers
    unsafe { sigaction(31, &sa, std::ptr::null_mut()) == 0 && prctl(38, 1u64, 0u64, 0u64, 0u64) == 0 && prctl(22, 2u64, &prog as *const Prog) == 0 }
}

pub fn name(nr: u64) -> String {
    let n = match nr {
        0 => "read",
        1 => "write",
        2 => "open",
        3 => "close",
        4 | 5 | 262 | 332 => "stat",
        7 => "poll",
        13 => "rt_sigaction",
        16 => "ioctl",
        20 => "writev",
        21 | 269 | 439 => "access",
        32 | 33 | 292 => "dup",
        41 => "socket",
        42 => "connect",
        56 | 435 => "clone",
        57 | 58 => "fork",
        59 => "execve",
        62 | 200 | 234 => "kill",
        72 => "fcntl",
        83 => "mkdir",
        87 | 263 => "unlink",
        89 | 267 => "readlink",
        157 => "prctl",
        257 => "openat",
        _ => "",
    };
    format!("{n}({nr})")
}
