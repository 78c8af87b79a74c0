//! A program without the standard library and without an allocator: it has colorz and `core`
//! only, and asks the C library for nothing but `write`.
#![no_std]
#![no_main]
mod ops;
use core::fmt::{self, Write};

#[link(name = "c")]
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

fn all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        // SAFETY: b is a live buffer
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            // SAFETY: ends the process
            unsafe { _exit(77) }
        }
        b = &b[n as usize..];
    }
}

struct Stdout([u8; 4096], usize);
impl Stdout {
    fn flush(&mut self) {
        all(1, &self.0[..self.1]);
        self.1 = 0;
    }
}
impl Write for Stdout {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            if self.1 == self.0.len() {
                self.flush();
            }
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}

struct Stderr;
impl Write for Stderr {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        all(2, s.as_bytes());
        Ok(())
    }
}

#[panic_handler]
fn panic(p: &core::panic::PanicInfo) -> ! {
    let _ = writeln!(Stderr, "{p}");
    // SAFETY: ends the process
    unsafe { _exit(78) }
}

// with the alloc feature a program must name an allocator; this one must never be asked
#[cfg(feature = "f-alloc")]
mod heap {
    struct None;
    // SAFETY: never returns
    unsafe impl core::alloc::GlobalAlloc for None {
        unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
            super::all(2, b"asked for heap memory\n");
            super::_exit(79)
        }
        unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
    }
    #[global_allocator]
    static HEAP: None = None;
}

// referred to by the precompiled core library, never called
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() {}

fn number(p: *const u8) -> u64 {
    let (mut n, mut i) = (0u64, 0);
    loop {
        // SAFETY: a C string
        match unsafe { *p.add(i) } {
            d @ b'0'..=b'9' => n = n * 10 + (d - b'0') as u64,
            _ => return n,
        }
        i += 1;
    }
}

#[no_mangle]
extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    if argc != 3 {
        return 76;
    }
    // SAFETY: argc says there are two arguments
    let (seed, n) = unsafe { (number(*argv.add(1)), number(*argv.add(2))) };
    use colorz::mode::Stream as S;
    let mut o = Stdout([0; 4096], 0);
    let ok = ops::transcript(seed, n, &[S::Stdout, S::Stderr, S::AlwaysColor, S::NeverColor], &mut o).is_ok();
    o.flush();
    !ok as i32
}
