//! Ground truth about the process's streams, from the C library.
extern "C" {
    fn ioctl(fd: i32, req: u64, ...) -> i32;
}

/// Is `fd` a terminal? (TCGETS succeeds only on terminals.)
pub fn is_tty(fd: i32) -> bool {
    let mut buf = [0u8; 256];
    // SAFETY: TCGETS writes a struct termios, smaller than the buffer
    unsafe { ioctl(fd, 0x5401, buf.as_mut_ptr()) == 0 }
}
