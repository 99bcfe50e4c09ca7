//! Raw system calls (never intercepted) and the per-thread flags that say who is running.
use core::arch::asm;
use std::cell::Cell;

#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// raw call with libc's error convention
pub unsafe fn conv(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    conv(raw6(n, a, b, c, d, e, f))
}

thread_local! {
    /// 0: not a simulated thread
    static TID: Cell<u32> = const { Cell::new(0) };
    /// inside the simulator
    static IN: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}
pub fn set_tid(n: u32) {
    TID.with(|t| t.set(n))
}
#[inline]
pub fn inside() -> bool {
    IN.with(|t| t.get())
}
pub fn set_inside(b: bool) {
    IN.with(|t| t.set(b))
}
/// A simulated thread running code that is not the simulator's.
#[inline]
pub fn active() -> bool {
    tid() != 0 && !inside()
}
#[inline]
pub fn enter() -> bool {
    if active() {
        set_inside(true);
        true
    } else {
        false
    }
}
#[inline]
pub fn leave() {
    set_inside(false)
}

pub fn gate_wait(g: &std::sync::atomic::AtomicU32) {
    use std::sync::atomic::Ordering::SeqCst;
    while g.compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        unsafe {
            raw6(libc::SYS_futex, g as *const _ as i64, 128 /* WAIT|PRIVATE */, 0, 0, 0, 0);
        }
    }
}
pub fn gate_open(g: &std::sync::atomic::AtomicU32) {
    g.store(1, std::sync::atomic::Ordering::SeqCst);
    unsafe {
        raw6(libc::SYS_futex, g as *const _ as i64, 129 /* WAKE|PRIVATE */, 1, 0, 0, 0);
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let r = unsafe { raw6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        b = &b[r as usize..];
    }
    true
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
