//! The libc boundary. These definitions take precedence over libc's for everything linked into
//! this binary: the Rust standard library, mio, socket2, tokio, ring, OpenSSL and the code under
//! test. On simulated threads they are served by the simulator, elsewhere they are passed through.
#![allow(clippy::missing_safety_doc)]
use crate::kernel as k;
use crate::sys::*;
use libc::*;

macro_rules! simcall {
    ($sim:expr, $real:expr) => {{
        if enter() {
            let r: i64 = $sim;
            leave();
            if r < 0 {
                set_errno(-r as i32);
                -1
            } else {
                r
            }
        } else {
            $real
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    simcall!(k::sys_socket(d, t, p), sc(SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    simcall!(k::sys_bind(fd, a, l), sc(SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, b: c_int) -> c_int {
    simcall!(k::sys_listen(fd, b), sc(SYS_listen, fd as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    simcall!(
        k::sys_setsockopt(fd, lv, o, v, l),
        sc(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    simcall!(
        k::sys_getsockopt(fd, lv, o, v, l),
        sc(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    simcall!(k::sys_name(fd, a, l, true), sc(SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    simcall!(k::sys_name(fd, a, l, false), sc(SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    simcall!(k::sys_accept(fd, a, l, fl), sc(SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t,
) -> ssize_t {
    simcall!(
        k::sys_recv(fd, b as *mut u8, n, fl),
        sc(SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64)
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    recvfrom(fd, b, n, fl, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t,
) -> ssize_t {
    simcall!(
        k::sys_send(fd, b as *const u8, n, fl),
        sc(SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64)
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    sendto(fd, b, n, fl, std::ptr::null(), 0)
}
unsafe fn iov_read(fd: c_int, iov: *const iovec, n: usize) -> i64 {
    for i in 0..n {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return k::sys_read(fd, v.iov_base as *mut u8, v.iov_len);
        }
    }
    0
}
unsafe fn iov_write(fd: c_int, iov: *const iovec, n: usize) -> i64 {
    let mut all = Vec::new();
    for i in 0..n {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    k::sys_write(fd, all.as_ptr(), all.len())
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    simcall!(iov_read(fd, iov, n as usize), sc(SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    simcall!(iov_write(fd, iov, n as usize), sc(SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
    simcall!(
        {
            let _ = fl;
            iov_read(fd, (*m).msg_iov, (*m).msg_iovlen)
        },
        sc(SYS_recvmsg, fd as i64, m as i64, fl as i64, 0, 0, 0)
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    simcall!(
        {
            let _ = fl;
            iov_write(fd, (*m).msg_iov, (*m).msg_iovlen)
        },
        sc(SYS_sendmsg, fd as i64, m as i64, fl as i64, 0, 0, 0)
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    simcall!(k::sys_read(fd, b as *mut u8, n), sc(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    simcall!(k::sys_write(fd, b as *const u8, n), sc(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    simcall!(k::sys_shutdown(fd, how), sc(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    simcall!(k::sys_close(fd), sc(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    simcall!(k::sys_fcntl(fd, cmd, arg), sc(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() && k::is_sim_fd(fd) {
        return fcntl(fd, F_DUPFD_CLOEXEC, 0);
    }
    sc(SYS_dup, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    simcall!(k::sys_ioctl(fd, req, arg), sc(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    simcall!(k::sys_epoll_create(), sc(SYS_epoll_create1, fl as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    simcall!(
        k::sys_epoll_ctl(ep, op, fd, ev),
        sc(SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, to: c_int) -> c_int {
    simcall!(
        k::sys_epoll_wait(ep, ev, max, to),
        sc(SYS_epoll_wait, ep as i64, ev as i64, max as i64, to as i64, 0, 0)
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, fl: c_int) -> c_int {
    simcall!(k::sys_eventfd(init, fl), sc(SYS_eventfd2, init as i64, fl as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    simcall!(
        k::sys_open(p, fl, mode),
        sc(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if enter() {
        k::sys_clock(id, ts);
        leave();
        return 0;
    }
    if tid() != 0 {
        // simulator code on a simulated thread (TLS clients): simulated time, too
        k::sys_clock(id, ts);
        return 0;
    }
    sc(SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    let r = clock_gettime(CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if tid() != 0 {
        return k::sys_random(b as *mut u8, n) as ssize_t;
    }
    sc(SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    getrandom(b, n, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    simcall!(k::sys_yield(), sc(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    simcall!(k::sys_sleep(CLOCK_MONOTONIC, 0, ts), sc(SYS_nanosleep, ts as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, fl: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if enter() {
        k::sys_sleep(id, fl, ts);
        leave();
        return 0;
    }
    -raw6(SYS_clock_nanosleep, id as i64, fl as i64, ts as i64, rem as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    if n == SYS_futex && active() {
        return simcall!(k::sys_futex(a as usize, b as i32, c as u32, d as *const timespec), unreachable!());
    }
    sc(n, a, b, c, d, e, f)
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type PCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;
type PJoin = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

static mut REAL_CREATE: Option<PCreate> = None;
static mut REAL_JOIN: Option<PJoin> = None;

/// before any simulated thread exists
pub fn init() {
    unsafe {
        let f = dlsym(RTLD_NEXT, c"pthread_create".as_ptr());
        assert!(!f.is_null());
        REAL_CREATE = Some(std::mem::transmute::<*mut c_void, PCreate>(f));
        let f = dlsym(RTLD_NEXT, c"pthread_join".as_ptr());
        assert!(!f.is_null());
        REAL_JOIN = Some(std::mem::transmute::<*mut c_void, PJoin>(f));
    }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut (Start, usize, u32));
        let (start, arg, id) = (b.0, b.1, b.2);
        set_tid(id);
        set_inside(true);
        drop(b);
        k::thread_begin(id);
        set_inside(false);
        let r = start(arg as *mut c_void);
        set_inside(true);
        k::thread_end(id);
        // what follows (destructors of thread-locals) is not simulated
        set_tid(0);
        r
    }
}

/// registers a new simulated thread
pub unsafe fn create_sim(t: *mut pthread_t, at: *const pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    let id = k::thread_new();
    let b = Box::into_raw(Box::new((start, arg as usize, id)));
    let r = REAL_CREATE.unwrap()(t, at, trampoline, b as *mut c_void);
    if r != 0 {
        k::harness_fail("pthread_create failed");
    }
    k::thread_handle(id, *t as u64);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, at: *const pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    if enter() {
        let r = create_sim(t, at, start, arg);
        leave();
        return r;
    }
    if REAL_CREATE.is_none() {
        init();
    }
    REAL_CREATE.unwrap()(t, at, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if enter() {
        k::sys_join(t as u64);
        leave();
    }
    if REAL_JOIN.is_none() {
        init();
    }
    REAL_JOIN.unwrap()(t, r)
}

// Edge callbacks of the instrumented crates under test.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            k::EDGES += 1;
            *p = k::EDGES;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if active() {
        k::edge(*g);
    }
}

// OpenSSL mixes time stamp counters and addresses into its generator; replace it.
#[cfg(feature = "c_openssl")]
mod ossl {
    use libc::*;
    #[repr(C)]
    pub struct RandMethod {
        seed: Option<unsafe extern "C" fn(*const c_void, c_int) -> c_int>,
        bytes: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
        cleanup: Option<unsafe extern "C" fn()>,
        add: Option<unsafe extern "C" fn(*const c_void, c_int, f64) -> c_int>,
        pseudorand: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
        status: Option<unsafe extern "C" fn() -> c_int>,
    }
    extern "C" {
        fn RAND_set_rand_method(m: *const RandMethod) -> c_int;
    }
    unsafe extern "C" fn seed(_: *const c_void, _: c_int) -> c_int {
        1
    }
    unsafe extern "C" fn add(_: *const c_void, _: c_int, _: f64) -> c_int {
        1
    }
    unsafe extern "C" fn bytes(b: *mut u8, n: c_int) -> c_int {
        super::getrandom(b as *mut c_void, n as usize, 0);
        1
    }
    unsafe extern "C" fn status() -> c_int {
        1
    }
    static M: RandMethod =
        RandMethod { seed: Some(seed), bytes: Some(bytes), cleanup: None, add: Some(add), pseudorand: Some(bytes), status: Some(status) };
    pub fn install() {
        unsafe {
            assert_eq!(RAND_set_rand_method(&M), 1);
        }
    }
}
pub fn deterministic_crypto() {
    #[cfg(feature = "c_openssl")]
    ossl::install();
}
