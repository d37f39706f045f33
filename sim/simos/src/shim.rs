//! Link-time interposition of the C library entry points through which Rust's std and the getrandom crate reach the OS.
use super::*;
use libc::{c_int, c_long, c_void, size_t, timespec};

type CreateFn =
    unsafe extern "C" fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

pub fn resolve() {
    unsafe {
        if REAL_CREATE.is_none() {
            let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
            assert!(!p.is_null());
            REAL_CREATE = Some(std::mem::transmute::<*mut c_void, CreateFn>(p));
            let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
            assert!(!p.is_null());
            REAL_JOIN = Some(std::mem::transmute::<*mut c_void, JoinFn>(p));
        }
    }
}

struct Boot {
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = p as *mut Boot;
        let (start, arg, me) = ((*b).start, (*b).arg, (*b).tid);
        TID.with(|t| t.set(me as u32 | GUARD));
        // wait for the baton
        let go = &sim().thr[me].go;
        loop {
            if go.load(Ordering::Acquire) == 1 {
                go.store(0, Ordering::Relaxed);
                break;
            }
            raw_wait(go, 0);
        }
        libc::free(b as *mut c_void);
        libc::pthread_setspecific(KEY, 1 as *mut c_void);
        TID.with(|t| t.set(me as u32));
        start(arg)
    }
}

/// pthread key destructor: runs after all other thread-local destructors; hands the baton over for good
pub extern "C" fn thread_end(_v: *mut c_void) {
    unsafe {
        let t = tid() & !GUARD;
        if t >= MAXT as u32 || !ACTIVE {
            return;
        }
        let s = sim();
        s.thr[t as usize].dtor_round += 1;
        if s.thr[t as usize].dtor_round < 4 {
            libc::pthread_setspecific(KEY, 1 as *mut c_void);
            return;
        }
        TID.with(|c| c.set(t | GUARD));
        s.finish();
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut u64,
    attr: *const c_void,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    resolve();
    if !in_sim() {
        return REAL_CREATE.unwrap()(th, attr, start, arg);
    }
    let _g = Guard::enter();
    let s = sim();
    let t = match s.spawn_slot() {
        Some(t) => t,
        None => return libc::EAGAIN,
    };
    let b = libc::malloc(std::mem::size_of::<Boot>()) as *mut Boot;
    b.write(Boot { start, arg, tid: t });
    let r = REAL_CREATE.unwrap()(th, attr, trampoline, b as *mut c_void);
    if r != 0 {
        s.thr[t].st = St::Free;
        return r;
    }
    s.thr[t].pthread = *th;
    s.last_pc = 0xffff_0010;
    s.sync();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, ret: *mut *mut c_void) -> c_int {
    resolve();
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        if let Some(t) = s.by_pthread(th) {
            s.last_pc = 0xffff_0011;
            s.join(t);
            let r = REAL_JOIN.unwrap()(th, ret);
            s.thr[t].st = St::Free;
            s.thr[t].pthread = 0;
            s.thr[t].dtor_round = 0;
            return r;
        }
    }
    REAL_JOIN.unwrap()(th, ret)
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        unsafe { set_errno(-r as c_int) }
        -1
    } else {
        r as c_long
    }
}

unsafe fn ts_ns(p: *const timespec) -> u64 {
    (*p).tv_sec as u64 * 1_000_000_000 + (*p).tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            let op = b as c_int & 0x7f;
            let _g = Guard::enter();
            let s = sim();
            s.last_pc = 0xffff_0020 + op as usize;
            match op {
                libc::FUTEX_WAIT => {
                    let dl = if d == 0 { None } else { Some(s.now() + ts_ns(d as *const timespec)) };
                    return ret(s.futex_wait(a, c as u32, dl) as isize);
                }
                libc::FUTEX_WAIT_BITSET => {
                    let dl = if d == 0 { None } else { Some(ts_ns(d as *const timespec)) };
                    return ret(s.futex_wait(a, c as u32, dl) as isize);
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return ret(s.futex_wake(a, c as c_int as u32 as usize) as isize);
                }
                _ => {}
            }
        } else if n == libc::SYS_getrandom {
            let _g = Guard::enter();
            let s = sim();
            s.last_pc = 0xffff_0030;
            return ret(s.getrandom(a as *mut u8, b, true));
        } else if n == libc::SYS_sched_yield {
            let _g = Guard::enter();
            sim().do_yield();
            return 0;
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: size_t, flags: u32) -> isize {
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        s.last_pc = 0xffff_0030;
        return ret(s.getrandom(buf, len, false)) as isize;
    }
    ret(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: size_t) -> c_int {
    let mut i = 0;
    while i < len {
        let r = getrandom(buf.add(i), len - i, 0);
        if r > 0 {
            i += r as usize;
        }
    }
    0
}

// The random devices answer with simulated entropy too: descriptors of /dev/urandom and /dev/random opened inside a
// simulation are remembered, and reads of them can be short or interrupted like any other answer.
static mut DEVS: u64 = 0;
unsafe fn is_device(path: *const libc::c_char) -> bool {
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    p == b"/dev/urandom" || p == b"/dev/random"
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let r = raw6(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if in_sim() && (0..64).contains(&r) && is_device(path) {
        DEVS |= 1 << r;
    }
    ret(r) as c_int
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> isize {
    if in_sim() && (0..64).contains(&fd) && DEVS >> fd & 1 == 1 {
        let _g = Guard::enter();
        let s = sim();
        s.last_pc = 0xffff_0031;
        return ret(s.getrandom(buf as *mut u8, len, false)) as isize;
    }
    ret(raw6(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if (0..64).contains(&fd) {
        DEVS &= !(1 << fd);
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        s.last_pc = 0xffff_0040;
        s.do_yield();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if in_sim() {
        let _g = Guard::enter();
        let ns = sim().clock();
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut t: timespec = std::mem::zeroed();
    clock_gettime(0, &mut t);
    (*tv).tv_sec = t.tv_sec;
    (*tv).tv_usec = t.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t: timespec = std::mem::zeroed();
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = t.tv_sec;
    }
    t.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        let until = s.now() + ts_ns(req);
        s.sleep(until);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        let until = if flags & libc::TIMER_ABSTIME != 0 { ts_ns(req) } else { s.now() + ts_ns(req) };
        s.sleep(until);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: size_t, mask: *mut u8) -> c_int {
    if in_sim() {
        std::ptr::write_bytes(mask, 0, size);
        let n = (sim().cfg.ncpu as usize).min(size * 8);
        for i in 0..n {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw6(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        ret(r) as c_int
    } else {
        std::ptr::write_bytes(mask.add(r as usize), 0, size.saturating_sub(r as usize));
        0
    }
}
