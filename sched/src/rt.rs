//! Controlled scheduler: exactly one thread of the process runs at any time, and which one runs
//! next is decided here.  ezk-image is compiled with ThreadSanitizer's instrumentation, whose
//! runtime this file replaces; the calls std and rayon make to create, join, block, wake and yield
//! are interposed.  Nothing is detected here, the instrumentation only provides the points at which
//! another thread may be made to run.
//!
//! Schedules are delay bounded: the default is to let the running thread go on until it blocks,
//! yields or ends, and then to run the next one (by number, cyclically) that can; a delay at a
//! point passes over the thread which would have been next.  Points are numbered; a schedule is
//! the list of the points at which there is a delay.
use std::arch::asm;
use std::cell::Cell;
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{
    AtomicBool, AtomicU32, AtomicU64, AtomicUsize,
    Ordering::{Relaxed, SeqCst},
};

pub const MAX_POINTS: usize = 1 << 14;
pub const MAX_DELAYS: usize = 4;

/// Memory shared between an execution (a child process) and the explorer.
#[repr(C)]
pub struct Shared {
    pub delays: [u32; MAX_DELAYS],
    pub ndelays: u32,
    /// 0 running, then one of the ST_ constants
    pub status: AtomicU32,
    pub points: AtomicU32,
    pub steps: AtomicU64,
    pub switches: AtomicU32,
    pub nresults: AtomicU32,
    /// Hash of the whole schedule
    pub trace: AtomicU32,
    pub results: [AtomicU64; 1024],
    /// Hash of everything scheduled up to each point
    pub hash: [AtomicU32; MAX_POINTS],
    /// Number of other threads that could run, what the point is, and the running thread
    pub kind: [AtomicU32; MAX_POINTS],
}
pub const ST_DONE: u32 = 1;
pub const ST_DEADLOCK: u32 = 2;
pub const ST_LIVELOCK: u32 = 3;
pub const ST_TOO_MANY: u32 = 4;

const MAXT: usize = 64;
const NONE: usize = usize::MAX;
const RUNNABLE: u32 = 1;
const FUTEX: u32 = 2;
const JOIN: u32 = 3;
const FINISHED: u32 = 4;

struct T {
    state: AtomicU32,
    addr: AtomicUsize,
    timed: AtomicBool,
    timed_out: AtomicBool,
    pth: AtomicUsize,
    turn: AtomicU32,
    since: AtomicU64,
}
static TS: [T; MAXT] = [const {
    T {
        state: AtomicU32::new(0),
        addr: AtomicUsize::new(0),
        timed: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        pth: AtomicUsize::new(0),
        turn: AtomicU32::new(0),
        since: AtomicU64::new(0),
    }
}; MAXT];
static N: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static COUNTING: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static STREAK: AtomicU32 = AtomicU32::new(0);
static ROLL: AtomicU32 = AtomicU32::new(0);
static SHARED: AtomicUsize = AtomicUsize::new(0);
static DATA: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
const MAXW: usize = 16;
static WATCH: [[AtomicUsize; 2]; MAXW] = [const { [AtomicUsize::new(0), AtomicUsize::new(0)] }; MAXW];
static NWATCH: AtomicUsize = AtomicUsize::new(0);

thread_local! { static ME: Cell<usize> = const { Cell::new(NONE) } }
fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(NONE)
}
fn shared() -> &'static Shared {
    unsafe { &*(SHARED.load(Relaxed) as *const Shared) }
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: c_long = 202;
fn os_wait(w: &AtomicU32, v: u32) {
    unsafe { raw(SYS_FUTEX, [w.as_ptr() as c_long, 128, v as c_long, 0, 0, 0]) };
}
fn os_wake(w: &AtomicU32) {
    unsafe { raw(SYS_FUTEX, [w.as_ptr() as c_long, 129, 1, 0, 0, 0]) };
}
fn end(status: u32) -> ! {
    shared().trace.store(ROLL.load(Relaxed), SeqCst);
    shared().status.store(status, SeqCst);
    unsafe { raw(231, [0; 6]) };
    unreachable!()
}
pub fn done() -> ! {
    end(ST_DONE)
}

/// Make the calling thread the only one of a controlled process.
pub fn start(s: *const Shared) {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    SHARED.store(s as usize, Relaxed);
    unsafe {
        DATA[0].store(&__data_start as *const u8 as usize, Relaxed);
        DATA[1].store(&_end as *const u8 as usize, Relaxed);
    }
    ME.with(|m| m.set(0));
    TS[0].state.store(RUNNABLE, SeqCst);
    N.store(1, SeqCst);
    ON.store(true, SeqCst);
}
/// Accesses to this memory are points, too.
pub fn watch(r: std::ops::Range<usize>) {
    let n = NWATCH.load(Relaxed);
    if n < MAXW {
        WATCH[n][0].store(r.start, Relaxed);
        WATCH[n][1].store(r.end, Relaxed);
        NWATCH.store(n + 1, Relaxed);
    }
}
/// From here on schedules differ.
pub fn count_points(on: bool) {
    COUNTING.store(on, SeqCst);
}
pub fn controlled() -> usize {
    N.load(Relaxed)
}

fn roll(x: u32) -> u32 {
    let h = (ROLL.load(Relaxed) ^ x).wrapping_mul(0x9E37_79B1).rotate_left(13) ^ 0x5bd1;
    ROLL.store(h, Relaxed);
    h
}

/// Those which can run, in the order of preference; the running thread comes first if it may stay.
fn candidates(me: usize, stay: bool, out: &mut [usize; MAXT]) -> usize {
    let n = N.load(Relaxed);
    let mut c = 0;
    let ready = |i: usize| TS[i].state.load(Relaxed) == RUNNABLE;
    if stay && ready(me) {
        out[c] = me;
        c += 1;
    }
    for k in 1..=n {
        let i = (me + k) % n;
        if ready(i) && !(stay && i == me) {
            out[c] = i;
            c += 1;
        }
    }
    c
}
#[derive(Clone, Copy, PartialEq)]
#[repr(u32)]
pub enum Kind {
    Atomic = 1,
    Static = 2,
    Create = 3,
    Wake = 4,
    Block = 5,
    Join = 6,
    Exit = 7,
    Yield = 8,
    Watched = 9,
}

/// A point at which another thread may run.  `me` may have become unable to run.
fn point(me: usize, kind: Kind) {
    let s = shared();
    let steps = s.steps.load(Relaxed) + 1;
    s.steps.store(steps, Relaxed);
    if steps > 2_000_000 {
        end(ST_LIVELOCK);
    }
    let mut list = [0usize; MAXT];
    // a thread which never blocks nor yields is made to yield from time to time
    let mut stay = kind != Kind::Yield;
    if stay && STREAK.load(Relaxed) > 3000 {
        stay = false;
    }
    let mut n = candidates(me, stay, &mut list);
    if n == 0 {
        // Only the passing of time can help
        for i in 0..N.load(Relaxed) {
            if TS[i].state.load(Relaxed) == FUTEX && TS[i].timed.load(Relaxed) {
                TS[i].timed_out.store(true, Relaxed);
                TS[i].state.store(RUNNABLE, Relaxed);
                list[0] = i;
                n = 1;
                break;
            }
        }
        if n == 0 {
            end(ST_DEADLOCK);
        }
    }
    let mut pick = 0;
    if n > 1 && stay && COUNTING.load(Relaxed) {
        let p = s.points.load(Relaxed);
        if p as usize >= MAX_POINTS {
            end(ST_TOO_MANY);
        }
        s.points.store(p + 1, Relaxed);
        let k = ((n as u32 - 1) << 16) | (kind as u32) << 8 | me as u32;
        let h = roll(k);
        s.hash[p as usize].store(h, Relaxed);
        s.kind[p as usize].store(k, Relaxed);
        pick = s.delays[..s.ndelays as usize].iter().filter(|d| **d == p).count() % n;
    }
    let next = list[pick];
    if next == me {
        STREAK.store(STREAK.load(Relaxed) + 1, Relaxed);
        return;
    }
    STREAK.store(0, Relaxed);
    roll(0x1000_0000 + next as u32);
    s.switches.store(s.switches.load(Relaxed) + 1, Relaxed);
    let finished = TS[me].state.load(Relaxed) == FINISHED;
    TS[next].turn.store(1, SeqCst);
    os_wake(&TS[next].turn);
    if !finished {
        wait_for_turn(me);
    }
}
fn wait_for_turn(me: usize) {
    while TS[me].turn.swap(0, SeqCst) == 0 {
        os_wait(&TS[me].turn, 0);
    }
}

fn active() -> usize {
    if ON.load(Relaxed) {
        me()
    } else {
        NONE
    }
}
#[inline]
fn at(kind: Kind) {
    let m = active();
    if m != NONE {
        point(m, kind)
    }
}

// ---- threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Launch(usize, Start, *mut c_void);

unsafe fn real(name: &std::ffi::CStr, cache: &AtomicUsize) -> usize {
    let mut f = cache.load(Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        assert!(f != 0);
        cache.store(f, Relaxed);
    }
    f
}
extern "C" fn run_thread(p: *mut c_void) -> *mut c_void {
    let Launch(id, f, arg) = *unsafe { Box::from_raw(p as *mut Launch) };
    ME.with(|m| m.set(id));
    wait_for_turn(id);
    let r = f(arg);
    TS[id].state.store(FINISHED, Relaxed);
    for i in 0..N.load(Relaxed) {
        if TS[i].state.load(Relaxed) == JOIN && TS[i].addr.load(Relaxed) == id {
            TS[i].state.store(RUNNABLE, Relaxed);
        }
    }
    ME.with(|m| m.set(NONE));
    point(id, Kind::Exit);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let create: extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> c_int = std::mem::transmute(real(c"pthread_create", &REAL));
    let m = active();
    if m == NONE {
        return create(t, attr, f, arg);
    }
    let id = N.load(Relaxed);
    if id >= MAXT {
        return 11;
    }
    let l = Box::into_raw(Box::new(Launch(id, f, arg)));
    let r = create(t, attr, run_thread, l as *mut c_void);
    if r != 0 {
        drop(Box::from_raw(l));
        return r;
    }
    TS[id].pth.store(*t, Relaxed);
    TS[id].state.store(RUNNABLE, Relaxed);
    N.store(id + 1, Relaxed);
    point(m, Kind::Create);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, ret: *mut *mut c_void) -> c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let join: extern "C" fn(usize, *mut *mut c_void) -> c_int = std::mem::transmute(real(c"pthread_join", &REAL));
    let m = active();
    if m != NONE {
        if let Some(id) = (0..N.load(Relaxed)).find(|i| TS[*i].pth.load(Relaxed) == t) {
            if TS[id].state.load(Relaxed) != FINISHED {
                TS[m].addr.store(id, Relaxed);
                TS[m].state.store(JOIN, Relaxed);
                point(m, Kind::Join);
            }
            TS[id].pth.store(0, Relaxed);
        }
    }
    join(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    at(Kind::Yield);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, _t: *const c_void, _r: *mut c_void) -> c_int {
    at(Kind::Yield);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(_t: *const c_void, _r: *mut c_void) -> c_int {
    at(Kind::Yield);
    0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let fail = |code: i32| {
        *libc::__errno_location() = code;
        -1
    };
    let m = if n == SYS_FUTEX { active() } else { NONE };
    if m != NONE {
        match b & 127 {
            0 | 9 => {
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    return fail(libc::EAGAIN);
                }
                let t = &TS[m];
                t.addr.store(a as usize, Relaxed);
                t.timed.store(d != 0, Relaxed);
                t.timed_out.store(false, Relaxed);
                let now = CLOCK.load(Relaxed) + 1;
                CLOCK.store(now, Relaxed);
                t.since.store(now, Relaxed);
                t.state.store(FUTEX, Relaxed);
                point(m, Kind::Block);
                if t.timed_out.load(Relaxed) {
                    return fail(libc::ETIMEDOUT);
                }
                return 0;
            }
            1 | 10 => {
                let mut woken = 0;
                while woken < c {
                    let first = (0..N.load(Relaxed))
                        .filter(|i| TS[*i].state.load(Relaxed) == FUTEX && TS[*i].addr.load(Relaxed) == a as usize)
                        .min_by_key(|i| TS[*i].since.load(Relaxed));
                    let Some(i) = first else { break };
                    TS[i].state.store(RUNNABLE, Relaxed);
                    woken += 1;
                }
                if woken > 0 {
                    point(m, Kind::Wake);
                }
                return woken;
            }
            _ => {}
        }
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        return fail(-r as i32);
    }
    r
}

// ---- instrumentation

#[inline]
fn access(p: *const c_void) {
    let a = p as usize;
    if a >= DATA[0].load(Relaxed) && a < DATA[1].load(Relaxed) {
        at(Kind::Static);
        return;
    }
    for w in &WATCH[..NWATCH.load(Relaxed)] {
        if a >= w[0].load(Relaxed) && a < w[1].load(Relaxed) {
            at(Kind::Watched);
            return;
        }
    }
}
macro_rules! accesses { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const c_void) { access(p) })* } }
accesses! {
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_read16
    __tsan_unaligned_volatile_write2 __tsan_unaligned_volatile_write4 __tsan_unaligned_volatile_write8 __tsan_unaligned_volatile_write16
    __tsan_vptr_read
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(p: *const c_void, _: *const c_void) {
    access(p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    access(s);
    access(d);
    libc::memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    access(s);
    access(d);
    libc::memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, v: c_int, n: usize) -> *mut c_void {
    access(d);
    libc::memset(d, v, n)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: c_int) {
    at(Kind::Atomic);
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: c_int) {}

macro_rules! atomics {
    ($($A:ident $t:ty: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const std::sync::atomic::$A, _: c_int) -> $t { at(Kind::Atomic); (*p).load(SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const std::sync::atomic::$A, v: $t, _: c_int) { at(Kind::Atomic); (*p).store(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).swap(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_add(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_and(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_or(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const std::sync::atomic::$A, v: $t, _: c_int) -> $t { at(Kind::Atomic); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(p: *const std::sync::atomic::$A, c: *mut $t, v: $t, _: c_int, _: c_int) -> c_int {
            at(Kind::Atomic);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(p: *const std::sync::atomic::$A, c: *mut $t, v: $t, a: c_int, b: c_int) -> c_int { $strong(p, c, v, a, b) }
        #[no_mangle]
        pub unsafe extern "C" fn $val(p: *const std::sync::atomic::$A, c: $t, v: $t, _: c_int, _: c_int) -> $t {
            at(Kind::Atomic);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* }
}
atomics! {
    AtomicU8 u8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    AtomicU16 u16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    AtomicU32 u32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    AtomicU64 u64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
