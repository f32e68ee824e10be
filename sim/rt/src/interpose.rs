//! OS calls that std (and anything else linked in) makes, answered by the simulator
//! while a run is active; and crash handlers.
use crate::*;
use crate::sys::*;

type UcWord = i64;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const u64, f: unsafe extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    if !G.active {
        if REAL_CREATE.is_none() {
            REAL_CREATE = Some(core::mem::transmute(dlsym(-1isize as *mut u8, c"pthread_create".as_ptr() as *const u8)));
        }
        return (REAL_CREATE.unwrap())(out, attr, f, arg);
    }
    sync_point();
    let lib = cur().inlib;
    if lib {
        G.spawn_no += 1;
        for i in 0..G.nspawn_fail {
            if fails(G.spawn_fail[i], G.spawn_no) {
                G.spawn_failed += 1;
                count(Ctr::FSpawnFail);
                tr!("thread start #{} refused (fault)", G.spawn_no);
                return 11; // EAGAIN
            }
        }
    }
    match spawn_thread(f, arg, lib) {
        Ok(tid) => {
            *out = TH[tid].pthread;
            if lib { G.lib_threads_live += 1; count(Ctr::ThreadsCreated); }
            tr!("creates thread t{}", tid);
            sync_point();
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: u64, ret: *mut *mut u8) -> i32 {
    if G.active {
        for i in 0..G.nth {
            if TH[i].pthread == h && i != 0 { join_tid(i); break; }
        }
    }
    (REAL_JOIN.unwrap())(h, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if G.active { yield_point(); 0 } else { raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32 }
}
unsafe fn now() -> u64 { 1_000_000_000 + gstep().saturating_mul(G.clk) + G.clk_off }
/// Time has come to a deadline on the monotonic clock.
unsafe fn until(ts: *const i64) {
    let (t, n) = ((*ts as u64).min(1 << 33) * 1_000_000_000 + *ts.add(1) as u64, now());
    if t > n { G.clk_off += t - n; }
}
/// Sleeping lets others run and time pass.
unsafe fn nap(ts: *const i64) {
    if !ts.is_null() { G.clk_off += (*ts as u64).min(1 << 20).saturating_mul(1_000_000_000) + *ts.add(1) as u64; }
    yield_point();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> i32 {
    if G.active { nap(a); 0 } else { raw(35, a as usize, b as usize, 0, 0, 0, 0) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const i64, b: *mut i64) -> i32 {
    if G.active { if f & 1 == 0 { nap(a) } else { until(a); yield_point() } 0 } else { -raw(230, c as usize, f as usize, a as usize, b as usize, 0, 0) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, ts: *mut i64) -> i32 {
    if G.active && cur().inlib {
        // simulated time: a plan-chosen number of nanoseconds per step, plus what was slept
        let mut g = now();
        count(Ctr::ClockReads);
        // the wall clock jumps, by days and in both directions
        if c == 0 { g += 1_700_000_000_000_000_000 + rng::hash64(G.pol.seed, G.clk_off ^ gstep() >> 12) % 200_000_000_000_000; }
        *ts = (g / 1_000_000_000) as i64;
        *ts.add(1) = (g % 1_000_000_000) as i64;
        return 0;
    }
    raw(228, c as usize, ts as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, f: u32) -> isize {
    if G.active {
        for i in 0..n { *p.add(i) = rng::hash64(G.pol.seed, i as u64) as u8; }
        return n as isize;
    }
    raw(SYS_GETRANDOM, p as usize, n, f as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32 {
    if G.active {
        core::ptr::write_bytes(mask as *mut u8, 0, n);
        let k = (2 * G.ncpu).min(n * 8).min(64);
        *mask = if k >= 64 { u64::MAX } else { (1u64 << k) - 1 };
        return 0;
    }
    let r = raw(204, pid as usize, n, mask as usize, 0, 0, 0);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if G.active && n as usize == SYS_FUTEX {
        let r = sim_futex(a, b & 0x7f, c, d);
        if r < 0 { *__errno_location() = -r as i32; return -1; }
        return r as i64;
    }
    if G.active && n as usize == SYS_GETRANDOM { return getrandom(a as *mut u8, b, c as u32) as i64; }
    let r = raw(n as usize, a, b, c, d, e, f);
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r as i64 }
}
unsafe fn sim_futex(addr: usize, op: usize, val: usize, timeout: usize) -> isize {
    match op {
        0 | 9 => {
            sync_point();
            // code inside std is not instrumented: whoever comes back from a wait is ordered
            // after everything that happened so far
            if *(addr as *const u32) != val as u32 { vc_acquire_all(); return -11; }
            let woken = block_on(On::Futex(addr), timeout != 0);
            vc_acquire_all();
            if !woken && timeout != 0 { if op == 9 { until(timeout as *const i64) } else { nap(timeout as *const i64) } }
            if woken { 0 } else { -110 }
        }
        1 | 10 => {
            sync_point();
            // std's own unlock/unpark orders the waker before whoever observes the new value;
            // the clocks of its atomics are not tracked, so publish here.
            wake(On::Futex(addr), val) as isize
        }
        _ => -38,
    }
}

// ---------------------------------------------------------------- crashes
pub fn init() {}
static mut MAIN_ALT: [u8; 65536] = [0; 65536];
pub unsafe fn install_handlers() {
    let ss = StackT { sp: (&raw mut MAIN_ALT) as *mut u8, flags: 0, size: 65536 };
    sigaltstack(&ss, core::ptr::null_mut());
    for s in [4, 6, 7, 8, 11] {
        let sa = SigAction { handler: on_crash as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000 | 0x4000_0000u32 as i32, restorer: 0 };
        sigaction(s, &sa, core::ptr::null_mut());
    }
    let sa = SigAction { handler: on_tick as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
    sigaction(27, &sa, core::ptr::null_mut());
}
static mut LAST_STEP: u64 = u64::MAX;
static mut SAME: u32 = 0;
/// CPU-time watchdog (ITIMER_PROF): the process burns CPU without a single simulated step.
unsafe extern "C" fn on_tick(_s: i32) {
    if !G.active { SAME = 0; return; }
    let s = gstep();
    if s == LAST_STEP { SAME += 1; } else { SAME = 0; LAST_STEP = s; }
    if SAME >= 20 && G.cur != core::ptr::null_mut() && (*G.cur).inlib {
        violation(LIVELOCK, format_args!("the library burns CPU time without making any memory access or synchronisation step (step {})", s));
        end_run_unfinished();
    }
}
unsafe extern "C" fn on_crash(sig: i32, info: *const i32, uc: *const UcWord) {
    if (*rep()).status != 0 { exit_now(12); }
    let addr = *((info as usize + 16) as *const usize);
    // ucontext: gregs start at word 5; RIP=16, ERR=19
    let rip = *uc.add(5 + 16) as usize;
    let err = *uc.add(5 + 19) as usize;
    if !G.active { harness_error(format_args!("signal {} outside a run at {:#x} rip {:#x}", sig, addr, rip.wrapping_sub(G.exe_base))); }
    if sig == 6 && G.alloc_failed > 0 && cur().inlib {
        // the standard reaction to a refused allocation
        count(Ctr::Refused);
        tr!("process aborts after the refused allocation");
        if let Some(f) = G.on_refuse { f(); }
        event(0xAB047);
        end_run_unfinished();
    }
    let t = cur();
    let off = addr.wrapping_sub(ARENA);
    let at = rip.wrapping_sub(G.exe_base);
    if sig == 11 && off < OPS_LEN && t.inlib {
        let w = err & 2 != 0;
        violation(if w { OOB_W } else { OOB_R }, format_args!("t{} (call {}) {} unmapped memory next to an operand (offset {:#x}); code at +{:#x}", t.tid, t.call, if w { "writes" } else { "reads" }, off, at));
    }
    let name = match sig { 4 => "SIGILL", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE", _ => "SIGSEGV" };
    if t.inlib {
        violation(CRASH, format_args!("{} in call {} (t{}), address {:#x}, code at +{:#x}", name, t.call, t.tid, addr, at));
        end_run_unfinished();
    }
    // the simulator itself does not crash on a sound library: memory was corrupted
    violation(CRASH, format_args!("{} outside the library after calls were made (t{}), address {:#x}, code at +{:#x}", name, t.tid, addr, at));
    harness_error(format_args!("{} in harness code t{} address {:#x} rip +{:#x}", name, t.tid, addr, at));
}
/// std insists on a guard page; the simulated stacks have one, but not of pthread's making.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const u64, n: *mut usize) -> i32 { *n = 4096; 0 }

// ---------------------------------------------------------------- std's own waiting
// (trampolines: harness/build.rs)
/// A blocking call into std is over; what it saw inside is not known.
#[no_mangle]
pub unsafe extern "C" fn gsim_std_returns() {
    if in_library() { vc_acquire_all(); }
}
/// The mutex at `addr` is about to be released inside std.
#[no_mangle]
pub unsafe extern "C" fn gsim_std_releases(addr: usize) {
    if in_library() { crate::sync::after(addr, 3, crate::sync::Op::Store); }
}
