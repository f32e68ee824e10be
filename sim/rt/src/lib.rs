//! gemmsim runtime: a deterministic simulator for one process.
//!
//! Threads are real OS threads of which exactly one (the one holding the baton)
//! runs.  Every memory access of the instrumented library, every operation on a
//! simulated synchronisation primitive and every intercepted OS call is a
//! scheduling point at which a seeded policy (or a recorded schedule) decides
//! who runs next.  Nothing here reads a clock or any other source of chance.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]
pub mod rng;
pub mod sys;
pub mod mem;
pub mod callbacks;
pub mod sync;
pub mod interpose;

use core::sync::atomic::{AtomicU32, Ordering};
use rng::Rng;
use std::fmt::Write;

// ---------------------------------------------------------------- layout
pub const ARENA: usize = 0x1000_0000_0000;
pub const OPS: usize = ARENA;
pub const OPS_LEN: usize = 64 << 20;
pub const HEAP: usize = OPS + OPS_LEN;
pub const HEAP_LEN: usize = 192 << 20;
pub const STK: usize = HEAP + HEAP_LEN;
pub const SLOT: usize = 256 << 10;
pub const MAXT: usize = 48;
pub const STK_LEN: usize = SLOT * MAXT;
pub const ARENA_LEN: usize = OPS_LEN + HEAP_LEN + STK_LEN;
pub const SHADOW: usize = 0x2000_0000_0000;
pub const SHADOW_LEN: usize = ARENA_LEN * 4;
pub const ATTR_RD: usize = 0x3000_0000_0000;
pub const ATTR_WR: usize = 0x3100_0000_0000;
pub const HEAPST: usize = 0x3200_0000_0000;
pub const REPORT: usize = 0x3300_0000_0000;
/// shadow of the program's static variables (directly behind the arena's shadow)
pub const STATICS_LEN: usize = 8 << 20;
pub const MAXCALLS: usize = 31; // bit 31 of the attribute masks is the harness' own

// ---------------------------------------------------------------- violation classes
macro_rules! classes { ($($n:ident = $v:expr, $s:expr;)*) => {
    $(pub const $n: u32 = $v;)*
    pub fn class_name(c: u32) -> &'static str { match c { $($v => $s,)* _ => "?" } }
    pub fn class_by_name(s: &str) -> Option<u32> { $(if s == $s { return Some($v); })* None }
} }
classes! {
    WRONG = 1, "wrong-result";
    RACE = 2, "data-race";
    OOB_W = 3, "write-outside-destination";
    OOB_R = 4, "read-outside-operands";
    LATE = 5, "access-after-return";
    C_READ = 6, "reads-C-with-beta-0";
    HEAP_BAD = 7, "bad-scratch-access";
    CRASH = 8, "crash";
    PANIC = 9, "panic";
    HANG = 10, "deadlock";
    LIVELOCK = 11, "no-progress";
    LEAK = 12, "leak";
    LAYOUT = 13, "bad-release";
    SCRATCH = 14, "scratch-too-large";
    THREADS = 15, "too-many-threads";
    CLOBBER = 16, "memory-outside-C-changed";
    BITDIFF = 17, "not-bitwise-equal";
    INSN = 18, "unsupported-instruction";
    REFUSAL = 19, "touched-before-refusal";
    NANLEAK = 20, "depends-on-other-elements";
    POISON = 21, "fails-after-earlier-failure";
}

// ---------------------------------------------------------------- report (shared with the parent)
pub const NSCHED: usize = 1 << 17;
pub const TRACE_LEN: usize = 1 << 20;
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Dec { pub lstep: u64, pub tid: u16, pub to: u16, pub why: u32 }
#[repr(C)]
pub struct Report {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub class: u32,
    pub msg_len: u32,
    pub sched_overflow: u32,
    pub nsched: u32,
    pub trace_len: u32,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub hash: u64,
    pub ileave: u64,
    pub counters: [u64; NCOUNT],
    pub out_hash: [u64; 32],
    pub call_state: [u32; 32], // 0 not started, 1 in progress, 2 returned, 3 panicked
    pub msg: [u8; 2048],
    pub sched: [Dec; NSCHED],
    pub trace: [u8; TRACE_LEN],
}
macro_rules! counters { ($($n:ident = $s:expr;)*) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[repr(usize)] pub enum Ctr { $($n,)* }
    pub const NCOUNT: usize = [$($s,)*].len();
    pub const COUNTER_NAMES: [&str; NCOUNT] = [$($s,)*];
} }
counters! {
    Calls = "calls_returned";
    CallsPanicked = "calls_panicked";
    Refused = "runs_ended_by_allocation_failure";
    ParCalls = "calls_using_several_threads";
    Par4Calls = "calls_using_four_threads";
    ConcCalls = "calls_overlapping_another_call";
    FAllocFail = "fault_allocation_refused";
    FSpawnFail = "fault_thread_start_refused";
    FStall = "fault_thread_stalled";
    FMeet = "rendezvous_of_two_threads";
    FSpurious = "fault_spurious_wakeup";
    FGarbage = "fault_scratch_blocks_filled_with_garbage";
    FMinAlign = "fault_scratch_blocks_minimally_aligned";
    FGuard = "fault_operands_next_to_unmapped_page";
    FMutate = "fault_neighbour_modified_by_other_thread";
    FPoison = "fault_operands_destroyed_right_after_return";
    FChurn = "fault_caller_thread_ended_and_replaced";
    FFresh = "fault_repetition_on_a_thread_of_its_own";
    FEnv = "fault_unparsable_environment_value";
    FStderr = "fault_stderr_unwritable";
    FShift = "fault_environment_and_processor_count_changed";
    FFeat = "fault_processor_features_missing";
    FUnwind = "fault_call_while_unwinding";
    FDtor = "fault_call_from_thread_exit";
    FMisalign = "fault_operands_element_aligned_only";
    FPre = "fault_hostile_earlier_calls";
    FFar = "operands_spread_over_gigabytes";
    Repeats = "calls_repeated_unchanged";
    TrapRuns = "runs_with_unsupported_instructions_made_to_trap";
    ClockReads = "clock_reads_by_the_library";
    FRewrite = "fault_operands_rewritten_between_calls";
    FBlockReuse = "fault_scratch_memory_reused_with_old_contents";
    FHugeAlign = "fault_page_or_larger_boundary_alignment";
    ThreadsCreated = "threads_created_by_library";
    Allocs = "allocations";
    SyncOps = "sync_operations";
    InitRaces = "first_calls_racing_for_pool_creation";
    JobsQueued = "jobs_queued_behind_a_busy_worker";
    LatchWaits = "caller_waited_for_worker";
    MaskTls = "accesses_to_thread_local_buffers";
    EdgeTiles = "elements_checked";
    ExactElems = "elements_compared_exactly";
    FloatElems = "elements_compared_with_bound";
    NanElems = "elements_expected_nan";
    MultiK = "calls_with_several_k_blocks";
    MultiN = "calls_with_several_n_blocks";
    MultiM = "calls_with_several_m_blocks";
    EmptyCalls = "calls_with_an_empty_dimension";
    Beta0 = "calls_with_beta_zero";
    NegStride = "calls_with_negative_stride";
    ZeroStride = "calls_with_zero_stride";
    Interleaved = "calls_into_interleaved_destinations";
    SharedAB = "calls_sharing_an_input";
    Insns = "instructions_decoded";
    AlignRes16 = "runs_with_thread_local_buffer_at_odd_16_bytes";
    RacesChecked = "cross_thread_memory_handoffs_seen";
    Timeouts = "timed_waits_expired";
    LivelockFair = "runs_finished_under_fair_fallback";
}
/// A fault set for number `x`, or for number `x - FROM` and everything after it.
pub const FROM: u64 = 1 << 32;
/// Added: count only requests for at least 256 bytes.
pub const BIG: u64 = 1 << 33;
pub fn fails(x: u64, no: u64) -> bool { if x >= FROM { no >= x - FROM } else { x == no } }
pub fn count(c: Ctr) { unsafe { (*rep()).counters[c as usize] += 1; } }
pub fn count_n(c: Ctr, n: u64) { unsafe { (*rep()).counters[c as usize] += n; } }
pub fn rep() -> *mut Report { REPORT as *mut Report }

// ---------------------------------------------------------------- global state
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St { Unused, Run, Blocked, Done }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum On { None, Key(usize), Futex(usize), Join(usize) }
pub type Vc = [u32; MAXT];

pub struct Th {
    pub lstep: u64,
    pub next_ev: u64,
    pub tid: usize,
    pub call: i32,
    pub inlib: bool,
    pub lib_thread: bool,
    pub state: St,
    pub on: On,
    pub timed: bool,
    pub timed_out: bool,
    pub yielded: bool,
    pub prio: u64,
    pub stall_until: u64,
    pub in_step: u64, // lstep when switched in
    pub vc: Vc,
    pub word: AtomicU32,
    pub pthread: u64,
    pub start: usize,
    pub arg: usize,
    pub fpos: usize, // position in the forced schedule
    pub spurious: bool,
    pub iv_last: u64,
    pub acq_pend: Vc,  // clocks seen by relaxed loads, for a later acquire fence
    pub rel_fence: Vc, // clock of the last release fence, for later relaxed stores
}
impl Th {
    const fn new() -> Th {
        Th { lstep: 0, next_ev: u64::MAX, tid: 0, call: -1, inlib: false, lib_thread: false,
             state: St::Unused, on: On::None, timed: false, timed_out: false, yielded: false, prio: 0,
             stall_until: 0, in_step: 0, vc: [0; MAXT], word: AtomicU32::new(0), pthread: 0, start: 0,
             arg: 0, fpos: 0, spurious: false, iv_last: 0, acq_pend: [0; MAXT], rel_fence: [0; MAXT] }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pol { Serial, Random, Rr, Pct, Target, Replay }
#[derive(Clone, Copy)]
pub struct Policy {
    pub kind: Pol,
    pub q: u64,        // mean quantum in steps
    pub p_sync: u64,   // chance /1024 of a switch at a synchronisation operation
    pub tmask: u8,     // zones targeted (1 destination/operands, 2 heap, 4 stacks+TLS)
    pub p_t: u64,      // chance /65536 of a switch at a targeted access
    pub d: usize,      // change points (Pct)
    pub est: u64,      // estimated steps
    pub seed: u64,
}
#[derive(Clone, Copy, Default)]
pub struct Stall { pub tid: usize, pub at: u64, pub dur: u64 }

pub struct Global {
    pub active: bool,
    pub checks: bool,
    pub cur: *mut Th,
    pub nth: usize,
    pub gbase: u64,
    pub hash: u64,
    pub ileave: u64,
    pub rng: Rng,
    pub pol: Policy,
    pub oracles: u32,
    pub cps: [u64; 16],
    pub ncps: usize,
    pub low_prio: u64,
    pub forced: *const Dec,
    pub nforced: usize,
    pub cap: u64,
    pub fair: bool,
    pub idle: u64,
    pub stalls: [Stall; 16],
    pub nstalls: usize,
    pub trace: bool,
    // memory
    pub heap_top: usize,
    pub fill: u32,
    pub place: u8,
    pub alloc_no: u64,
    pub big_no: u64,
    pub alloc_fail: [u64; 8],
    pub nalloc_fail: usize,
    pub alloc_failed: u64,
    pub spawn_no: u64,
    pub spawn_fail: [u64; 8],
    pub nspawn_fail: usize,
    pub spawn_failed: u64,
    pub spurious_p: u64,
    pub meet: u64,         // which kinds of event threads are made to reach together (bits), 0: none
    pub lock_until: u64,   // while two threads that met alternate at every step or so
    pub lock_set: u32,
    pub meeting: [u8; MAXT],
    pub stack_disp: u64,
    pub lib_threads_live: u32,
    pub closed: u32,       // bit per call: returned
    pub wrote: u32,        // bit per call: wrote to its destination
    pub touched: u32,      // bit per call: touched any operand
    pub call_tids: [u64; 32],
    pub call_live: [u64; 32],
    pub clk: u64,
    pub clk_off: u64,
    pub call_peak: [u64; 32],
    pub call_c_free_read: u32, // bit per call: C readable from the start (beta != 0)
    pub race_units: [usize; 8],
    pub nrace_units: usize,
    pub instr: u8,
    pub on_refuse: Option<unsafe fn()>,
    pub exe_base: usize,
    pub ncpu: usize,
    pub crash_ok: bool,
    pub tls_key: u32,
    pub in_fail: bool,
    pub sampler: Rng,
    pub data_lo: usize,
    pub data_hi: usize,
    pub tls_size: usize,
}
pub static mut G: Global = Global {
    active: false, checks: false, cur: core::ptr::null_mut(), nth: 0, gbase: 0, hash: 0, ileave: 0,
    rng: Rng::zero(),
    pol: Policy { kind: Pol::Serial, q: 0, p_sync: 0, tmask: 0, p_t: 0, d: 0, est: 0, seed: 0 },
    oracles: 0, cps: [0; 16], ncps: 0, low_prio: 0, forced: core::ptr::null(), nforced: 0, cap: u64::MAX,
    fair: false, idle: 0, stalls: [Stall { tid: 0, at: 0, dur: 0 }; 16], nstalls: 0, trace: false,
    heap_top: HEAP, fill: 0, place: 0, alloc_no: 0, big_no: 0, alloc_fail: [0; 8], nalloc_fail: 0, alloc_failed: 0,
    spawn_no: 0, spawn_fail: [0; 8], nspawn_fail: 0, spawn_failed: 0, spurious_p: 0, meet: 0, lock_until: 0, lock_set: 0, meeting: [0; MAXT], stack_disp: 0,
    lib_threads_live: 0, closed: 0, wrote: 0, touched: 0, call_tids: [0; 32], call_live: [0; 32],
    clk: 1, clk_off: 0, call_peak: [0; 32], call_c_free_read: 0, race_units: [0; 8], nrace_units: 0, instr: 0, on_refuse: None,
    exe_base: 0, ncpu: 1, crash_ok: false, tls_key: 0, in_fail: false, sampler: Rng::zero(),
    data_lo: 0, data_hi: 0, tls_size: 0,
};
pub static mut TH: [Th; MAXT] = [const { Th::new() }; MAXT];

#[inline(always)]
pub fn active() -> bool { unsafe { G.active } }
#[inline(always)]
pub fn cur() -> &'static mut Th { unsafe { &mut *G.cur } }
pub fn gstep() -> u64 { unsafe { G.gbase + (cur().lstep - cur().in_step) } }
pub fn in_library() -> bool { unsafe { G.active && cur().inlib } }

// ---------------------------------------------------------------- reporting
struct Buf<'a> { b: &'a mut [u8], n: usize }
impl Write for Buf<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < self.b.len() { self.b[self.n] = c; self.n += 1; }
        }
        Ok(())
    }
}
pub fn tracing() -> bool { unsafe { G.trace } }
pub fn trace(args: std::fmt::Arguments) {
    unsafe {
        if !G.trace { return; }
        let r = &mut *rep();
        let n = r.trace_len as usize;
        let mut b = Buf { b: &mut r.trace[..], n };
        let (g, t) = if G.active { (gstep(), cur().tid) } else { (0, 0) };
        let _ = write!(b, "[{:>9}] t{:<2} ", g, t);
        let _ = b.write_fmt(args);
        let _ = b.write_str("\n");
        r.trace_len = b.n as u32;
    }
}
#[macro_export]
macro_rules! tr { ($($a:tt)*) => { if $crate::tracing() { $crate::trace(format_args!($($a)*)); } } }

pub unsafe fn flush_stats() {
    let r = &mut *rep();
    if !G.cur.is_null() { r.steps = gstep(); }
    r.hash = G.hash;
    r.ileave = G.ileave;
}
/// Report a violation of the given class (if its oracle is on) and end the run.
pub fn violation(class: u32, args: std::fmt::Arguments) {
    unsafe {
        if G.oracles & (1 << class) == 0 || G.in_fail { return; }
        G.in_fail = true;
        let r = &mut *rep();
        let mut b = Buf { b: &mut r.msg[..], n: 0 };
        let _ = b.write_fmt(args);
        r.msg_len = b.n as u32;
        r.class = class;
        if G.trace { trace(format_args!("VIOLATION {}: {}", class_name(class), args)); }
        event(0xF00 + class as u64);
        flush_stats();
        r.status = 2;
        sys::exit_now(10);
    }
}
pub fn harness_error(args: std::fmt::Arguments) -> ! {
    unsafe {
        let r = &mut *rep();
        let mut b = Buf { b: &mut r.msg[..], n: 0 };
        let _ = b.write_fmt(args);
        r.msg_len = b.n as u32;
        r.status = 3;
        sys::exit_now(11);
    }
}
#[inline]
pub fn event(x: u64) { unsafe { G.hash = (G.hash.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); } }
#[inline]
fn il(x: u64) { unsafe { G.ileave = (G.ileave.rotate_left(7) ^ x).wrapping_mul(0xD6E8_FEB8_6659_FD93); } }

// ---------------------------------------------------------------- scheduler
unsafe fn futex_wait(w: &AtomicU32, val: u32) {
    sys::raw(sys::SYS_FUTEX, w as *const _ as usize, 128, val as usize, 0, 0, 0);
}
unsafe fn futex_wake(w: &AtomicU32) {
    sys::raw(sys::SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0);
}
unsafe fn wait_baton(t: *mut Th) {
    while (*t).word.load(Ordering::Acquire) == 0 { futex_wait(&(*t).word, 0); }
    (*t).word.store(0, Ordering::Relaxed);
}
unsafe fn set_next_ev(t: &mut Th) {
    let g = &mut G;
    let mut ev = match g.pol.kind {
        Pol::Replay => {
            let mut e = u64::MAX;
            while t.fpos < g.nforced {
                let d = *g.forced.add(t.fpos);
                if d.tid as usize == t.tid && d.lstep > t.lstep { e = d.lstep; break; }
                t.fpos += 1;
            }
            e
        }
        _ if g.fair => t.lstep + 997,
        Pol::Serial => u64::MAX,
        Pol::Random | Pol::Target => t.lstep + g.rng.geom(g.pol.q),
        Pol::Rr => t.lstep + g.pol.q,
        Pol::Pct => {
            let now = g.gbase; // set_next_ev is called with gbase current
            let mut e = u64::MAX;
            for i in 0..g.ncps { if g.cps[i] > now { let d = t.lstep + (g.cps[i] - now); if d < e { e = d; } } }
            e
        }
    };
    if g.pol.kind != Pol::Replay {
        for i in 0..g.nstalls {
            let s = g.stalls[i];
            if s.dur != 0 && s.tid == t.tid && s.at > t.lstep && s.at < ev { ev = s.at; }
        }
    }
    if g.lock_until > g.gbase && g.pol.kind != Pol::Replay && g.lock_set >> t.tid & 1 != 0 { ev = ev.min(t.lstep + 1 + g.rng.below(3)); }
    let left = g.cap.saturating_sub(g.gbase);
    ev = ev.min(t.lstep.saturating_add(left).max(t.lstep + 1));
    t.next_ev = ev;
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Why { Access = 1, Sync = 2, Yield = 3, Block = 4, Exit = 5 }

unsafe fn eligible(t: &Th, g: u64) -> bool { t.state == St::Run && !t.yielded && t.stall_until <= g }

/// Candidate list for the next thread; guarantees at least one entry or None on deadlock.
unsafe fn candidates(out: &mut [usize; MAXT], why: Why, me: usize) -> usize {
    let g = G.gbase;
    for pass in 0..4 {
        let mut n = 0;
        for i in 0..G.nth {
            let t = &TH[i];
            let ok = match pass {
                0 => eligible(t, g),
                1 => t.state == St::Run && !t.yielded,
                _ => t.state == St::Run && !(why == Why::Yield && i == me && pass == 2),
            };
            if ok { out[n] = i; n += 1; }
        }
        if n > 0 {
            if pass >= 1 { for i in 0..G.nth { TH[i].stall_until = 0; if pass >= 2 { TH[i].yielded = false; } } }
            return n;
        }
    }
    // everybody is blocked: expire the first timed wait
    for i in 0..G.nth {
        if TH[i].state == St::Blocked && TH[i].timed {
            TH[i].state = St::Run;
            TH[i].timed_out = true;
            count(Ctr::Timeouts);
            out[0] = i;
            return 1;
        }
    }
    0
}
fn cyc_default(c: &[usize], me: usize) -> usize {
    for &x in c { if x > me { return x; } }
    c[0]
}
unsafe fn choose(why: Why) -> Option<usize> {
    let me = (*G.cur).tid;
    let can_stay = matches!(why, Why::Access | Why::Sync);
    let lstep = (*G.cur).lstep;
    let mut c = [0usize; MAXT];
    if G.pol.kind == Pol::Replay {
        // consume the matching forced decision
        let t = &mut *G.cur;
        let mut forced = None;
        while t.fpos < G.nforced {
            let d = *G.forced.add(t.fpos);
            if d.tid as usize != me || d.lstep < lstep { t.fpos += 1; continue; }
            if d.lstep == lstep { t.fpos += 1; forced = Some(d.to as usize); }
            break;
        }
        if let Some(f) = forced {
            if f < G.nth && TH[f].state == St::Run { TH[f].yielded = false; return Some(f); }
            if f < G.nth && TH[f].state == St::Blocked && TH[f].timed && candidates(&mut c, why, me) == 0 { return Some(f); }
        }
        if can_stay { return Some(me); }
        let n = candidates(&mut c, why, me);
        if n == 0 { return None; }
        return Some(cyc_default(&c[..n], me));
    }
    let n = candidates(&mut c, why, me);
    if n == 0 { return None; }
    let cs = &c[..n];
    if G.fair {
        return Some(cyc_default(cs, me));
    }
    if G.lock_until > G.gbase && why != Why::Yield {
        let mut l = [0usize; MAXT];
        let mut n = 0;
        for &x in cs { if G.lock_set >> x & 1 != 0 { l[n] = x; n += 1; } }
        if n > 0 { return Some(l[G.rng.below(n as u64) as usize]); }
    }
    Some(match G.pol.kind {
        Pol::Serial => if can_stay && cs.contains(&me) { me } else { cyc_default(cs, me) },
        Pol::Rr => cyc_default(cs, me),
        Pol::Random | Pol::Target => cs[G.rng.below(n as u64) as usize],
        Pol::Pct => { let mut b = cs[0]; for &x in cs { if TH[x].prio > TH[b].prio { b = x; } } b }
        Pol::Replay => unreachable!(),
    })
}
unsafe fn record(me: usize, lstep: u64, to: usize, why: Why) {
    let r = &mut *rep();
    if (r.nsched as usize) < NSCHED {
        r.sched[r.nsched as usize] = Dec { lstep, tid: me as u16, to: to as u16, why: why as u32 };
        r.nsched += 1;
    } else { r.sched_overflow = 1; }
}
unsafe fn sync_gbase() {
    let t = &mut *G.cur;
    G.gbase += t.lstep - t.in_step;
    t.in_step = t.lstep;
}
/// The one place where control passes between threads.
unsafe fn reschedule(why: Why) {
    let t = &mut *G.cur;
    let me = t.tid;
    let ran = t.lstep - t.in_step;
    sync_gbase();
    // progress bookkeeping
    if why == Why::Yield && ran <= 6 { G.idle += 1; } else { G.idle = 0; }
    if G.idle > 100_000 {
        flush_stats();
        violation(LIVELOCK, format_args!("all runnable threads only wait for each other (spinning) after step {}", G.gbase));
        // the oracle is off: end the run quietly as unfinished
        end_run_unfinished();
    }
    if ran > 6 || why != Why::Yield { for i in 0..G.nth { if i != me { TH[i].yielded = false; } } }
    if G.gbase >= G.cap {
        if !G.fair {
            G.fair = true;
            G.cap = G.cap.saturating_mul(2);
            for i in 0..G.nth { TH[i].stall_until = 0; }
            count(Ctr::LivelockFair);
        } else {
            violation(LIVELOCK, format_args!("calls did not finish within {} steps, the last half under fair scheduling", G.cap));
            end_run_unfinished();
        }
    }
    if G.pol.kind != Pol::Replay && !G.fair {
        for i in 0..G.nstalls {
            let s = &mut G.stalls[i];
            if s.dur != 0 && s.tid == me && t.lstep >= s.at {
                t.stall_until = G.gbase + s.dur;
                s.dur = 0;
                count(Ctr::FStall);
            }
        }
        if G.pol.kind == Pol::Pct {
            if why == Why::Yield { t.prio = G.low_prio; G.low_prio -= 1; }
            if why == Why::Access {
                for i in 0..G.ncps { if G.cps[i] != 0 && G.cps[i] <= G.gbase { G.cps[i] = 0; t.prio = G.low_prio; G.low_prio -= 1; } }
            }
        }
    }
    if why == Why::Yield { t.yielded = true; }
    let to = match choose(why) {
        Some(x) => x,
        None => {
            deadlock();
            return;
        }
    };
    let dflt = if matches!(why, Why::Access | Why::Sync) { me } else { usize::MAX };
    if to != dflt { record(me, t.lstep, to, why); }
    if to == me {
        t.yielded = false;
        set_next_ev(t);
        return;
    }
    let r = &mut *rep();
    r.switches += 1;
    if why == Why::Access { r.preempts += 1; }
    event(((me as u64) << 32) ^ ((to as u64) << 40) ^ t.lstep);
    il(((me as u64) << 56) ^ ((to as u64) << 48) ^ ((why as u64) << 44) ^ (t.lstep - t.iv_last));
    t.iv_last = t.lstep;
    tr!("switch t{} -> t{} ({}, local step {})", me, to, match why { Why::Access => "preempted", Why::Sync => "at sync", Why::Yield => "yields", Why::Block => "blocks", Why::Exit => "exits" }, t.lstep);
    let n = &mut TH[to];
    n.yielded = false;
    n.in_step = n.lstep;
    G.cur = n;
    set_next_ev(n);
    n.word.store(1, Ordering::Release);
    futex_wake(&n.word);
    if why != Why::Exit { wait_baton(t); }
}
unsafe fn deadlock() {
    let mut s = [0u8; 600];
    let mut b = Buf { b: &mut s[..], n: 0 };
    for i in 0..G.nth {
        if TH[i].state == St::Blocked { let _ = write!(b, " t{}:{}", i, match TH[i].on { On::Key(_) => "queue", On::Futex(_) => "futex/park", On::Join(_) => "join", On::None => "?" }); }
    }
    let n = b.n;
    violation(HANG, format_args!("deadlock at step {}: every thread waits:{}", G.gbase, core::str::from_utf8(&s[..n]).unwrap_or("")));
    end_run_unfinished();
}
/// The run cannot continue but the failure belongs to a property that is not being checked.
pub unsafe fn end_run_unfinished() -> ! {
    flush_stats();
    (*rep()).status = 1;
    sys::exit_now(0);
}
#[cold]
#[inline(never)]
pub unsafe fn slow_access() { reschedule(Why::Access); }

/// A synchronisation operation of the current thread is about to happen.
pub fn sync_point() {
    unsafe {
        if !G.active { return; }
        let t = cur();
        t.lstep += 1;
        count(Ctr::SyncOps);
        event(0x5 ^ (t.tid as u64) << 8);
        if G.pol.kind == Pol::Replay {
            if t.lstep >= t.next_ev { reschedule(Why::Sync); }
        } else if t.lstep >= t.next_ev { reschedule(Why::Sync);
        } else if G.pol.p_sync != 0 && !G.fair && G.rng.below(1024) < G.pol.p_sync {
            if G.pol.kind == Pol::Pct {
                // priorities already decide; a wake-up may have made a higher one runnable
                reschedule(Why::Sync);
            } else { reschedule(Why::Sync); }
        }
    }
}
/// Two threads that come to the same kind of place are let through together: the first waits a
/// while for a second, then both go on in small alternating steps.
pub fn meet_point(kind: u8) {
    unsafe {
        if !G.active { return; }
        if G.meet >> kind & 1 == 0 || G.fair || G.pol.kind == Pol::Replay || G.nth < 2 { return sync_point(); }
        let t = cur();
        t.lstep += 1;
        count(Ctr::SyncOps);
        event(0x5 ^ (t.tid as u64) << 8);
        let me = t.tid;
        let now = gstep();
        for i in 0..G.nth {
            if i != me && G.meeting[i] == kind && TH[i].stall_until > now && TH[i].state == St::Run {
                TH[i].stall_until = 0;
                G.meeting[i] = 0;
                G.lock_set = 1 << i | 1 << me;
                G.lock_until = now + 16 + G.rng.below(600);
                count(Ctr::FMeet);
                tr!("t{} and t{} go on together", i, me);
                reschedule(Why::Sync);
                return;
            }
        }
        if G.rng.below(3) == 0 { if t.lstep >= t.next_ev { reschedule(Why::Sync); } return; }
        G.meeting[me] = kind;
        t.stall_until = now + 20_000;
        tr!("waits for another thread to come here");
        reschedule(Why::Sync);
    }
}
pub fn yield_point() {
    unsafe {
        if !G.active { return; }
        cur().lstep += 1;
        reschedule(Why::Yield);
    }
}
pub fn block_on(on: On, timed: bool) -> bool {
    unsafe {
        let t = cur();
        t.lstep += 1;
        t.state = St::Blocked;
        t.on = on;
        t.timed = timed;
        t.timed_out = false;
        t.spurious = false;
        if G.spurious_p != 0 && matches!(on, On::Futex(_))
            && rng::hash64(G.pol.seed ^ (t.tid as u64) << 48, t.lstep) % 1024 < G.spurious_p {
            // a spurious wake-up: stay runnable although nobody woke us
            t.state = St::Run;
            t.spurious = true;
            count(Ctr::FSpurious);
            reschedule(Why::Yield);
        } else {
            reschedule(Why::Block);
        }
        let t = cur();
        t.on = On::None;
        t.timed = false;
        !t.timed_out
    }
}
pub fn wake(on: On, max: usize) -> usize {
    unsafe {
        let mut n = 0;
        for i in 0..G.nth {
            if n < max && TH[i].state == St::Blocked && TH[i].on == on {
                TH[i].state = St::Run;
                n += 1;
                // waking orders the waker before the woken
                let me = cur();
                for k in 0..MAXT { if me.vc[k] > TH[i].vc[k] { TH[i].vc[k] = me.vc[k]; } }
                if TH[i].lib_thread && TH[i].call < 0 { TH[i].call = me.call; }
            }
        }
        if n > 0 { let me = cur(); me.vc[me.tid] += 1; }
        n
    }
}
/// Ordered after everything that has happened so far.
pub fn vc_acquire_all() {
    unsafe { for i in 0..G.nth { let v = TH[i].vc; vc_acquire(&v); } }
}
pub fn vc_acquire(v: &Vc) {
    let me = cur();
    for k in 0..MAXT { if v[k] > me.vc[k] { me.vc[k] = v[k]; } }
}
/// returns the clock to publish and advances the own component
pub fn vc_release(into: &mut Vc, replace: bool) {
    let me = cur();
    if replace { *into = me.vc; } else { for k in 0..MAXT { if me.vc[k] > into[k] { into[k] = me.vc[k]; } } }
    me.vc[me.tid] += 1;
}

// ---------------------------------------------------------------- threads
/// Exit hook: the last destructor of a thread hands the baton on.
unsafe extern "C" fn last_dtor(p: *mut u8) {
    let n = p as usize;
    if n < 4 {
        sys::pthread_setspecific(G.tls_key, (n + 1) as *const u8);
        return;
    }
    let t = cur();
    t.lstep += 1;
    t.state = St::Done;
    tr!("thread ends");
    if t.lib_thread { G.lib_threads_live -= 1; }
    wake(On::Join(t.tid), usize::MAX);
    reschedule(Why::Exit);
}
unsafe extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let t = p as *mut Th;
    let slot = STK + (*t).tid * SLOT;
    let ss = sys::StackT { sp: slot as *mut u8, flags: 0, size: 32 << 10 };
    sys::sigaltstack(&ss, core::ptr::null_mut());
    wait_baton(t);
    sys::pthread_setspecific(G.tls_key, 1 as *const u8);
    let f: unsafe extern "C" fn(*mut u8) -> *mut u8 = core::mem::transmute((*t).start);
    f((*t).arg as *mut u8)
}
type PthreadCreate = unsafe extern "C" fn(*mut u64, *const u64, unsafe extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32;
pub static mut REAL_CREATE: Option<PthreadCreate> = None;
pub static mut REAL_JOIN: Option<unsafe extern "C" fn(u64, *mut *mut u8) -> i32> = None;

/// Create a simulated thread (runnable, but it runs only when scheduled).
pub unsafe fn spawn_thread(start: unsafe extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8, lib: bool) -> Result<usize, i32> {
    // the place of a thread that is gone for good, with its clock going on
    let again = if lib { None } else { (1..G.nth).find(|&i| TH[i].state == St::Unused) };
    let tid = again.unwrap_or(G.nth);
    if tid >= MAXT {
        if lib { return Err(11); }
        harness_error(format_args!("too many threads"));
    }
    let t = &mut TH[tid];
    if again.is_some() {
        let (lstep, own, fpos, iv) = (t.lstep, t.vc[tid], t.fpos, t.iv_last);
        *t = Th::new();
        (t.lstep, t.vc[tid], t.fpos, t.iv_last) = (lstep, own, fpos, iv);
    }
    let own = t.vc[tid];
    t.tid = tid;
    t.state = St::Run;
    t.start = start as usize;
    t.arg = arg as usize;
    t.lib_thread = lib;
    t.inlib = lib;
    let me = cur();
    t.call = if lib { me.call } else { -1 };
    t.acq_pend = [0; MAXT];
    t.rel_fence = [0; MAXT];
    t.vc = me.vc;
    t.vc[tid] = own + 1;
    me.vc[me.tid] += 1;
    t.prio = (1 << 40) + 1000 + G.rng.below(1 << 20);
    let slot = STK + tid * SLOT;
    let disp = (rng::hash64(G.stack_disp, tid as u64) % 64) as usize * 16;
    let lo = slot + (36 << 10);
    let mut attr = [0u64; 16];
    sys::pthread_attr_init(attr.as_mut_ptr());
    let rc = sys::pthread_attr_setstack(attr.as_mut_ptr(), lo as *mut u8, SLOT - (36 << 10) - disp);
    if rc != 0 { harness_error(format_args!("pthread_attr_setstack: {}", rc)); }
    let mut h = 0u64;
    if again.is_none() { G.nth += 1; }
    let rc = (REAL_CREATE.unwrap())(&mut h, attr.as_ptr(), trampoline, t as *mut Th as *mut u8);
    sys::pthread_attr_destroy(attr.as_mut_ptr());
    if rc != 0 { harness_error(format_args!("pthread_create: {}", rc)); }
    t.pthread = h;
    event(0x7AD ^ (tid as u64) << 16);
    Ok(tid)
}
pub fn join_tid(tid: usize) {
    unsafe {
        sync_point();
        while !matches!(TH[tid].state, St::Done | St::Unused) { block_on(On::Join(tid), false); }
        let v = TH[tid].vc;
        vc_acquire(&v);
    }
}

/// Waits until a thread of the harness is really gone; its place may be taken by another.
pub fn retire(tid: usize) {
    join_tid(tid);
    unsafe {
        (REAL_JOIN.unwrap())(TH[tid].pthread, core::ptr::null_mut());
        TH[tid].state = St::Unused;
        TH[tid].pthread = 0;
    }
}

extern "C" { static __data_start: u8; static _end: u8; }
/// Map the arenas; call once in the parent before forking.
pub unsafe fn init_process(instr: u8) {
    let fl = sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NR;
    for (a, l) in [(ARENA, ARENA_LEN), (SHADOW, SHADOW_LEN + STATICS_LEN * 4), (ATTR_RD, OPS_LEN), (ATTR_WR, OPS_LEN), (HEAPST, HEAP_LEN / 4)] {
        let p = sys::mmap(a as *mut u8, l, sys::PROT_RW, fl, -1, 0);
        assert!(p as usize == a, "mmap arena");
    }
    let p = sys::mmap(REPORT as *mut u8, core::mem::size_of::<Report>(), sys::PROT_RW,
                      sys::MAP_SHARED | sys::MAP_ANON | sys::MAP_FIXED_NR, -1, 0);
    assert!(p as usize == REPORT, "mmap report");
    for i in 0..MAXT { sys::mprotect((STK + i * SLOT + (32 << 10)) as *mut u8, 4096, sys::PROT_NONE); }
    REAL_CREATE = Some(core::mem::transmute(sys::dlsym(-1isize as *mut u8, c"pthread_create".as_ptr() as *const u8)));
    REAL_JOIN = Some(core::mem::transmute(sys::dlsym(-1isize as *mut u8, c"pthread_join".as_ptr() as *const u8)));
    G.instr = instr;
    G.data_lo = (&raw const __data_start) as usize;
    G.data_hi = ((&raw const _end) as usize).min(G.data_lo + STATICS_LEN);
    sys::pthread_key_create(&raw mut G.tls_key, Some(last_dtor));
    interpose::init();
    interpose::install_handlers();
}
pub unsafe fn clear_report() {
    let r = &mut *rep();
    r.status = 0; r.class = 0; r.msg_len = 0; r.sched_overflow = 0; r.nsched = 0; r.trace_len = 0;
    r.steps = 0; r.switches = 0; r.preempts = 0; r.hash = 0; r.ileave = 0;
    r.counters = [0; NCOUNT];
    r.out_hash = [0; 32];
    r.call_state = [0; 32];
}
/// Start simulating: the calling thread becomes thread 0 (the director).
pub unsafe fn begin(pol: Policy, cap: u64) {
    G.pol = pol;
    G.rng = Rng::new(pol.seed);
    G.sampler = Rng::new(pol.seed ^ 0x1234);
    G.cap = cap;
    G.low_prio = 1 << 40;
    G.hash = 0x1234;
    G.ileave = 0x4321;
    G.ncps = 0;
    if pol.kind == Pol::Pct {
        for i in 0..pol.d.min(16) { G.cps[i] = 1 + G.rng.below(pol.est.max(2)); G.ncps = i + 1; }
    }
    let t = &mut TH[0];
    t.tid = 0;
    t.state = St::Run;
    t.vc[0] = 1;
    t.prio = (1 << 40) + 950;
    G.nth = 1;
    G.cur = t;
    set_next_ev(t);
    t.next_ev = u64::MAX;
    G.active = true;
}
/// Everything the library started must be idle now; stop simulating.
pub unsafe fn finish() {
    sync_gbase();
    flush_stats();
    G.active = false;
}
