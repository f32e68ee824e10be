//! Simulated synchronisation primitives: atomics with happens-before clocks and
//! a bounded channel.
use crate::*;
use core::cell::UnsafeCell;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op { Load, Store, Rmw }

// clocks of atomic locations, keyed by address
const NTAB: usize = 1 << 14;
const GONE: usize = 1; // the entry's block was released
struct Ent { addr: usize, vc: Vc }
static mut TAB: [Ent; NTAB] = [const { Ent { addr: 0, vc: [0; MAXT] } }; NTAB];
static mut LIVE: [usize; NTAB] = [0; NTAB]; // the addresses in the table
static mut NLIVE: usize = 0;
#[inline(always)]
fn home(addr: usize) -> usize { (addr.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % NTAB }
unsafe fn find(addr: usize) -> Option<usize> {
    let mut i = home(addr);
    for _ in 0..NTAB {
        if TAB[i].addr == addr { return Some(i); }
        if TAB[i].addr == 0 { return None; }
        i = (i + 1) % NTAB;
    }
    None
}
unsafe fn ent(addr: usize) -> &'static mut Vc {
    if let Some(i) = find(addr) { return &mut TAB[i].vc; }
    let mut i = home(addr);
    for _ in 0..NTAB {
        if TAB[i].addr <= GONE {
            TAB[i].addr = addr;
            TAB[i].vc = [0; MAXT];
            LIVE[NLIVE] = addr;
            NLIVE += 1;
            return &mut TAB[i].vc;
        }
        i = (i + 1) % NTAB;
    }
    harness_error(format_args!("too many atomic locations"));
}
/// A block is released: what lies there next is another variable.
pub unsafe fn forget(from: usize, to: usize) {
    let mut j = 0;
    while j < NLIVE {
        let a = LIVE[j];
        if a < from || a >= to { j += 1; continue; }
        if let Some(mut i) = find(a) {
            TAB[i].addr = GONE;
            if TAB[(i + 1) % NTAB].addr == 0 {
                while TAB[i].addr == GONE { TAB[i].addr = 0; i = (i + NTAB - 1) % NTAB; }
            }
        }
        NLIVE -= 1;
        LIVE[j] = LIVE[NLIVE];
    }
}
// memory orders as numbered by the thread instrumentation: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
fn acq(mo: i32) -> bool { matches!(mo, 1 | 2 | 4 | 5) }
fn rel(mo: i32) -> bool { matches!(mo, 3 | 4 | 5) }
static mut FENCE: Vc = [0; MAXT];
pub unsafe fn fence(mo: i32) {
    if !G.active { return; }
    sync_point();
    let t = cur();
    if acq(mo) { let v = t.acq_pend; vc_acquire(&v); }
    if mo == 5 { vc_acquire(&*(&raw const FENCE)); vc_release(&mut *(&raw mut FENCE), false); }
    let t = cur();
    if rel(mo) { t.rel_fence = t.vc; t.vc[t.tid] += 1; }
}
/// Scheduling point in front of an atomic operation.
pub unsafe fn before(addr: usize, _mo: i32, op: Op) {
    if !G.active { return; }
    sync_point();
    let off = addr.wrapping_sub(ARENA);
    if off < ARENA_LEN { event(off as u64 ^ (op as u64) << 50); }
}
/// As `after`, for the library's own atomics: a location whose last writer was not
/// seen (code inside std is not instrumented) orders the reader after everything.
pub unsafe fn after_tsan(addr: usize, mo: i32, op: Op) {
    if !G.active { return; }
    if op != Op::Store && !known(addr) {
        if acq(mo) { vc_acquire_all(); } else { for i in 0..G.nth { let v = TH[i].vc; join(&mut cur().acq_pend, &v); } }
        if op == Op::Load { return; }
    }
    after(addr, mo, op)
}
unsafe fn known(addr: usize) -> bool { find(addr).is_some() }
/// Happens-before effects of an atomic operation that has just been performed.
pub unsafe fn after(addr: usize, mo: i32, op: Op) {
    if !G.active { return; }
    let v = ent(addr);
    match op {
        Op::Load => { if acq(mo) { vc_acquire(v); } else { join(&mut cur().acq_pend, v); } }
        Op::Store => { if rel(mo) { vc_release(v, true); } else { *v = cur().rel_fence; } }
        Op::Rmw => {
            if acq(mo) { vc_acquire(v); } else { join(&mut cur().acq_pend, v); }
            if rel(mo) { vc_release(v, false); } else { join(v, &cur().rel_fence); }
        }
    }
}
fn join(a: &mut Vc, b: &Vc) { for k in 0..MAXT { if b[k] > a[k] { a[k] = b[k]; } } }
fn mo(o: Ordering) -> i32 {
    match o { Ordering::Relaxed => 0, Ordering::Acquire => 2, Ordering::Release => 3, Ordering::AcqRel => 4, _ => 5 }
}
// Non-generic, never inlined: the patched dependencies' generic code may be compiled into the
// instrumented crate, these must not be.
#[inline(never)] pub unsafe fn a_load(p: *const usize, o: Ordering) -> usize { before(p as usize, mo(o), Op::Load); let v = p.read_volatile(); after(p as usize, mo(o), Op::Load); v }
#[inline(never)] pub unsafe fn a_store(p: *mut usize, v: usize, o: Ordering) { before(p as usize, mo(o), Op::Store); p.write_volatile(v); after(p as usize, mo(o), Op::Store); }
#[inline(never)] pub unsafe fn a_swap(p: *mut usize, v: usize, o: Ordering) -> usize { before(p as usize, mo(o), Op::Rmw); let old = p.read_volatile(); p.write_volatile(v); after(p as usize, mo(o), Op::Rmw); old }
#[inline(never)] pub unsafe fn a_cas(p: *mut usize, c: usize, v: usize, o: Ordering, f: Ordering) -> Result<usize, usize> {
    before(p as usize, mo(o), Op::Rmw);
    let old = p.read_volatile();
    if old == c { p.write_volatile(v); after(p as usize, mo(o), Op::Rmw); Ok(old) } else { after(p as usize, mo(f), Op::Load); Err(old) }
}

/// Stand-in for AtomicPtr (once_cell).
impl<T> std::fmt::Debug for SimAtomicPtr<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("AtomicPtr") } }
pub struct SimAtomicPtr<T> { v: UnsafeCell<usize>, p: core::marker::PhantomData<*mut T> }
unsafe impl<T> Sync for SimAtomicPtr<T> {}
unsafe impl<T> Send for SimAtomicPtr<T> {}
impl<T> SimAtomicPtr<T> {
    pub const fn new(p: *mut T) -> Self {
        union U<T> { p: *mut T, u: usize }
        SimAtomicPtr { v: UnsafeCell::new(unsafe { U { p }.u }), p: core::marker::PhantomData }
    }
    #[inline] pub fn load(&self, o: Ordering) -> *mut T { unsafe { a_load(self.v.get(), o) as *mut T } }
    #[inline] pub fn store(&self, v: *mut T, o: Ordering) { unsafe { a_store(self.v.get(), v as usize, o) } }
    #[inline] pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T { unsafe { a_swap(self.v.get(), v as usize, o) as *mut T } }
    #[inline] pub fn compare_exchange(&self, c: *mut T, v: *mut T, o: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        match unsafe { a_cas(self.v.get(), c as usize, v as usize, o, f) } { Ok(x) => Ok(x as *mut T), Err(x) => Err(x as *mut T) }
    }
}
/// Stand-in for AtomicBool (once_cell's waiters, thread-tree's latch).
#[derive(Debug)]
pub struct SimAtomicBool { v: UnsafeCell<usize> }
unsafe impl Sync for SimAtomicBool {}
unsafe impl Send for SimAtomicBool {}
impl SimAtomicBool {
    pub const fn new(b: bool) -> Self { SimAtomicBool { v: UnsafeCell::new(b as usize) } }
    #[inline] pub fn load(&self, o: Ordering) -> bool { unsafe { a_load(self.v.get(), o) != 0 } }
    #[inline] pub fn store(&self, b: bool, o: Ordering) { unsafe { a_store(self.v.get(), b as usize, o) } }
    #[inline] pub fn swap(&self, b: bool, o: Ordering) -> bool { unsafe { a_swap(self.v.get(), b as usize, o) != 0 } }
}

// ---------------------------------------------------------------- bounded channel
// The core is not generic: generic code would be compiled into the instrumented crate.
type Msg = [usize; 4];
pub struct Chan { q: VecDeque<(Msg, Vc, i32)>, cap: usize, senders: usize, recv_alive: bool, drained: Vc }
fn outside<R>(f: impl FnOnce() -> R) -> R {
    // the simulator's own memory does not come from the simulated heap
    if !active() { return f(); }
    let t = cur();
    let was = t.inlib;
    t.inlib = false;
    let r = f();
    cur().inlib = was;
    r
}
#[inline(never)]
pub fn chan_new(cap: usize) -> *mut Chan {
    outside(|| Box::into_raw(Box::new(Chan { q: VecDeque::with_capacity(cap.max(1) + 1), cap: cap.max(1), senders: 1, recv_alive: true, drained: [0; MAXT] })))
}
fn key(c: *mut Chan) -> On { On::Key(c as usize) }
#[inline(never)]
pub unsafe fn chan_send(c: *mut Chan, v: Msg) -> bool {
    if !active() { (*c).q.push_back((v, [0; MAXT], -1)); return true; }
    sync_point();
    let mut first = true;
    loop {
        if !(*c).recv_alive { return false; }
        if (*c).q.len() < (*c).cap { break; }
        if first { count(Ctr::JobsQueued); first = false; }
        block_on(key(c), false);
    }
    let mut vc = [0; MAXT];
    vc_acquire(&(*c).drained); // in a bounded channel a receive comes before the send that reuses its slot
    vc_release(&mut vc, true);
    outside(|| (*c).q.push_back((v, vc, cur().call)));
    tr!("sends a job (call {})", cur().call);
    event(0x5E4D);
    wake_plain(key(c));
    true
}
#[inline(never)]
pub unsafe fn chan_recv(c: *mut Chan) -> Option<Msg> {
    if !active() { return (*c).q.pop_front().map(|x| x.0); }
    let t = cur();
    if t.lib_thread { t.call = -1; }
    sync_point();
    loop {
        if let Some((v, vc, call)) = (*c).q.pop_front() {
            vc_acquire(&vc);
            vc_release(&mut (*c).drained, false);
            cur().call = call;
            tr!("receives a job (call {})", call);
            event(0x4ECF);
            wake_plain(key(c));
            crate::meet_point(4);
            return Some(v);
        }
        if (*c).senders == 0 { return None; }
        block_on(key(c), false);
    }
}
#[inline(never)]
pub unsafe fn chan_senders(c: *mut Chan, d: isize) {
    (*c).senders = ((*c).senders as isize + d) as usize;
    if d < 0 && active() { sync_point(); wake_plain(key(c)); }
}
#[inline(never)]
pub unsafe fn chan_close(c: *mut Chan) {
    (*c).recv_alive = false;
    if active() { wake_plain(key(c)); }
}
pub struct SimSender<T>(*mut Chan, core::marker::PhantomData<T>);
pub struct SimReceiver<T>(*mut Chan, core::marker::PhantomData<T>);
unsafe impl<T: Send> Send for SimSender<T> {}
unsafe impl<T: Send> Sync for SimSender<T> {}
unsafe impl<T: Send> Send for SimReceiver<T> {}
unsafe impl<T: Send> Sync for SimReceiver<T> {}
impl<T> std::fmt::Debug for SimSender<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Sender") } }
#[derive(Debug)]
pub struct SendError;
pub fn sim_bounded<T>(cap: usize) -> (SimSender<T>, SimReceiver<T>) {
    assert!(core::mem::size_of::<T>() <= core::mem::size_of::<Msg>() && !core::mem::needs_drop::<T>());
    let c = chan_new(cap);
    (SimSender(c, core::marker::PhantomData), SimReceiver(c, core::marker::PhantomData))
}
impl<T> SimSender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError> {
        let mut m: Msg = [0; 4];
        unsafe {
            (&mut m as *mut Msg as *mut T).write(v);
            if chan_send(self.0, m) { Ok(()) } else { Err(SendError) }
        }
    }
}
impl<T> Drop for SimSender<T> { fn drop(&mut self) { unsafe { chan_senders(self.0, -1) } } }
impl<T> Clone for SimSender<T> { fn clone(&self) -> Self { unsafe { chan_senders(self.0, 1) } SimSender(self.0, core::marker::PhantomData) } }
impl<T> SimReceiver<T> {
    pub fn recv(&self) -> Option<T> { unsafe { chan_recv(self.0).map(|m| (&m as *const Msg as *const T).read()) } }
}
impl<T> Drop for SimReceiver<T> { fn drop(&mut self) { unsafe { chan_close(self.0) } } }
impl<T> Iterator for SimReceiver<T> { type Item = T; fn next(&mut self) -> Option<T> { self.recv() } }
/// Make everybody waiting on a queue runnable without adding happens-before edges
/// (the edges come from the message itself).
fn wake_plain(on: On) {
    unsafe {
        for i in 0..G.nth {
            if TH[i].state == St::Blocked && TH[i].on == on { TH[i].state = St::Run; }
        }
    }
}
pub fn note_latch_wait() { if active() { count(Ctr::LatchWaits); } }
