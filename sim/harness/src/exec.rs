//! Executes one plan inside a freshly forked process.
use crate::knobs::*;
use crate::plan::*;
use gsim_rt::mem::*;
use gsim_rt::rng::*;
use gsim_rt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const PAGE: usize = 4096;

/// What an element of a buffer is, from the caller's point of view.
const GAP: u8 = 0;
const INPUT: u8 = 1;
const DEST: u8 = 2; // destination whose old value counts
const DEST0: u8 = 3; // destination first used with beta = 0
const UNKNOWN: u8 = 4; // destination of a call that did not return normally
const DEAD: u8 = 5; // destroyed on purpose after the call

pub struct BufSt {
    pub addr: usize,
    pub bytes: usize,
    pub page0: usize,
    pub npages: usize,
    pub es: usize,
    pub kind: Vec<u8>,
    pub model: Vec<[f64; 2]>,
    pub snap: Vec<u8>,
    pub exclusive: bool, // used by one call only
    pub dead: bool,
    pub base: Vec<[f64; 2]>, // the original contents, where calls ask for other versions
    pub version: u8,
    pub w: usize,     // far buffers: elements per piece (0: in one piece)
    pub pitch: usize, // far buffers: elements from piece to piece
}
impl BufSt {
    /// address of an element
    #[inline]
    pub fn at(&self, x: usize) -> usize {
        if self.w == 0 { self.addr + x * self.es } else { self.addr + (x / self.w * self.pitch + x % self.w) * self.es }
    }
    /// the stride the library is given for a stride in the buffer's own numbering
    pub fn real(&self, s: i64) -> i64 { if self.w != 0 && s != 0 && s % self.w as i64 == 0 { s / self.w as i64 * self.pitch as i64 } else { s } }
    unsafe fn bytes_of(&self, x: usize) -> &'static [u8] { std::slice::from_raw_parts(self.at(x) as *const u8, self.es) }
    unsafe fn snapshot(&mut self, x: usize) { let b = self.bytes_of(x); self.snap[x * self.es..x * self.es + self.es].copy_from_slice(b); }
}
/// Where buffers with enormous strides live: outside the arena, in mapped pieces far apart.
const FAR: usize = 0x4000_0000_0000;
pub struct Ex {
    pub plan: &'static Plan,
    pub bufs: Vec<BufSt>,
    pub hole: usize,
    pub warm_done: bool,
    pub warm_alloc: u64,
    pub returned: u64,
    pub in_progress: u32,
    pub gaps: Vec<(usize, usize)>,
    pub panic_msg: String,
}
pub static mut EX: Option<Ex> = None;
pub fn ex() -> &'static mut Ex { unsafe { (*(&raw mut EX)).as_mut().unwrap() } }

/// Report the first of the classes whose oracle is on.
fn fail(classes: &[u32], args: std::fmt::Arguments) { for c in classes { violation(*c, args); } }

// ---------------------------------------------------------------- element access (harness side)
unsafe fn put(addr: usize, ty: u8, v: [f64; 2]) {
    match ty {
        0 => (addr as *mut f32).write_unaligned(v[0] as f32),
        1 => (addr as *mut f64).write_unaligned(v[0]),
        2 => { (addr as *mut f32).write_unaligned(v[0] as f32); ((addr + 4) as *mut f32).write_unaligned(v[1] as f32) }
        _ => { (addr as *mut f64).write_unaligned(v[0]); ((addr + 8) as *mut f64).write_unaligned(v[1]) }
    }
}
unsafe fn get(addr: usize, ty: u8) -> [f64; 2] {
    match ty {
        0 => [(addr as *const f32).read_unaligned() as f64, 0.0],
        1 => [(addr as *const f64).read_unaligned(), 0.0],
        2 => [(addr as *const f32).read_unaligned() as f64, ((addr + 4) as *const f32).read_unaligned() as f64],
        _ => [(addr as *const f64).read_unaligned(), ((addr + 8) as *const f64).read_unaligned()],
    }
}
fn initial(p: &Plan, b: &Buf, idx: usize, dest: bool) -> [f64; 2] { initial_seed(p, b, b.seed, idx, dest) }
fn initial_seed(p: &Plan, b: &Buf, seed: u64, idx: usize, dest: bool) -> [f64; 2] {
    let cx = b.ty >= 2;
    // matrices of zeros, sparse ones, ones with long stretches of zeros
    let zero = match b.pat { 0 => false, 1 => true, 2 => hash64(seed, !(idx as u64)) & 15 != 0, 3 => hash64(b.seed, idx as u64 >> (2 + b.seed % 6)) & 1 == 0, _ => hash64(b.seed, idx as u64 % (1 + b.seed % 40)) & 3 != 0 };
    if zero { return [0.0, 0.0]; }
    let one = |part: u64| -> f64 {
        let h = hash64(seed ^ (part << 60), idx as u64);
        if p.data == 0 {
            let span = if dest { 17 } else { 5 };
            (h % span) as f64 - (span / 2) as f64
        } else {
            let mut u = ((h >> 11) as f64 / (1u64 << 53) as f64) * 2.0 - 1.0;
            if p.data == 2 { u *= 2f64.powi((hash64(h, 3) % 25) as i32 - 12); } // very different magnitudes
            let single = b.ty % 2 == 0;
            match p.data {
                3 => u *= 2f64.powi(if single { -68 } else { -518 } * if dest { 2 } else { 1 } - (hash64(h, 4) % 6) as i32),
                4 => u *= 2f64.powi(if single { 50 } else { 440 } * if dest { 2 } else { 1 }),
                _ => {}
            }
            if single { u as f32 as f64 } else { u }
        }
    };
    [one(1), if cx { one(2) } else { 0.0 }]
}
fn each<F: FnMut(usize, usize, usize)>(m: &Mat, rows: usize, cols: usize, mut f: F) {
    for i in 0..rows { for j in 0..cols { f(i, j, (m.off + i as i64 * m.rs + j as i64 * m.cs) as usize); } }
}
fn live(c: &Call) -> bool { c.m > 0 && c.n > 0 }
fn uses_ab(c: &Call) -> bool { live(c) && c.k > 0 }
fn beta0(c: &Call) -> bool { c.beta[0] == 0.0 && c.beta[1] == 0.0 }

unsafe fn place(p: &'static Plan) {
    let mut e = Ex { plan: p, bufs: vec![], hole: 0, warm_done: false, warm_alloc: 0, returned: 0, in_progress: 0, gaps: vec![], panic_msg: String::new() };
    let mut top = OPS;
    sys::mprotect(top as *mut u8, PAGE, sys::PROT_NONE);
    e.hole = top + 1024;
    top += PAGE;
    let mut far = 0;
    // which operand lies before which in memory is up to the plan
    let mut order: Vec<usize> = (0..p.bufs.len()).collect();
    if p.disp & 1 != 0 { order.sort_by_key(|i| hash64(p.disp, *i as u64)); }
    let mut placed: Vec<Option<BufSt>> = p.bufs.iter().map(|_| None).collect();
    for bi in order {
        let b = &p.bufs[bi];
        let es = esize(b.ty);
        if b.w != 0 {
            let addr = FAR + (far << 40) + (1 << 38) + if b.guard == 1 { (PAGE - b.w * es % PAGE) % PAGE } else { b.mis };
            far += 1;
            if far > 16 || b.len.div_ceil(b.w) * b.pitch * es > 1 << 39 { (*rep()).status = 1; sys::exit_now(0); }
            let s = BufSt { addr, bytes: b.len * es, page0: 0, npages: 0, es, kind: vec![GAP; b.len], model: vec![[0.0; 2]; b.len], snap: vec![], exclusive: false, dead: false,
                base: vec![], version: 0, w: b.w, pitch: b.pitch };
            for r in 0..b.len.div_ceil(b.w) {
                let (lo, hi) = (s.at(r * b.w) & !(PAGE - 1), (s.at(r * b.w) + b.w * es + PAGE - 1) & !(PAGE - 1));
                // private, anonymous, at this address and nothing else there
                if sys::mmap(lo as *mut u8, hi - lo, 3, 0x10_4022, -1, 0) as usize != lo { (*rep()).status = 1; sys::exit_now(0); }
                fill_garbage(lo as *mut u8, hi - lo, b.gap as u32, b.seed);
            }
            count(Ctr::FFar);
            placed[bi] = Some(s);
            continue;
        }
        let bytes = b.len * es;
        let np = (bytes + b.mis + 2 * PAGE) / PAGE + 1;
        let base = top;
        let addr = match b.guard {
            1 => base + np * PAGE - bytes,                  // ends where the next page is unmapped
            2 => base,                                      // starts right behind an unmapped page
            _ => base + 64 + b.mis,
        };
        // the page before is the guard of the previous buffer
        let guard_after = base + np * PAGE;
        sys::mprotect(guard_after as *mut u8, PAGE, sys::PROT_NONE);
        top = guard_after + PAGE;
        if top + PAGE > OPS + OPS_LEN { (*rep()).status = 1; sys::exit_now(0); } // too big for the arena: an empty run
        if b.guard != 0 { count(Ctr::FGuard); }
        if b.mis % (es * 2).min(16) != 0 { count(Ctr::FMisalign); }
        placed[bi] = Some(BufSt { addr, bytes, page0: base, npages: np, es, kind: vec![GAP; b.len], model: vec![[0.0; 2]; b.len], snap: vec![], exclusive: false, dead: false, base: vec![], version: 0, w: 0, pitch: 0 });
    }
    e.bufs = placed.into_iter().flatten().collect();
    // roles
    let mut users = vec![0u32; p.bufs.len()];
    for c in &p.callers {
        for c in &c.calls {
            if !live(c) { continue; }
            let mut seen = vec![];
            if uses_ab(c) {
                each(&c.a, c.m, c.k, |_, _, x| e.bufs[c.a.buf].kind[x] = INPUT);
                each(&c.b, c.k, c.n, |_, _, x| e.bufs[c.b.buf].kind[x] = INPUT);
                seen.push(c.a.buf);
                seen.push(c.b.buf);
            }
            let d = if beta0(c) { DEST0 } else { DEST };
            each(&c.c, c.m, c.n, |_, _, x| { let k = &mut e.bufs[c.c.buf].kind[x]; if *k == GAP { *k = d; } });
            seen.push(c.c.buf);
            seen.sort();
            seen.dedup();
            for b in seen { users[b] += 1; }
        }
    }
    for (i, b) in p.bufs.iter().enumerate() {
        let s = &mut e.bufs[i];
        s.exclusive = users[i] == 1 && s.w == 0;
        // everything in the mapped pages starts as garbage of the chosen kind
        if s.w == 0 { fill_garbage(s.page0 as *mut u8, s.npages * PAGE, b.gap as u32, b.seed); }
        for x in 0..b.len {
            if s.kind[x] == INPUT || s.kind[x] == DEST {
                let v = initial(p, b, x, s.kind[x] == DEST);
                s.model[x] = v;
                put(s.at(x), b.ty, v);
            }
        }
    }
    for &(bi, x, kind) in &p.specials {
        if bi < e.bufs.len() && x < p.bufs[bi].len && e.bufs[bi].kind[x] == INPUT {
            let v = match kind { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY };
            let v = if p.bufs[bi].ty >= 2 { [v, v] } else { [v, 0.0] };
            e.bufs[bi].model[x] = v;
            put(e.bufs[bi].at(x), p.bufs[bi].ty, v);
        }
    }
    for s in e.bufs.iter_mut() { s.snap = (0..s.kind.len()).flat_map(|x| s.bytes_of(x).iter().copied()).collect(); }
    // buffers whose contents change between calls: only those that one caller alone uses
    for (i, s) in e.bufs.iter_mut().enumerate() {
        let users = p.callers.iter().filter(|w| w.calls.iter().any(|c| live(c) && (c.c.buf == i || uses_ab(c) && (c.a.buf == i || c.b.buf == i)))).count();
        let wanted = p.callers.iter().flat_map(|w| &w.calls).any(|c| uses_ab(c) && (c.a.buf == i && c.va != 0 || c.b.buf == i && c.vb != 0));
        if users == 1 && wanted { s.base = s.model.clone(); }
    }
    if p.mutators > 0 {
        let after: Vec<usize> = p.callers.iter().flat_map(|c| &c.calls).filter(|c| c.after != 0).flat_map(|c| [c.a.buf, c.b.buf, c.c.buf]).collect();
        for (i, s) in e.bufs.iter().enumerate() {
            if after.contains(&i) { continue; }
            for (x, k) in s.kind.iter().enumerate() { if *k == GAP { e.gaps.push((i, x)); } }
        }
    }
    EX = Some(e);
}

// ---------------------------------------------------------------- one call
unsafe fn permit(c: &Call) {
    let bit = 1u32 << c.id;
    let e = ex();
    if !live(c) { return; }
    let units = |b: &BufSt, x: usize| { if b.w != 0 { return 0..0; } let u = (b.at(x) - ARENA) >> 2; u..u + b.es / 4 };
    if uses_ab(c) {
        each(&c.a, c.m, c.k, |_, _, x| for u in units(&e.bufs[c.a.buf], x) { *attr_rd(u) |= bit; });
        each(&c.b, c.k, c.n, |_, _, x| for u in units(&e.bufs[c.b.buf], x) { *attr_rd(u) |= bit; });
    }
    let rd = !beta0(c);
    each(&c.c, c.m, c.n, |_, _, x| for u in units(&e.bufs[c.c.buf], x) { *attr_wr(u) |= bit; if rd { *attr_rd(u) |= bit; } });
}
#[inline(never)]
unsafe fn invoke(c: &Call, a: usize, b: usize, d: usize) {
    let (m, k, n) = (c.m, c.k, c.n);
    let real = |x: &Mat| { let s = &ex().bufs[x.buf]; (s.real(x.rs) as isize, s.real(x.cs) as isize) };
    let ((rsa, csa), (rsb, csb), (rsc, csc)) = (real(&c.a), real(&c.b), real(&c.c));
    match c.ty {
        0 => matrixmultiply::sgemm(m, k, n, c.alpha[0] as f32, a as *const f32, rsa, csa, b as *const f32, rsb, csb, c.beta[0] as f32, d as *mut f32, rsc, csc),
        1 => matrixmultiply::dgemm(m, k, n, c.alpha[0], a as *const f64, rsa, csa, b as *const f64, rsb, csb, c.beta[0], d as *mut f64, rsc, csc),
        #[cfg(feature = "cgemm")]
        2 => {
            let s = matrixmultiply::CGemmOption::Standard;
            matrixmultiply::cgemm(s, s, m, k, n, [c.alpha[0] as f32, c.alpha[1] as f32], a as *const [f32; 2], rsa, csa, b as *const [f32; 2], rsb, csb,
                [c.beta[0] as f32, c.beta[1] as f32], d as *mut [f32; 2], rsc, csc)
        }
        #[cfg(feature = "cgemm")]
        3 => {
            let s = matrixmultiply::CGemmOption::Standard;
            matrixmultiply::zgemm(s, s, m, k, n, c.alpha, a as *const [f64; 2], rsa, csa, b as *const [f64; 2], rsb, csb, c.beta, d as *mut [f64; 2], rsc, csc)
        }
        _ => harness_error(format_args!("function not built")),
    }
}
fn cmul(a: [f64; 2], b: [f64; 2]) -> [f64; 2] { [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]] }

unsafe extern "C" fn rep_main(arg: *mut u8) -> *mut u8 {
    one_call(&*(arg as *const Call), false);
    core::ptr::null_mut()
}
unsafe fn do_call(c: &'static Call) {
    for _ in 0..c.rep {
        if c.fresh != 0 {
            // each time by a thread that has never called before
            count(Ctr::FFresh);
            match spawn_thread(rep_main, c as *const Call as *mut u8, false) { Ok(t) => retire(t), Err(_) => return }
        } else {
            one_call(c, false);
        }
        if (*rep()).call_state[c.id] != 2 { return; }
        count(Ctr::Repeats);
    }
    one_call(c, true);
}
/// Runs a function in a destructor while the thread unwinds from a panic of its own.
fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct OnDrop<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<R>);
    impl<F: FnOnce() -> R, R> Drop for OnDrop<'_, F, R> {
        fn drop(&mut self) { *self.1 = Some((self.0.take().unwrap())()); }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _on = OnDrop(Some(f), &mut out);
        std::panic::resume_unwind(Box::new(()))
    }));
    out.unwrap()
}
unsafe fn one_call(c: &'static Call, last: bool) {
    let e = ex();
    let p = e.plan;
    let t = cur();
    let id = c.id;
    let bit = 1u32 << id;
    if uses_ab(c) {
        set_version(c.a.buf, c.va);
        if c.b.buf != c.a.buf { set_version(c.b.buf, c.vb); }
    }
    permit(c);
    G.closed &= !bit; // a repeated call begins anew
    let ptr = |m: &Mat, used: bool| if used { e.bufs[m.buf].at(m.off as usize) } else { e.hole };
    let (a, b, d) = (ptr(&c.a, uses_ab(c)), ptr(&c.b, uses_ab(c)), ptr(&c.c, live(c)));
    // probes about the workload
    if !live(c) || c.k == 0 { count(Ctr::EmptyCalls); }
    if beta0(c) { count(Ctr::Beta0); }
    if [c.a.rs, c.a.cs, c.b.rs, c.b.cs, c.c.rs, c.c.cs].iter().any(|x| *x < 0) { count(Ctr::NegStride); }
    if uses_ab(c) && [(c.a.rs, c.m), (c.a.cs, c.k), (c.b.rs, c.k), (c.b.cs, c.n)].iter().any(|x| x.0 == 0 && x.1 > 1) { count(Ctr::ZeroStride); }
    if c.group != 0 { count(Ctr::Interleaved); }
    let kn = &KNOBS[c.ty as usize];
    if uses_ab(c) {
        if c.k > kn.kc { count(Ctr::MultiK); }
        if c.n > kn.nc { count(Ctr::MultiN); }
        if c.m > kn.mc { count(Ctr::MultiM); }
    }
    let fresh_pool = e.warm_done && p.warmup;
    // nothing bad can be found (only paid for) by calling when bits are exhausted
    (*rep()).call_state[id] = 1;
    if e.in_progress != 0 { count(Ctr::ConcCalls); }
    e.in_progress |= bit;
    tr!("call {} begins: {} {}x{}x{}", id, tname(c.ty), c.m, c.k, c.n);
    event(0xCA11 ^ (id as u64) << 32);
    G.call_tids[id] = 1 << t.tid;
    let go = || {
        let t = cur();
        t.call = id as i32;
        t.inlib = true;
        meet_point(3);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if p.step == 1 { crate::step::on(p.feat); }
            invoke(c, a, b, d);
        }));
        if p.step == 1 { crate::step::off(); }
        let t = cur();
        t.inlib = false;
        t.call = -1;
        r
    };
    let r = if c.unw == 0 { go() } else {
        count(Ctr::FUnwind);
        tr!("from a destructor while the thread unwinds");
        while_unwinding(go)
    };
    G.closed |= bit;
    let e = ex();
    e.in_progress &= !bit;
    tr!("call {} {}", id, if r.is_ok() { "returns" } else { "panics" });
    event(0x4E7 ^ (id as u64) << 32);
    let nt = G.call_tids[id].count_ones() as usize;
    let limit = p.thread_limit();
    if nt > limit {
        fail(&[THREADS], format_args!("call {} was executed by {} threads although the limit is {}", id, nt, limit));
    }
    if G.lib_threads_live as usize > limit - 1 {
        let live = G.lib_threads_live;
        fail(&[THREADS], format_args!("the pool holds {} worker threads although the limit is {} threads including the caller", live, limit));
    }
    if nt > 1 { count(Ctr::ParCalls); }
    if nt > 2 { count(Ctr::Par4Calls); }
    if G.call_peak[id] > scratch_bound(c.ty) && fresh_pool {
        fail(&[SCRATCH], format_args!("call {} ({} {}x{}x{}) held {} bytes of scratch memory at once; the blocking parameters allow {}", id, tname(c.ty), c.m, c.k, c.n, G.call_peak[id], scratch_bound(c.ty)));
    }
    match r {
        Err(payload) => {
            (*rep()).call_state[id] = 3;
            count(Ctr::CallsPanicked);
            cur().inlib = true; // the payload lives on the simulated heap
            drop(payload);
            cur().inlib = false;
            let allowed = G.spawn_failed > 0 || G.alloc_failed > 0 || BADKNOB;
            if !allowed {
                fail(&[PANIC], format_args!("call {} ({} {}x{}x{}) panicked although no fault was injected: {}", id, tname(c.ty), c.m, c.k, c.n, e.panic_msg));
            } else if BADKNOB && G.touched & bit != 0 {
                fail(&[REFUSAL], format_args!("call {} refused its blocking parameters after it had touched its operands: {}", id, e.panic_msg));
            } else if G.spawn_failed > 0 && G.wrote & bit != 0 {
                fail(&[REFUSAL], format_args!("call {} panicked because a thread could not be started, after it had written to C: {}", id, e.panic_msg));
            }
            if live(c) {
                // the caller gives the destination known contents again before it goes on
                let s = &mut e.bufs[c.c.buf];
                let wrote = G.wrote & bit != 0 || INSTR == 0;
                each(&c.c, c.m, c.n, |_, _, x| {
                    if wrote || s.kind[x] == DEST0 || s.kind[x] == UNKNOWN {
                        if !wrote {
                            let now = s.bytes_of(x);
                            if now != &s.snap[x * s.es..x * s.es + s.es] { fail(&[REFUSAL, CLOBBER], format_args!("call {} panicked before it had written anything, but element {} of C's memory changed", id, x)); }
                        }
                        let v = initial(p, &p.bufs[c.c.buf], x, true);
                        s.model[x] = v;
                        put(s.at(x), c.ty, v);
                        s.kind[x] = DEST;
                        s.snapshot(x);
                    }
                });
            }
        }
        Ok(()) => {
            (*rep()).call_state[id] = 2;
            count(Ctr::Calls);
            if live(c) { verify(c); }
            if fresh_pool && G.alloc_failed == 0 && G.spawn_failed == 0 {
                let (n, bytes) = live_blocks(Some(id as i32), e.warm_alloc);
                if n > 0 { fail(&[LEAK], format_args!("call {} returned without releasing {} block(s), {} bytes", id, n, bytes)); }
            }
        }
    }
    e.returned += 1;
    if p.shift != 0 && e.returned == p.shift {
        count(Ctr::FShift);
        tr!("environment and processor count change");
        set_env(&p.env2);
        G.ncpu = p.cpus2;
    }
    if last && c.after != 0 && live(c) { destroy(c); }
}

unsafe fn verify(c: &Call) {
    let e = ex();
    let p = e.plan;
    let ty = c.ty;
    let es = esize(ty);
    let single = ty % 2 == 0;
    let u = if single { 2f64.powi(-24) } else { 2f64.powi(-53) };
    let least = if single { 2f64.powi(-149) } else { f64::from_bits(1) };
    let (b0, a0) = (beta0(c), c.alpha == [0.0, 0.0]);
    let quiet = G.oracles & (1 << WRONG | 1 << NANLEAK) == 0;
    // reading the result: every access of the call must be ordered before
    if INSTR != 0 {
        let s = &e.bufs[c.c.buf];
        each(&c.c, c.m, c.n, |_, _, x| harness_access::<false>(s.at(x), es));
    }
    let alpha = if !uses_ab(c) { [0.0, 0.0] } else if single { [c.alpha[0] as f32 as f64, c.alpha[1] as f32 as f64] } else { c.alpha };
    let beta = if single { [c.beta[0] as f32 as f64, c.beta[1] as f32 as f64] } else { c.beta };
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let idx = |m: &Mat, i: usize, j: usize| (m.off + i as i64 * m.rs + j as i64 * m.cs) as usize;
    // columns of B gathered once
    let mut bcol = vec![[0.0; 2]; if uses_ab(c) && !quiet { c.k } else { 0 }];
    let cx = ty >= 2;
    let mut out: Vec<(usize, [f64; 2])> = Vec::with_capacity(c.m * c.n);
    for j in 0..c.n {
        for (l, v) in bcol.iter_mut().enumerate() { *v = e.bufs[c.b.buf].model[idx(&c.b, l, j)]; }
        for i in 0..c.m {
            let x = idx(&c.c, i, j);
            let got = get(e.bufs[c.c.buf].at(x), ty);
            for v in got { let bits = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() }; h = (h ^ bits).wrapping_mul(0x1000_0000_01b3).rotate_left(23); }
            out.push((x, got));
            if quiet { continue; }
            let (mut re, mut im, mut sum) = (0.0f64, 0.0f64, 0.0f64);
            let mut special = !(beta[0].is_finite() && beta[1].is_finite());
            if uses_ab(c) {
                let am = &e.bufs[c.a.buf].model;
                if cx {
                    for l in 0..c.k {
                        let (y, z) = (am[idx(&c.a, i, l)], bcol[l]);
                        re += y[0] * z[0] - y[1] * z[1];
                        im += y[0] * z[1] + y[1] * z[0];
                        sum += (y[0].abs() + y[1].abs()) * (z[0].abs() + z[1].abs());
                    }
                } else {
                    for l in 0..c.k {
                        let w = am[idx(&c.a, i, l)][0] * bcol[l][0];
                        re += w;
                        sum += w.abs();
                    }
                }
                special |= !sum.is_finite() || alpha[0].is_nan();
            }
            let old = e.bufs[c.c.buf].model[x];
            let mut want = if uses_ab(c) { if cx { cmul(alpha, [re, im]) } else { [alpha[0] * re, 0.0] } } else { [0.0, 0.0] };
            let mut mag = (alpha[0].abs() + alpha[1].abs()) * sum;
            if !b0 {
                let o = if cx { cmul(beta, old) } else { [beta[0] * old[0], 0.0] };
                want = [want[0] + o[0], want[1] + o[1]];
                mag += (beta[0].abs() + beta[1].abs()) * (old[0].abs() + old[1].abs());
                special |= !(old[0].is_finite() && old[1].is_finite());
            }
            let parts = if cx { 2 } else { 1 };
            count(Ctr::EdgeTiles);
            if special {
                count(Ctr::NanElems);
                if a0 && !sum.is_finite() { continue; }
                for q in 0..parts {
                    let ok = if want[q].is_nan() { got[q].is_nan() } else { got[q] == want[q] };
                    if !ok { bad(c, i, j, got, want, "a NaN or infinity in its row of A or column of B is lost or altered"); }
                }
                continue;
            }
            for q in 0..parts {
                let ok = if p.data == 0 {
                    got[q] == want[q]
                } else {
                    (got[q] - want[q]).abs() <= 2.0 * (2.0 * c.k as f64 + 16.0) * (u * mag + least * (1.0 + alpha[0].abs() + alpha[1].abs() + beta[0].abs() + beta[1].abs()))
                };
                if !ok {
                    if !got[q].is_finite() {
                        fail(&[NANLEAK, WRONG], format_args!("call {} ({} {}x{}x{}): element ({},{}) is {:?} but all inputs it depends on are finite, expected {:?}", c.id, tname(ty), c.m, c.k, c.n, i, j, got, want));
                    }
                    bad(c, i, j, got, want, if p.data == 0 { "must be exact" } else { "outside the rounding bound" });
                }
            }
            if p.data == 0 { count(Ctr::ExactElems); } else { count(Ctr::FloatElems); }
        }
    }
    (*rep()).out_hash[c.id] = h | 1;
    let s = &mut e.bufs[c.c.buf];
    for (x, v) in out {
        s.model[x] = v;
        s.kind[x] = DEST;
        s.snapshot(x);
    }
}
fn bad(c: &Call, i: usize, j: usize, got: [f64; 2], want: [f64; 2], why: &str) {
    fail(&[WRONG], format_args!("call {} ({} {}x{}x{} alpha {:?} beta {:?}): element ({},{}) is {:?}, expected {:?} ({})",
        c.id, tname(c.ty), c.m, c.k, c.n, c.alpha, c.beta, i, j, got, want, why));
}
/// The caller gives a buffer of inputs other contents: all of them, half of them or few of them.
unsafe fn set_version(bi: usize, v: u8) {
    let e = ex();
    let (s, b) = (&mut e.bufs[bi], &e.plan.bufs[bi]);
    if s.base.is_empty() || s.dead || s.version == v { return; }
    s.version = v;
    count(Ctr::FRewrite);
    tr!("caller rewrites buffer {} (version {})", bi, v);
    let sd = b.seed ^ (v as u64) << 50;
    for x in 0..s.kind.len() {
        if s.kind[x] != INPUT { continue; }
        let fresh = v != 0 && match v % 3 { 1 => true, 2 => hash64(sd, x as u64) & 1 == 0, _ => hash64(sd, x as u64) & 7 == 0 };
        let val = if fresh { initial_seed(e.plan, b, hash64(sd, 0x5eed), x, false) } else { s.base[x] };
        if INSTR != 0 { harness_access::<true>(s.at(x), s.es); }
        s.model[x] = val;
        put(s.at(x), b.ty, val);
        s.snapshot(x);
    }
}
/// The caller frees its operands at once.
unsafe fn destroy(c: &Call) {
    let e = ex();
    let mut bs = vec![c.c.buf];
    if uses_ab(c) { bs.push(c.a.buf); bs.push(c.b.buf); }
    bs.sort();
    bs.dedup();
    for i in bs {
        let s = &mut e.bufs[i];
        if !s.exclusive || s.dead { continue; }
        s.dead = true;
        count(Ctr::FPoison);
        tr!("caller destroys buffer {}", i);
        if INSTR != 0 { for x in 0..s.bytes / s.es { harness_access::<true>(s.addr + x * s.es, s.es); } }
        fill_garbage(s.addr as *mut u8, s.bytes & !3, 1, 0);
        for k in s.kind.iter_mut() { *k = DEAD; }
        if c.after == 2 { sys::mprotect(s.page0 as *mut u8, s.npages * PAGE, sys::PROT_NONE); }
    }
}

// ---------------------------------------------------------------- threads of the run
struct Walk { caller: usize, next: usize }
thread_local! { static LAST: std::cell::RefCell<Option<Tail>> = const { std::cell::RefCell::new(None) }; }
struct Tail(usize, usize);
impl Drop for Tail {
    fn drop(&mut self) {
        // the caller thread is being torn down: thread-local destructors run now
        count(Ctr::FDtor);
        for c in ex().plan.callers[self.0].calls.iter().skip(self.1) { unsafe { do_call(c); } }
    }
}
unsafe extern "C" fn caller_main(arg: *mut u8) -> *mut u8 {
    let w = Box::from_raw(arg as *mut Walk);
    let plan = ex().plan;
    let caller = &plan.callers[w.caller];
    if caller.dtor != 0 && !(w.caller == 0 && plan.warmup) {
        // destructors run in the reverse order of first use: before or after the library's own
        let from = caller.dtor as usize - 1;
        let early = plan.disp & 4 != 0;
        if early { LAST.with(|l| *l.borrow_mut() = Some(Tail(w.caller, from))); }
        for c in caller.calls.iter().take(from) { do_call(c); }
        if !early { LAST.with(|l| *l.borrow_mut() = Some(Tail(w.caller, from))); }
        return core::ptr::null_mut();
    }
    let mut i = w.next;
    while i < caller.calls.len() {
        do_call(&caller.calls[i]);
        i += 1;
        if w.caller == 0 && i == 1 && plan.warmup {
            ex().warm_done = true;
            ex().warm_alloc = G.alloc_no;
            wake(On::Key(1), usize::MAX);
        }
        if caller.churn != 0 && i < caller.calls.len() {
            count(Ctr::FChurn);
            let n = Box::new(Walk { caller: w.caller, next: i });
            let _ = spawn_thread(caller_main, Box::into_raw(n) as *mut u8, false);
            break;
        }
    }
    core::ptr::null_mut()
}
unsafe extern "C" fn mutator_main(arg: *mut u8) -> *mut u8 {
    let mut r = Rng::new(ex().plan.seed ^ 0x6d75_7461 ^ arg as u64);
    let (k, n) = (arg as usize, ex().plan.mutators);
    let mine = ex().gaps.len() / n.max(1);
    if mine == 0 { return core::ptr::null_mut(); }
    for _ in 0..400 {
        let (bi, x) = ex().gaps[k * mine + r.below(mine as u64) as usize];
        let s = &mut ex().bufs[bi];
        let (a, es) = (s.at(x), s.es);
        let seen = std::slice::from_raw_parts(a as *const u8, es);
        if seen != &s.snap[x * es..x * es + es] {
            fail(&[CLOBBER], format_args!("buffer {} element {} lies in a gap between destination or operand elements; what another thread stored there was overwritten while a call was in progress", bi, x));
        }
        let v = (r.next() as u32).to_le_bytes();
        for i in 0..es { let byte = v[i % 4]; *((a + i) as *mut u8) = byte; s.snap[x * es + i] = byte; }
        count(Ctr::FMutate);
        yield_point();
    }
    core::ptr::null_mut()
}
/// Nothing outside the destinations may have changed.
unsafe fn unchanged(all: bool) {
    let e = ex();
    for (bi, s) in e.bufs.iter().enumerate() {
        if s.dead { continue; }
        if s.w != 0 || std::slice::from_raw_parts(s.addr as *const u8, s.bytes) != &s.snap[..] {
            for x in 0..s.kind.len() {
                if s.bytes_of(x) == &s.snap[x * s.es..x * s.es + s.es] { continue; }
                match s.kind[x] {
                    GAP => fail(&[CLOBBER], format_args!("buffer {} element {} lies in a gap or next to an operand and was overwritten", bi, x)),
                    INPUT => fail(&[CLOBBER], format_args!("buffer {} element {} belongs to an input matrix and was overwritten", bi, x)),
                    DEST | DEST0 if all => fail(&[LATE, WRONG], format_args!("buffer {} element {} of a destination changed outside the call that owns it", bi, x)),
                    _ => {}
                }
            }
        }
    }
}
unsafe fn on_refuse() { unchanged(false); }

fn hook(info: &std::panic::PanicHookInfo) {
    // outside the simulated heap
    let was = if active() { let t = cur(); let w = t.inlib; t.inlib = false; w } else { false };
    let s = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if !active() || unsafe { (*(&raw const EX)).is_none() } { harness_error(format_args!("harness panic: {} at {}", s, loc)); }
    let m = format!("{} ({})", s, loc);
    if !was && !cur().lib_thread && cur().call < 0 { harness_error(format_args!("harness panic: {}", m)); }
    tr!("panic: {}", m);
    ex().panic_msg = m;
    cur().inlib = was;
}

unsafe fn set_env(env: &Option<Vec<u8>>) {
    match env {
        None => { sys::unsetenv(c"MATMUL_NUM_THREADS".as_ptr() as *const u8); }
        Some(v) => {
            let mut z = v.clone();
            z.push(0);
            sys::setenv(c"MATMUL_NUM_THREADS".as_ptr() as *const u8, z.as_ptr(), 1);
            if !v.is_empty() && std::str::from_utf8(v).map_or(true, |s| s.parse::<usize>().is_err()) { count(Ctr::FEnv); }
        }
    }
}
unsafe fn set_stderr(mode: u8) {
    match mode {
        1 => { let fd = sys::open(c"/dev/full".as_ptr() as *const u8, 1); sys::dup2(fd, 2); count(Ctr::FStderr); }
        3 => { sys::close(2); count(Ctr::FStderr); }
        2 => { let mut p = [0i32; 2]; sys::pipe(p.as_mut_ptr()); sys::close(p[0]); sys::dup2(p[1], 2); count(Ctr::FStderr); }
        _ => { let fd = sys::open(c"/dev/null".as_ptr() as *const u8, 1); sys::dup2(fd, 2); }
    }
}
fn policy_of(p: &Plan) -> Policy {
    let kind = if p.sched.is_some() { Pol::Replay } else { [Pol::Serial, Pol::Random, Pol::Rr, Pol::Pct, Pol::Target, Pol::Replay][p.pol as usize] };
    Policy { kind, q: p.q, p_sync: p.p_sync, tmask: p.tmask, p_t: p.p_t, d: p.d, est: p.est_steps(), seed: p.pol_seed }
}
pub unsafe fn run_child(p: &'static Plan, trace: bool) -> ! {
    G.oracles = p.oracles;
    G.trace = trace;
    G.ncpu = p.cpus;
    G.fill = p.fill;
    G.place = p.place;
    G.stack_disp = p.disp;
    G.clk = p.clk;
    G.spurious_p = p.spurious;
    G.meet = p.meet;
    for (i, x) in p.alloc_fail.iter().take(8).enumerate() { G.alloc_fail[i] = *x; G.nalloc_fail = i + 1; }
    for (i, x) in p.spawn_fail.iter().take(8).enumerate() { G.spawn_fail[i] = *x; G.nspawn_fail = i + 1; }
    for (i, x) in p.stalls.iter().take(16).enumerate() { G.stalls[i] = Stall { tid: x.0, at: x.1, dur: x.2 }; G.nstalls = i + 1; }
    if crate::feat::MASK_MOD == 16 { count(Ctr::AlignRes16); }
    G.on_refuse = Some(on_refuse);
    set_env(&p.env);
    // limits meant for other libraries
    for (i, k) in [c"OMP_NUM_THREADS", c"RAYON_NUM_THREADS", c"OPENBLAS_NUM_THREADS", c"MKL_NUM_THREADS", c"BLIS_NUM_THREADS", c"NUM_THREADS"].iter().enumerate() {
        match p.disp >> (8 + i) & 3 {
            0 => { sys::setenv(k.as_ptr() as *const u8, c"64".as_ptr() as *const u8, 1); }
            1 => { sys::setenv(k.as_ptr() as *const u8, c"1".as_ptr() as *const u8, 1); }
            _ => { sys::unsetenv(k.as_ptr() as *const u8); }
        }
    }
    set_stderr(p.stderr);
    if p.feat != 0 { crate::feat::apply(p.feat); count(Ctr::FFeat); }
    if p.step == 2 { crate::step::arm(p.feat); count(Ctr::TrapRuns); }
    std::panic::set_hook(Box::new(hook));
    place(p);
    if p.callers.iter().any(|c| c.calls.iter().any(|x| x.warm != 0)) { count(Ctr::FPre); }
    if let Some(s) = &p.sched { G.forced = s.as_ptr(); G.nforced = s.len(); }
    if INSTR != 0 {
        // per-process CPU watchdog: a call that computes nothing observable forever
        let it = [0i64, 250_000, 0, 250_000];
        sys::setitimer(2, &it, core::ptr::null_mut());
    }
    let est = p.est_steps();
    begin(policy_of(p), 40 * est + 3_000_000);
    G.checks = INSTR != 0;
    for i in 0..p.callers.len() {
        let w = Box::new(Walk { caller: i, next: 0 });
        let _ = spawn_thread(caller_main, Box::into_raw(w) as *mut u8, false);
        if i == 0 && p.warmup {
            while !ex().warm_done { block_on(On::Key(1), false); }
        }
    }
    for k in 0..p.mutators { let _ = spawn_thread(mutator_main, k as *mut u8, false); }
    // (a caller may go on in a place that was looked at already)
    while let Some(i) = (1..G.nth).find(|&i| !TH[i].lib_thread && !matches!(TH[i].state, St::Done | St::Unused)) { join_tid(i); }
    for i in 1..G.nth { if !TH[i].lib_thread { join_tid(i); } }
    // let the pool become idle, then look at the whole picture
    for _ in 0..2 { yield_point(); }
    while (0..G.nth).any(|i| TH[i].lib_thread && TH[i].state == St::Run) { yield_point(); }
    finish();
    unchanged(true);
    if p.warmup && G.alloc_failed == 0 && G.spawn_failed == 0 && ex().warm_done {
        let (n, bytes) = live_blocks(None, ex().warm_alloc);
        if n > 0 { fail(&[LEAK], format_args!("after all calls returned and their threads ended, {} block(s) ({} bytes) allocated after the pool's creation are still held", n, bytes)); }
    }
    (*rep()).status = 1;
    sys::exit_now(0)
}
