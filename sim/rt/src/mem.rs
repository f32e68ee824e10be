//! Shadow memory: who may touch what (footprint), and is every pair of
//! conflicting accesses ordered (races).  Plus the simulated heap.
use crate::*;
use std::alloc::Layout;

#[repr(C)]
pub struct Cell { pub w: u32, pub r: [u32; 3] }
#[inline(always)]
pub unsafe fn cell(off: usize) -> *mut Cell { (SHADOW + (off >> 2) * 16) as *mut Cell }
#[inline(always)]
pub unsafe fn attr_rd(unit: usize) -> *mut u32 { (ATTR_RD + unit * 4) as *mut u32 }
#[inline(always)]
pub unsafe fn attr_wr(unit: usize) -> *mut u32 { (ATTR_WR + unit * 4) as *mut u32 }
#[inline(always)]
pub unsafe fn heapst(unit: usize) -> *mut u8 { (HEAPST + unit) as *mut u8 }
#[inline(always)]
fn epoch(t: &Th) -> u32 { (t.vc[t.tid] << 6) | t.tid as u32 }
#[inline(always)]
fn hb(e: u32, t: &Th) -> bool { t.vc[(e & 63) as usize] >= (e >> 6) }

pub const Z_OPS: u8 = 1;
pub const Z_HEAP: u8 = 2;
pub const Z_STK: u8 = 4;
pub const Z_DATA: u8 = 8;
/// For each byte of a thread's thread-local block: which variable it belongs to (0: padding).
pub static mut TLSMAP: [u8; 4096] = [0; 4096];

fn zone_name(z: u8) -> &'static str { match z { Z_OPS => "operand memory", Z_HEAP => "scratch/heap memory", Z_DATA => "static variables", _ => "a thread's stack or thread-local memory" } }

#[cold]
#[inline(never)]
unsafe fn race(off: usize, size: usize, w: bool, other: u32, other_w: bool, z: u8, site: usize) {
    if G.oracles & (1 << RACE) == 0 { return; }
    // Without knowledge of atomics (access instrumentation only) a few small
    // locations outside the operands may be atomics: wait for more evidence.
    if G.instr == 1 && z != Z_OPS && size < 16 {
        let u = off >> 2;
        for i in 0..G.nrace_units { if G.race_units[i] == u { return; } }
        if G.nrace_units < 5 {
            G.race_units[G.nrace_units] = u;
            G.nrace_units += 1;
            return;
        }
    }
    let t = cur();
    violation(RACE, format_args!("{} of {} byte(s) of {} (offset {:#x}) by t{} (call {}) is not ordered after the {} by t{}; code at +{:#x}",
        if w { "write" } else { "read" }, size, zone_name(z), off, t.tid, t.call,
        if other_w { "write" } else { "read" }, other & 63, site.wrapping_sub(G.exe_base)));
}

#[inline(always)]
unsafe fn race_unit<const W: bool>(t: &Th, e: u32, off: usize, size: usize, z: u8, site: usize) {
    let c = &mut *cell(off);
    if W {
        if c.w != e {
            if c.w != 0 && !hb(c.w, t) { race(off, size, true, c.w, true, z, site); }
            if c.w & 63 != e & 63 && c.w != 0 { (*rep()).counters[Ctr::RacesChecked as usize] += 1; }
        }
        if c.r[0] != 0 {
            for i in 0..3 {
                let r = c.r[i];
                if r != 0 && r != e && !hb(r, t) { race(off, size, true, r, false, z, site); }
                c.r[i] = 0;
            }
        }
        c.w = e;
    } else {
        if c.w != e && c.w != 0 {
            if !hb(c.w, t) { race(off, size, false, c.w, true, z, site); }
            if c.w & 63 != e & 63 { (*rep()).counters[Ctr::RacesChecked as usize] += 1; }
        }
        if c.r[0] == e { return; }
        let me = e & 63;
        for i in 0..3 {
            let r = c.r[i];
            if r == 0 || r & 63 == me || hb(r, t) { c.r[i] = e; return; }
        }
        let i = (G.sampler.next() % 3) as usize;
        c.r[i] = e;
    }
}

/// The units an access covers in full; what is left at its ends goes byte by byte.
#[inline(always)]
unsafe fn race_range<const W: bool>(t: &Th, e: u32, off: usize, size: usize, z: u8, site: usize) {
    let (lo, hi) = ((off + 3) >> 2, (off + size) >> 2);
    for u in lo..hi { race_unit::<W>(t, e, u << 2, size, z, site); }
    if G.instr == 2 && (off | size) & 3 != 0 {
        if lo > hi { race_bytes::<W>(t, e, off, off + size, z, site); return; }
        race_bytes::<W>(t, e, off, lo << 2, z, site);
        race_bytes::<W>(t, e, hi << 2, off + size, z, site);
    }
}
const NBYTES: usize = 4096;
static mut BYTES: [(usize, Cell); NBYTES] = [const { (0, Cell { w: 0, r: [0; 3] }) }; NBYTES];
static mut NBYTES_USED: usize = 0;
#[cold]
#[inline(never)]
unsafe fn race_bytes<const W: bool>(t: &Th, e: u32, from: usize, to: usize, z: u8, site: usize) {
    for off in from..to {
        // whole words read or written there
        let c = &*cell(off & !3);
        if c.w != 0 && !hb(c.w, t) { race(off, 1, W, c.w, true, z, site); }
        for i in 0..3 { if W && c.r[i] != 0 && !hb(c.r[i], t) { race(off, 1, true, c.r[i], false, z, site); } }
        // single bytes
        let mut i = (off.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % NBYTES;
        while BYTES[i].0 != 0 && BYTES[i].0 != off { i = (i + 1) % NBYTES; }
        if BYTES[i].0 == 0 {
            if NBYTES_USED * 2 > NBYTES { continue; }
            NBYTES_USED += 1;
            BYTES[i].0 = off;
        }
        let c = &mut (*(&raw mut BYTES))[i].1;
        if c.w != 0 && !hb(c.w, t) { race(off, 1, W, c.w, true, z, site); }
        if c.w != 0 && c.w & 63 != e & 63 { (*rep()).counters[Ctr::RacesChecked as usize] += 1; }
        if W {
            for i in 0..3 { if c.r[i] != 0 && !hb(c.r[i], t) { race(off, 1, true, c.r[i], false, z, site); } c.r[i] = 0; }
            c.w = e;
        } else {
            let i = (0..3).find(|&i| c.r[i] == 0 || c.r[i] & 63 == e & 63 || hb(c.r[i], t)).unwrap_or(0);
            c.r[i] = e;
        }
    }
}
/// A block is handed out (again): nothing has touched it yet.
unsafe fn forget_bytes(from: usize, to: usize) {
    if NBYTES_USED == 0 { return; }
    for b in (*(&raw mut BYTES)).iter_mut() { if b.0 >= from && b.0 < to { b.1 = Cell { w: 0, r: [0; 3] }; } }
}

/// The check behind every instrumented access.
#[inline(always)]
pub unsafe fn access<const W: bool>(addr: usize, size: usize, site: usize) {
    if !G.active { return; }
    let t = &mut *G.cur;
    t.lstep += 1;
    if t.lstep >= t.next_ev { slow_access(); }
    let off = addr.wrapping_sub(ARENA);
    if off >= ARENA_LEN { if G.instr == 2 { statics::<W>(t, addr, size, site); } return; }
    G.hash = (G.hash.rotate_left(5) ^ off as u64 ^ ((t.tid as u64) << 40)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    if !G.checks { return; }
    check::<W>(t, off, size, site);
}

/// Static variables: only where atomics are told apart from plain accesses.
#[inline(never)]
unsafe fn statics<const W: bool>(t: &mut Th, addr: usize, size: usize, site: usize) {
    if !G.checks || addr < G.data_lo || addr + size > G.data_hi { return; }
    event(0xDA7A ^ (addr - G.data_lo) as u64);
    if G.oracles & (1 << RACE) == 0 { return; }
    race_range::<W>(t, epoch(t), ARENA_LEN + addr - G.data_lo, size, Z_DATA, site);
}
#[cold]
#[inline(never)]
unsafe fn bad_tls(rel: usize, size: usize, w: bool, slot: usize, site: usize) {
    violation(HEAP_BAD, format_args!("t{} (call {}) {} {} byte(s) at offset {:#x} of t{}'s thread-local block, outside or across the variables there; code at +{:#x}",
        cur().tid, cur().call, if w { "writes" } else { "reads" }, size, rel, slot, site.wrapping_sub(G.exe_base)));
}
#[inline(always)]
unsafe fn target(z: u8, t: &mut Th) {
    if G.pol.tmask & z != 0 && G.pol.kind == Pol::Target && !G.fair && t.next_ev != t.lstep
        && (G.rng.next() & 0xffff) < G.pol.p_t
    {
        t.next_ev = t.lstep + 1; // switch right after this access
    }
}

#[inline(always)]
pub unsafe fn check<const W: bool>(t: &mut Th, off: usize, size: usize, site: usize) {
    let e = epoch(t);
    let u0 = off >> 2;
    let u1 = (off + size - 1) >> 2;
    if off < OPS_LEN {
        target(Z_OPS, t);
        let call = t.call;
        if call < 0 || G.closed & (1 << call) != 0 { late(off, size, W, site); }
        else {
            let bit = 1u32 << call;
            G.touched |= bit;
            G.call_tids[call as usize] |= 1 << t.tid;
            if W { G.wrote |= bit; }
            for u in u0..=u1 {
                if W {
                    if *attr_wr(u) & bit == 0 { footprint(u << 2, size, true, site); }
                    *attr_rd(u) |= bit;
                } else if *attr_rd(u) & bit == 0 { footprint(u << 2, size, false, site); }
            }
        }
        if size < 4 || G.oracles & (1 << RACE) == 0 { return; }
        for u in u0..=u1 { race_unit::<W>(t, e, u << 2, size, Z_OPS, site); }
    } else if off < OPS_LEN + HEAP_LEN {
        target(Z_HEAP, t);
        let h0 = (OPS_LEN) >> 2;
        let mut big = false;
        for u in u0..=u1 {
            let s = *heapst(u - h0);
            if s & 3 != 1 { bad_heap(off, size, W, s, site); }
            big |= s & 4 != 0;
        }
        if t.call >= 0 && t.lib_thread { G.call_tids[t.call as usize] |= 1 << t.tid; }
        // without knowledge of atomics, small blocks (reference counts and the like) are left out
        if (G.instr == 1 && !big) || G.oracles & (1 << RACE) == 0 { return; }
        race_range::<W>(t, e, off, size, Z_HEAP, site);
    } else {
        target(Z_STK, t);
        let slot = (off - OPS_LEN - HEAP_LEN) / SLOT;
        let rel = (ARENA + off).wrapping_sub((TH[slot].pthread as usize).wrapping_sub(G.tls_size));
        if rel < G.tls_size {
            let id = TLSMAP[rel];
            if id == 0 || rel + size > G.tls_size || TLSMAP[rel + size - 1] != id { bad_tls(rel, size, W, slot, site); }
            (*rep()).counters[Ctr::MaskTls as usize] += 1;
        }
        if slot != t.tid && t.lib_thread && t.call >= 0 && G.closed & (1 << t.call) != 0 {
            violation(LATE, format_args!("t{} {} {} byte(s) on the stack (or thread-local memory) of t{} after call {} had returned; code at +{:#x}",
                t.tid, if W { "writes" } else { "reads" }, size, slot, t.call, site.wrapping_sub(G.exe_base)));
        }
        if G.oracles & (1 << RACE) == 0 { return; }
        race_range::<W>(t, e, off, size, Z_STK, site);
    }
}

#[cold]
#[inline(never)]
unsafe fn late(off: usize, size: usize, w: bool, site: usize) {
    let t = cur();
    violation(LATE, format_args!("t{} {} {} byte(s) of operand memory (offset {:#x}) {}; code at +{:#x}", t.tid,
        if w { "writes" } else { "reads" }, size, off,
        if t.call < 0 { "outside any call".to_string_() } else { fmt_call(t.call) }, site.wrapping_sub(G.exe_base)));
}
// (no allocation in here: small stand-ins for String)
struct SmallStr([u8; 48], usize);
impl std::fmt::Display for SmallStr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(core::str::from_utf8(&self.0[..self.1]).unwrap_or("")) }
}
trait ToSmall { fn to_string_(&self) -> SmallStr; }
impl ToSmall for str {
    fn to_string_(&self) -> SmallStr { let mut b = [0; 48]; let n = self.len().min(48); b[..n].copy_from_slice(&self.as_bytes()[..n]); SmallStr(b, n) }
}
fn fmt_call(c: i32) -> SmallStr {
    let mut s = "after the return of call ".to_string_();
    if c >= 10 { s.0[s.1] = b'0' + (c / 10) as u8; s.1 += 1; }
    s.0[s.1] = b'0' + (c % 10) as u8; s.1 += 1;
    s
}
#[cold]
#[inline(never)]
unsafe fn footprint(off: usize, size: usize, w: bool, site: usize) {
    let t = cur();
    let u = off >> 2;
    let bit = 1u32 << t.call;
    let at = site.wrapping_sub(G.exe_base);
    if w {
        violation(OOB_W, format_args!("call {} (t{}) writes {} byte(s) at operand-memory offset {:#x}, which is not an element of its C ({}); code at +{:#x}",
            t.call, t.tid, size, off,
            if *attr_rd(u) & bit != 0 { "it belongs to its A or B" } else { "it is a gap, a neighbour or another call's memory" }, at));
    } else if *attr_wr(u) & bit != 0 {
        violation(C_READ, format_args!("call {} (t{}) has beta = 0 and reads {} byte(s) of its old C (offset {:#x}); code at +{:#x}", t.call, t.tid, size, off, at));
    } else {
        violation(OOB_R, format_args!("call {} (t{}) reads {} byte(s) at operand-memory offset {:#x}, which is not an element of its operands; code at +{:#x}",
            t.call, t.tid, size, off, at));
    }
}
#[cold]
#[inline(never)]
unsafe fn bad_heap(off: usize, size: usize, w: bool, s: u8, site: usize) {
    let t = cur();
    violation(HEAP_BAD, format_args!("t{} (call {}) {} {} byte(s) of {} heap memory (offset {:#x}); code at +{:#x}", t.tid, t.call,
        if w { "writes" } else { "reads" }, size, if s == 2 { "released" } else { "never allocated (out of bounds)" }, off, site.wrapping_sub(G.exe_base)));
}
/// A harness access that must be ordered like any other (reading results, freeing operands).
pub unsafe fn harness_access<const W: bool>(addr: usize, size: usize) {
    if !G.active || !G.checks || G.oracles & (1 << RACE | 1 << LATE) == 0 { return; }
    let off = addr.wrapping_sub(ARENA);
    if off >= ARENA_LEN { return; }
    let t = cur();
    let e = epoch(t);
    for u in (off >> 2)..=((off + size - 1) >> 2) {
        let c = &mut *cell(u << 2);
        let mut bad = 0;
        if c.w != 0 && !hb(c.w, t) { bad = c.w; }
        if W { for i in 0..3 { if c.r[i] != 0 && !hb(c.r[i], t) { bad = c.r[i]; } } }
        if bad != 0 {
            let class = if G.oracles & (1 << LATE) != 0 { LATE } else { RACE };
            violation(class, format_args!("after its call returned, the caller (t{}) {} operand memory at offset {:#x}, but an access by t{} is not ordered before the return",
                t.tid, if W { "reuses" } else { "reads" }, u << 2, bad & 63));
        }
        if W { c.w = e; c.r = [0; 3]; } else {
            let mut done = false;
            for i in 0..3 { if c.r[i] == 0 || hb(c.r[i], t) { c.r[i] = e; done = true; break; } }
            if !done { c.r[0] = e; }
        }
    }
}

// ---------------------------------------------------------------- simulated heap
const MAXB: usize = 4096;
#[derive(Clone, Copy)]
pub struct Block { pub addr: usize, pub size: usize, pub align: usize, pub live: bool, pub call: i32, pub tid: u16, pub no: u64 }
pub static mut BLOCKS: [Block; MAXB] = [Block { addr: 0, size: 0, align: 0, live: false, call: -1, tid: 0, no: 0 }; MAXB];
pub static mut NBLOCKS: usize = 0;

pub unsafe fn fill_garbage(p: *mut u8, n: usize, mode: u32, seed: u64) {
    let words = n / 4;
    let q = p as *mut u32;
    match mode {
        0 => core::ptr::write_bytes(p, 0, n),
        1 => core::ptr::write_bytes(p, 0xff, n),                                   // quiet NaN everywhere
        2 => { for i in 0..words { *q.add(i) = 0x7f81_0001; } }                     // f32 signalling NaN, huge f64
        3 => { for i in 0..words { *q.add(i) = if i & 1 == 1 { 0x7ff0_0000 } else { 0x7f80_0000 }; } } // infinities
        4 => { for i in 0..words { *q.add(i) = if i & 1 == 1 { 0x4090_0000 } else { 0x44fa_0000 }; } } // large ordinary numbers
        _ => { let mut r = Rng::new(seed); for i in 0..words { *q.add(i) = r.next() as u32; } }
    }
}
pub unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    crate::meet_point(1);
    let t = cur();
    G.alloc_no += 1;
    let big = l.size() >= 256;
    G.big_no += big as u64;
    count(Ctr::Allocs);
    let no = G.alloc_no;
    event(0xA110C ^ (l.size() as u64) << 20);
    for i in 0..G.nalloc_fail {
        let f = G.alloc_fail[i];
        if if f >= BIG { big && fails(f - BIG, G.big_no) } else { fails(f, no) } {
            G.alloc_failed += 1;
            count(Ctr::FAllocFail);
            tr!("allocation #{} of {} bytes refused (fault)", no, l.size());
            return core::ptr::null_mut();
        }
    }
    if G.place & 4 != 0 {
        // what real allocators do: the block released last is handed out again as it was left
        for i in (0..NBLOCKS).rev() {
            let b = &mut BLOCKS[i];
            if b.live || b.size != l.size() || b.align != l.align() { continue; }
            b.live = true;
            b.call = t.call;
            b.tid = t.tid as u16;
            b.no = no;
            let a = b.addr;
            let st = if l.size() >= 1024 { 5 } else { 1 };
            for u in (a - HEAP) / 4..=(a + l.size().max(1) - 1 - HEAP) / 4 {
                *heapst(u) = st;
                *cell(a - ARENA + (u - (a - HEAP) / 4) * 4) = Cell { w: 0, r: [0; 3] };
            }
            forget_bytes(a - ARENA, a - ARENA + l.size());
            if t.call >= 0 {
                let c = t.call as usize;
                G.call_live[c] += l.size() as u64;
                if G.call_live[c] > G.call_peak[c] { G.call_peak[c] = G.call_live[c]; }
            }
            count(Ctr::FBlockReuse);
            tr!("allocates #{}: {} bytes, align {} (call {}), an earlier block again", no, l.size(), l.align(), t.call);
            return a as *mut u8;
        }
    }
    let align = l.align().max(1);
    let red = 64 + (rng::hash64(G.stack_disp ^ 77, no) % 8) as usize * 64;
    let mut a = G.heap_top + red;
    a = (a + 3) & !3;
    a = (a + align - 1) & !(align - 1);
    let pick = if G.place & 3 == 2 { rng::hash64(G.stack_disp ^ 91, no) % 8 } else { (G.place & 1) as u64 };
    if pick >= 4 && l.size() >= 1024 {
        let big = [4096usize, 65536, 1 << 21, 1 << 21][pick as usize - 4];
        let at = (G.heap_top + red + big - 1) & !(big - 1);
        if at.max(a) - HEAP + l.size() < HEAP_LEN / 2 { a = at; count(Ctr::FHugeAlign); }
    } else if pick & 1 == 1 && align >= 4 {
        if a % (2 * align) == 0 { a += align; }
        count(Ctr::FMinAlign);
    } else if align < 4 { a = (a + 3) & !3; }
    let end = a + l.size().max(1);
    if end + 4096 > HEAP + HEAP_LEN || NBLOCKS >= MAXB {
        if l.size() > HEAP_LEN / 4 { violation(SCRATCH, format_args!("a single request for {} bytes", l.size())); }
        // not the library's fault: end quietly
        end_run_unfinished();
    }
    G.heap_top = end;
    BLOCKS[NBLOCKS] = Block { addr: a, size: l.size(), align: l.align(), live: true, call: t.call, tid: t.tid as u16, no };
    NBLOCKS += 1;
    let st = if l.size() >= 1024 { 5 } else { 1 };
    for u in (a - HEAP) / 4..=(end - 1 - HEAP) / 4 { *heapst(u) = st; }
    if t.call >= 0 {
        let c = t.call as usize;
        G.call_live[c] += l.size() as u64;
        if G.call_live[c] > G.call_peak[c] { G.call_peak[c] = G.call_live[c]; }
    }
    if G.fill != 0 && l.size() > 0 { fill_garbage(a as *mut u8, l.size(), G.fill, rng::hash64(G.pol.seed, no)); count(Ctr::FGarbage); }
    tr!("allocates #{}: {} bytes, align {} (call {})", no, l.size(), l.align(), t.call);
    a as *mut u8
}
pub unsafe fn sim_dealloc(p: *mut u8, l: Layout) {
    if !G.active { return; }
    crate::meet_point(2);
    let t = cur();
    event(0xDEA ^ (l.size() as u64) << 20);
    for i in (0..NBLOCKS).rev() {
        let b = &mut BLOCKS[i];
        if b.addr != p as usize { continue; }
        if !b.live { violation(LAYOUT, format_args!("block #{} is released twice", b.no)); return; }
        if b.size != l.size() || b.align != l.align() {
            violation(LAYOUT, format_args!("block #{} was requested with size {} align {} and is released with size {} align {}", b.no, b.size, b.align, l.size(), l.align()));
        }
        b.live = false;
        if b.call >= 0 { G.call_live[b.call as usize] = G.call_live[b.call as usize].saturating_sub(b.size as u64); }
        let (a, n) = (b.addr, b.size.max(1));
        tr!("releases #{} ({} bytes)", b.no, b.size);
        // releasing is a write: everything that used the block must come before
        if G.checks && G.oracles & (1 << LATE | 1 << RACE | 1 << HEAP_BAD) != 0 && b.call >= 0 && b.size >= 1024 {
            for u in (a - ARENA) / 4..=(a + n - 1 - ARENA) / 4 {
                let c = &*cell(u << 2);
                let mut bad = 0;
                if c.w != 0 && !hb(c.w, t) { bad = c.w; }
                for i in 0..3 { if c.r[i] != 0 && !hb(c.r[i], t) { bad = c.r[i]; } }
                if bad != 0 {
                    let class = if G.oracles & (1 << LATE) != 0 { LATE } else if G.oracles & (1 << RACE) != 0 { RACE } else { HEAP_BAD };
                    violation(class, format_args!("t{} releases scratch block #{} while the last access to it by t{} is not ordered before the release", t.tid, b.no, bad & 63));
                }
            }
        }
        crate::sync::forget(a, a + n);
        for u in (a - HEAP) / 4..=(a + n - 1 - HEAP) / 4 { *heapst(u) = 2; }
        if G.place & 4 == 0 { fill_garbage(p, l.size(), 1, 0); }
        return;
    }
    violation(LAYOUT, format_args!("a pointer that was never allocated is released"));
}
/// Live blocks attributed to a call (or to any call when `call` is None), newer than `after`.
pub unsafe fn live_blocks(call: Option<i32>, after: u64) -> (usize, u64) {
    let (mut n, mut bytes) = (0, 0);
    for i in 0..NBLOCKS {
        let b = &BLOCKS[i];
        if b.live && b.no > after && call.map_or(true, |c| b.call == c) { n += 1; bytes += b.size as u64; }
    }
    (n, bytes)
}
pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_library() { sim_alloc(l) } else { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize).wrapping_sub(ARENA) < ARENA_LEN { sim_dealloc(p, l) } else { std::alloc::System.dealloc(p, l) }
    }
}
