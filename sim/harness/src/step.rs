//! Single-steps a call and decodes every instruction executed in this program.
use gsim_rt::*;
static mut LO: usize = 0;
static mut HI: usize = 0;
static mut ALLOW: [bool; 5] = [true; 5];
static mut SITES: Vec<(usize, Need)> = Vec::new();
static mut TRAPS: Vec<(usize, u8, Need)> = Vec::new();
static mut ARMED: bool = false;

pub unsafe fn init() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    for l in maps.lines() {
        if !l.ends_with(&exe) || !l.contains("r-xp") { continue; }
        if let Some((a, b)) = l.split(' ').next().and_then(|r| r.split_once('-')) {
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            if LO == 0 { LO = a; }
            HI = HI.max(b);
        }
    }
}
/// First mapping of the executable (load base).
pub fn exe_base() -> usize {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    maps.lines().find(|l| l.ends_with(&exe)).and_then(|l| l.split('-').next()).and_then(|a| usize::from_str_radix(a, 16).ok()).unwrap_or(0)
}
unsafe extern "C" fn on_trap(_s: i32, _i: *const i32, uc: *mut i64) {
    if !ARMED { *uc.add(5 + 17) &= !0x100; return; }
    let rip = *uc.add(5 + 16) as usize;
    if rip < LO || rip >= HI { return; }
    (*rep()).counters[Ctr::Insns as usize] += 1;
    judge(classify(rip as *const u8), rip);
}
/// [AVX, AVX2, FMA, SSE3 to SSE4.2, anything newer]
fn allow(feat: u8) -> [bool; 5] { let g = crate::feat::grants(feat); [g[0], g[1], g[2], g[5], g[8]] }
fn permitted(n: Need) -> (bool, &'static str) {
    let a = unsafe { &*(&raw const ALLOW) };
    match n {
        Need::Base => (true, ""),
        Need::Avx => (a[0], "AVX"),
        Need::Avx2 => (a[1], "AVX2"),
        Need::Fma => (a[2], "FMA"),
        Need::Sse => (a[3], "SSE3..SSE4"),
        Need::Other => (a[4], "BMI, F16C or AVX-512"),
    }
}
unsafe fn judge(n: Need, rip: usize) {
    let (good, what) = permitted(n);
    if good || !(cur().inlib || cur().lib_thread) { return; }
    let mut b = [0u8; 8];
    for (i, x) in b.iter_mut().enumerate() { *x = original(rip + i); }
    violation(INSN, format_args!("call {} executes an {} instruction (bytes {:02x} {:02x} {:02x} {:02x} {:02x} {:02x}) that the processor does not report; code at +{:#x}",
        cur().call, what, b[0], b[1], b[2], b[3], b[4], b[5], rip - G.exe_base));
}
unsafe fn original(a: usize) -> u8 {
    let t = &*(&raw const TRAPS);
    match t.binary_search_by_key(&a, |x| x.0) { Ok(i) => t[i].1, Err(_) => *(a as *const u8) }
}
/// Learn where instructions begin (from the disassembly made by check.py).
pub unsafe fn load_sites() {
    let exe = match std::fs::read_link("/proc/self/exe") { Ok(e) => e, Err(_) => return };
    let d = match std::fs::read(format!("{}.sites", exe.display())) { Ok(d) => d, Err(_) => return };
    for w in d.chunks_exact(4) {
        let a = exe_base() + u32::from_le_bytes([w[0], w[1], w[2], w[3]]) as usize;
        if a < LO || a >= HI { continue; }
        let n = classify(a as *const u8);
        if n != Need::Base { (*(&raw mut SITES)).push((a, n)); }
    }
}
unsafe extern "C" fn on_int3(_s: i32, _i: *const i32, uc: *mut i64) {
    let rip = *uc.add(5 + 16) as usize - 1;
    let t = &*(&raw const TRAPS);
    if let Ok(i) = t.binary_search_by_key(&rip, |x| x.0) {
        judge(t[i].2, rip);
        // not the library's doing: let it run
        *(rip as *mut u8) = t[i].1;
        *uc.add(5 + 16) = rip as i64;
    }
}
/// From here on executing an instruction of a feature that is not there traps, as on the real processor.
pub unsafe fn arm(feat: u8) {
    ALLOW = allow(feat);
    let s = &*(&raw const SITES);
    if s.is_empty() { harness_error(format_args!("no list of instructions beside the executable")); }
    let (lo, hi) = (LO & !4095, (HI + 4095) & !4095);
    if sys::mprotect(lo as *mut u8, hi - lo, 7) != 0 { harness_error(format_args!("program text cannot be made writable")); }
    let t = &mut *(&raw mut TRAPS);
    for (a, n) in s {
        if permitted(*n).0 { continue; }
        t.push((*a, *(*a as *const u8), *n));
    }
    for x in t.iter() { *(x.0 as *mut u8) = 0xcc; }
    let sa = sys::SigAction { handler: on_int3 as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000 | 0x1000_0000, restorer: 0 };
    sys::sigaction(5, &sa, core::ptr::null_mut());
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Need { Base, Avx, Avx2, Fma, Sse, Other }
/// Which feature an instruction needs (64-bit mode).
pub unsafe fn classify(mut p: *const u8) -> Need {
    let (mut f2, mut f3, mut p66) = (false, false, false);
    for _ in 0..14 {
        match *p { 0xf2 => f2 = true, 0xf3 => f3 = true, 0x66 => p66 = true, _ => {} }
        match *p { 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0 | 0x67 => p = p.add(1), _ => break }
    }
    if *p & 0xf0 == 0x40 { p = p.add(1); }
    match *p {
        0x62 => Need::Other,
        0x0f => match *p.add(1) { 0x38 if *p.add(2) >= 0xf0 => Need::Other, 0x38 | 0x3a => Need::Sse,
            // movddup, movsldup, movshdup, horizontal and alternating sums, lddqu, popcnt
            0x12 if f2 || f3 => Need::Sse, 0x16 if f3 => Need::Sse, 0x7c | 0x7d | 0xd0 if f2 || p66 => Need::Sse,
            0xf0 if f2 => Need::Sse, 0xb8 if f3 => Need::Sse,
            _ => Need::Base },
        0xc5 => { let b = *p.add(1); vex(1, b & 3, b & 4 != 0, *p.add(2), *p.add(3)) }
        0xc4 => { let (b1, b2) = (*p.add(1), *p.add(2)); vex(b1 & 0x1f, b2 & 3, b2 & 4 != 0, *p.add(3), *p.add(4)) }
        _ => Need::Base,
    }
}
fn vex(map: u8, pp: u8, l: bool, op: u8, modrm: u8) -> Need {
    match map {
        1 => {
            if pp != 1 { return if pp >= 2 && op == 0x70 && l { Need::Avx2 } else { Need::Avx }; } // no prefix, f3, f2: float or moves
            let int = matches!(op, 0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe);
            if int && l { Need::Avx2 } else { Need::Avx }
        }
        2 => match op {
            0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => Need::Fma,
            0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7 | 0x13 => Need::Other,
            0x0c..=0x0f | 0x17 | 0x2c..=0x2f => Need::Avx,
            0x18..=0x1a => if modrm >> 6 == 3 { Need::Avx2 } else { Need::Avx },
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => Need::Avx2,
            _ => if l { Need::Avx2 } else { Need::Avx },
        },
        3 => match op {
            0x1d | 0xf0 => Need::Other,
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => Need::Avx2,
            0x0e | 0x0f | 0x42 | 0x4c => if l { Need::Avx2 } else { Need::Avx },
            _ => Need::Avx,
        },
        _ => Need::Other,
    }
}
pub unsafe fn on(feat: u8) {
    ALLOW = allow(feat);
    let sa = sys::SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000 | 0x1000_0000, restorer: 0 };
    sys::sigaction(5, &sa, core::ptr::null_mut());
    ARMED = true;
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
pub unsafe fn off() {
    core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    ARMED = false;
}
