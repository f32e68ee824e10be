//! The processor's feature set as the program sees it: std caches the detection
//! result in a static; the simulator finds it and masks bits before a run.
use std::arch::is_x86_feature_detected as has;

static mut WORDS: [*mut usize; 3] = [core::ptr::null_mut(); 3];
#[derive(Clone, Copy, Default)]
struct Bit { word: usize, mask: usize }
const N: usize = 15;
static mut BITS: [Option<Bit>; N] = [None; N];
pub static mut HAVE: [bool; N] = [false; N];

#[inline(never)]
fn now() -> [bool; N] {
    [has!("avx"), has!("avx2"), has!("fma"), // what plans choose from
     has!("sse3"), has!("ssse3"), has!("sse4.1"), has!("sse4.2"), has!("popcnt"), // comes with avx
     has!("bmi1"), has!("bmi2"), has!("lzcnt"), has!("f16c"), has!("avx512f"), has!("avx512vl"), has!("avx512bw")] // newer
}

fn symbol(elf: &[u8], want: &str) -> Option<usize> {
    let u64at = |o: usize| u64::from_le_bytes(elf[o..o + 8].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(elf[o..o + 4].try_into().unwrap()) as usize;
    let u16at = |o: usize| u16::from_le_bytes(elf[o..o + 2].try_into().unwrap()) as usize;
    let (shoff, shnum) = (u64at(40), u16at(60));
    for i in 0..shnum {
        let s = shoff + i * 64;
        if u32at(s + 4) != 2 { continue; }
        let (off, size, link) = (u64at(s + 24), u64at(s + 32), u32at(s + 40));
        let stroff = u64at(shoff + link * 64 + 24);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let n = stroff + u32at(e);
            let end = elf[n..].iter().position(|c| *c == 0).unwrap() + n;
            let name = std::str::from_utf8(&elf[n..end]).unwrap_or("");
            if name.contains(want) { return Some(u64at(e + 8)); }
        }
    }
    None
}
/// Learn the layout of the thread-local block.
pub unsafe fn tls_init() -> Result<(), String> {
    let elf = std::fs::read("/proc/self/exe").map_err(|e| e.to_string())?;
    let u64at = |o: usize| u64::from_le_bytes(elf[o..o + 8].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(elf[o..o + 4].try_into().unwrap()) as usize;
    let u16at = |o: usize| u16::from_le_bytes(elf[o..o + 2].try_into().unwrap()) as usize;
    let (phoff, phnum) = (u64at(32), u16at(56));
    for i in 0..phnum {
        let h = phoff + i * 56;
        if u32at(h) == 7 { let (sz, al) = (u64at(h + 40), u64at(h + 48).max(1)); gsim_rt::G.tls_size = (sz + al - 1) / al * al; }
    }
    if gsim_rt::G.tls_size > 4096 { return Err("thread-local block too large".into()); }
    let (shoff, shnum) = (u64at(40), u16at(60));
    let mut id = 0u8;
    for i in 0..shnum {
        let s = shoff + i * 64;
        if u32at(s + 4) != 2 { continue; }
        let (off, size, link) = (u64at(s + 24), u64at(s + 32), u32at(s + 40));
        let stroff = u64at(shoff + link * 64 + 24);
        for k in 0..size / 24 {
            let e = off + k * 24;
            if elf[e + 4] & 15 != 6 || u16at(e + 6) == 0 { continue; }
            id += 1;
            let (v, n) = (u64at(e + 8), u64at(e + 16));
            for b in v..(v + n).min(gsim_rt::G.tls_size) { gsim_rt::mem::TLSMAP[b] = id; }
            let name = elf[stroff + u32at(e)..].split(|c| *c == 0).next().unwrap_or(&[]);
            if String::from_utf8_lossy(name).contains("MASK_BUF") { MASK_MOD = (64 * 1024 + v - gsim_rt::G.tls_size) % 32; }
        }
    }
    Ok(())
}
/// address of the kernel's thread-local buffer modulo 32 (64: not there)
pub static mut MASK_MOD: usize = 64;
/// Locate the cache; must run before any plan does.
pub unsafe fn init(exe_base: usize) -> Result<(), String> {
    HAVE = now(); // initialises the cache
    let elf = std::fs::read("/proc/self/exe").map_err(|e| e.to_string())?;
    let a = symbol(&elf, "std_detect6detect5cache5CACHE").ok_or("no symbol for std's feature cache")?;
    for i in 0..3 { WORDS[i] = (exe_base + a + 8 * i) as *mut usize; }
    for w in 0..3 {
        for b in 0..64 {
            let p = WORDS[w];
            let old = p.read_volatile();
            if old & (1 << b) == 0 { continue; }
            // keep "initialised" markers: they change nothing that now() reports
            p.write_volatile(old & !(1 << b));
            let n = now();
            p.write_volatile(old);
            for f in 0..N { if HAVE[f] && !n[f] { BITS[f] = Some(Bit { word: w, mask: 1 << b }); } }
        }
    }
    for f in 0..N { if HAVE[f] && BITS[f].is_none() { return Err(format!("feature bit {} not found", f)); } }
    Ok(())
}
/// What the plan's feature set grants.
pub fn grants(feat: u8) -> [bool; N] {
    let (avx, avx2, fma) = match feat { 0 | 5 => (true, true, true), 1 => (true, false, true), 2 => (true, false, false), 3 => (false, false, false), _ => (true, true, false) };
    let mut g = [feat == 0; N];
    g[0] = avx;
    g[1] = avx2;
    g[2] = fma;
    for x in &mut g[3..8] { *x = avx; }
    g
}
pub unsafe fn apply(feat: u8) {
    let g = grants(feat);
    for f in 0..N {
        if !g[f] { if let Some(b) = BITS[f] { *WORDS[b.word] &= !b.mask; } }
    }
    let n = now();
    for f in 0..N { if n[f] != (g[f] && HAVE[f]) { gsim_rt::harness_error(format_args!("feature masking failed")); } }
}
