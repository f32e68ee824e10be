//! Blocking parameters of the library as built (read from the same build-time variables).
pub struct Knobs { pub mc: usize, pub kc: usize, pub nc: usize }
const fn num(s: Option<&str>, d: usize) -> usize {
    match s {
        None => d,
        Some(s) => { let b = s.as_bytes(); let mut i = 0; let mut v = 0; while i < b.len() { v = v * 10 + (b[i] - b'0') as usize; i += 1; } v }
    }
}
pub const KNOBS: [Knobs; 4] = [
    Knobs { mc: num(option_env!("MATMUL_SGEMM_MC"), 64), kc: num(option_env!("MATMUL_SGEMM_KC"), 256), nc: num(option_env!("MATMUL_SGEMM_NC"), 1024) },
    Knobs { mc: num(option_env!("MATMUL_DGEMM_MC"), 64), kc: num(option_env!("MATMUL_DGEMM_KC"), 256), nc: num(option_env!("MATMUL_DGEMM_NC"), 1024) },
    Knobs { mc: num(option_env!("MATMUL_CGEMM_MC"), 32), kc: num(option_env!("MATMUL_CGEMM_KC"), 256), nc: num(option_env!("MATMUL_CGEMM_NC"), 512) },
    Knobs { mc: num(option_env!("MATMUL_ZGEMM_MC"), 32), kc: num(option_env!("MATMUL_ZGEMM_KC"), 256), nc: num(option_env!("MATMUL_ZGEMM_NC"), 512) },
];
pub const VARIANT: &str = match option_env!("GSIM_VARIANT") { Some(s) => s, None => "plain" };
/// 0 none, 1 access instrumentation, 2 thread instrumentation
pub const INSTR: u8 = match option_env!("GSIM_INSTR") { Some(s) => s.as_bytes()[0] - b'0', None => 0 };
pub const THREADING: bool = cfg!(feature = "threading");
pub const STD: bool = cfg!(feature = "std");
/// the build uses parameters the library must refuse
pub const BADKNOB: bool = match option_env!("GSIM_BADKNOB") { Some(_) => true, None => false };
pub fn est(ty: u8, m: usize, k: usize, n: usize) -> u64 {
    let (m, k, n) = (m as u64, k as u64, n as u64);
    let kn = &KNOBS[ty as usize];
    let (kb, nb) = (k.div_ceil(kn.kc.max(1) as u64).max(1), n.div_ceil(kn.nc.max(1) as u64).max(1));
    let cx = if ty >= 2 { 4 } else { 1 };
    let mr = m.div_ceil(8) * 8;
    let nr = n.div_ceil(8) * 8;
    cx * (mr * k * nr / 4 + 8 * (mr * k * nb + k * nr + mr * nr * kb)) + 3000
}
/// upper bound on the scratch memory of one call: twice what four workers need
pub fn scratch_bound(ty: u8) -> u64 {
    let k = &KNOBS[ty as usize];
    (2 * crate::plan::esize(ty) * (4 * k.kc * (k.mc + 8) + k.kc * (k.nc + 8)) + 4096) as u64
}
