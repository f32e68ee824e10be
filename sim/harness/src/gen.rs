//! Plans from seeds.
use crate::knobs::*;
use crate::plan::*;
use gsim_rt::rng::*;
use gsim_rt::*;

pub fn oracles(prop: &str) -> u32 {
    let f = |cs: &[u32]| cs.iter().fold(0u32, |a, c| a | 1 << c);
    match prop {
        "C01" => f(&[WRONG, NANLEAK, CRASH, PANIC]),
        "C02" => f(&[WRONG, NANLEAK, BITDIFF, CRASH, PANIC, HANG, LIVELOCK]),
        "C03" => f(&[RACE, CRASH]),
        "C04" => f(&[LATE, CRASH]),
        "C05" => f(&[OOB_W, CLOBBER, CRASH]),
        "C06" => f(&[OOB_R, CRASH]),
        "C07" => f(&[C_READ, WRONG, NANLEAK, BITDIFF]),
        "C08" => f(&[BITDIFF, WRONG, NANLEAK]),
        "C09" => f(&[WRONG, NANLEAK, CRASH, PANIC, HEAP_BAD, CLOBBER, REFUSAL, HANG, LIVELOCK]),
        "C10" => f(&[LEAK, LAYOUT, HEAP_BAD, SCRATCH, CRASH]),
        "C11" => f(&[THREADS, PANIC, WRONG, NANLEAK, CRASH, HANG, LIVELOCK, POISON]),
        "C12" => f(&[INSN, WRONG, NANLEAK, CRASH, PANIC]),
        "C13" => f(&[BITDIFF]),
        "C14" => f(&[HANG, LIVELOCK, PANIC, CRASH]),
        "C15" => f(&[REFUSAL, WRONG, NANLEAK, CRASH, PANIC, HANG, LIVELOCK]),
        "C16" => f(&[WRONG, NANLEAK, RACE, OOB_W, OOB_R, LATE, C_READ, HEAP_BAD, CLOBBER, CRASH, PANIC, HANG, LIVELOCK, REFUSAL, LAYOUT]),
        "C17" => f(&[WRONG, NANLEAK, BITDIFF, CRASH, PANIC, HEAP_BAD]),
        _ => u32::MAX & !(1 << LEAK) & !(1 << INSN), // "ALL": used for self-tests
    }
}

fn gcd_like(r: &mut Rng, base: usize) -> usize {
    // base, base +- small, multiples
    let mult = *r.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
    let d = *r.pick(&[-2i64, -1, -1, 0, 0, 0, 1, 1, 2, 3, 5]);
    ((base * mult) as i64 + d).max(1) as usize
}
fn dim(r: &mut Rng, base: usize, small_only: bool) -> usize {
    match r.below(if small_only { 60 } else { 100 }) {
        0..=1 => 0,
        2..=7 => 1,
        8..=29 => 1 + r.below(10) as usize,
        30..=44 => *r.pick(&[4usize, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33]),
        45..=59 => 1 + r.below(40) as usize,
        60..=89 => gcd_like(r, base),
        _ => 1 + r.below(3 * base as u64 + 3) as usize,
    }
}
/// Dimensions big enough for `want` threads by the documented size rule (a multiple of 16384 elements of A and B).
fn par_dims(r: &mut Rng, ty: u8, want: usize, budget: u64) -> (usize, usize, usize) {
    let kn = &KNOBS[ty as usize];
    for _ in 0..60 {
        let need = 16384 * want as u64 + r.below(4000);
        let k = match r.below(8) {
            0 => 1,
            1..=2 => 1 + r.below(6) as usize,
            3..=5 => gcd_like(r, kn.kc),
            _ => 1 + r.below(2 * kn.kc as u64 + 2) as usize,
        };
        let sum = (need / k as u64 + 1) as usize;
        let (m, n);
        if r.chance(1, 5) {
            // tall: few columns
            let nn = 1 + r.below(24) as usize;
            if sum <= nn { continue; }
            n = nn;
            m = sum - nn + r.below(16) as usize;
        } else {
            let mm = match r.below(6) {
                0 => 1 + r.below(8) as usize,
                1..=2 => 3 * (kn.mc / 2) + r.below(5) as usize,
                3 => (3 * (kn.mc / 2)).saturating_sub(1 + r.below(3) as usize).max(1),
                4 => gcd_like(r, kn.mc),
                _ => 1 + r.below(4 * kn.mc as u64 + 4) as usize,
            };
            if sum <= mm { continue; }
            m = mm;
            n = sum - mm + r.below(16) as usize;
        }
        if (m as u64) * (k as u64) * (n as u64) > budget { continue; }
        if (m as u64) * (n as u64) > 700_000 { continue; }
        return (m, k, n);
    }
    (4, 2, 16384 * want / 2 + 8)
}
fn dims(r: &mut Rng, ty: u8, budget: u64, p_par: u64, small: bool) -> (usize, usize, usize) {
    if r.below(100) < p_par {
        let w = *r.pick(&[2usize, 2, 4, 4, 4]);
        return par_dims(r, ty, w, budget.max(1_500_000));
    }
    let kn = &KNOBS[ty as usize];
    if !small && r.chance(1, 80) {
        // one dimension that no longer fits 16 bits
        let big = 65536 + *r.pick(&[0usize, 0, 1, 2, 3, 7, 8, 9, 63, 300]) - r.chance(1, 3) as usize;
        let (x, y) = (1 + r.below(2) as usize, 1 + r.below(2) as usize);
        return *r.pick(&[(big, x, y), (x, big, y), (x, y, big)]);
    }
    for _ in 0..40 {
        let (m, k, n) = (dim(r, kn.mc, small), dim(r, kn.kc, small), dim(r, kn.nc, small));
        if (m as u64) * (k as u64) * (n as u64) <= budget && (m * k).max(k * n).max(m * n) < 400_000 { return (m, k, n); }
    }
    (3, 5, 4)
}
/// (rs, cs) for a rows x cols matrix.  `dst`: elements must not alias.
fn layout(r: &mut Rng, rows: usize, cols: usize, dst: bool) -> (i64, i64) {
    let (rw, cl) = (rows.max(1) as i64, cols.max(1) as i64);
    let pad = |r: &mut Rng| *r.pick(&[0i64, 0, 0, 1, 2, 3, 7]);
    let (mut rs, mut cs) = match r.below(if dst { 80 } else { 100 }) {
        0..=29 => (cl + pad(r), 1),
        30..=56 => (1, rw + pad(r)),
        57..=68 => { let s = 2 + r.below(3) as i64; (cl * s + pad(r), s) }
        69..=79 => { let s = 2 + r.below(3) as i64; (s, rw * s + pad(r)) }
        80..=86 => *r.pick(&[(0, 1), (1, 0), (0, 0), (0, 3), (2, 0)]),
        87..=93 => *r.pick(&[(1, 1), (1, 2), (2, 1), (-1, 1), (1, -1)]), // overlapping rows (Hankel/Toeplitz)
        _ => { let s = 1 + r.below(3) as i64; (s, s * 2 + 1) }
    };
    if r.chance(1, 6) { rs = -rs; }
    if r.chance(1, 6) { cs = -cs; }
    // strides that are never used may be anything
    if rows <= 1 && r.chance(1, 4) { rs = *r.pick(&[0, 1, -5, 1 << 30, cl]); }
    if cols <= 1 && r.chance(1, 4) { cs = *r.pick(&[0, 1, -5, 1 << 30, rw]); }
    (rs, cs)
}
fn span(rows: usize, cols: usize, rs: i64, cs: i64) -> (i64, i64) {
    if rows == 0 || cols == 0 { return (0, 0); }
    let (r1, c1) = ((rows as i64 - 1) * rs, (cols as i64 - 1) * cs);
    ([0, r1].iter().min().unwrap() + [0, c1].iter().min().unwrap(), [0, r1].iter().max().unwrap() + [0, c1].iter().max().unwrap())
}
struct Gen<'a> { r: &'a mut Rng, p: Plan, guard: u64, mis: u64, far: u64, next_id: usize }
impl Gen<'_> {
    fn buf(&mut self, ty: u8, len: usize) -> usize {
        let r = &mut *self.r;
        let span = if r.chance(1, 4) { 4096 } else { 64 };
        let mis = if r.below(100) < self.mis { r.below((span / ealign(ty)) as u64) as usize * ealign(ty) } else { 0 };
        let guard = if r.below(100) < self.guard { 1 + r.below(2) as u8 } else { 0 };
        let gap = *r.pick(&[1u8, 2, 3, 4, 5, 5]);
        let pat = if r.chance(1, 12) { 1 + r.below(4) as u8 } else { 0 };
        self.p.bufs.push(Buf { ty, len, mis, guard, seed: r.next() >> 1, gap, pat, w: 0, pitch: 0 });
        self.p.bufs.len() - 1
    }
    fn mat(&mut self, ty: u8, rows: usize, cols: usize, dst: bool) -> Mat {
        if rows > 0 && cols > 0 && rows.min(cols) <= 100 && self.r.below(100) < self.far { return self.far_mat(ty, rows, cols); }
        let (rs, cs) = layout(self.r, rows, cols, dst);
        self.mat_with(ty, rows, cols, rs, cs)
    }
    /// Rows (or columns) gigabytes apart.
    fn far_mat(&mut self, ty: u8, rows: usize, cols: usize) -> Mat {
        let r = &mut *self.r;
        let by_rows = cols > 100 || rows <= 100 && r.chance(1, 2);
        let (pieces, per) = if by_rows { (rows, cols) } else { (cols, rows) };
        let s = *r.pick(&[1usize, 1, 2, 3]);
        let w = ((per - 1) * s + 1).max(2) + r.below(3) as usize;
        // the farthest element just beyond what 31 or 32 bits hold, counted in bytes or in elements
        let reach = r.pick(&[1usize << 31, 1 << 32]) / if r.chance(1, 2) { esize(ty) } else { 1 };
        let pitch = (reach / (pieces - 1).max(1)).max(1 << 14) + w + r.below(5) as usize;
        let b = self.buf(ty, w * pieces);
        self.p.bufs[b].w = w;
        self.p.bufs[b].pitch = pitch;
        let (mut off, mut far, mut near) = (0, w as i64, s as i64);
        if self.r.chance(1, 5) { off += w as i64 * (pieces as i64 - 1); far = -far; }
        if self.r.chance(1, 5) { off += near * (per as i64 - 1); near = -near; }
        if by_rows { Mat { buf: b, off, rs: far, cs: near } } else { Mat { buf: b, off, rs: near, cs: far } }
    }
    fn mat_with(&mut self, ty: u8, rows: usize, cols: usize, rs: i64, cs: i64) -> Mat {
        let (lo, hi) = span(rows, cols, rs, cs);
        let lead = *self.r.pick(&[0i64, 0, 0, 1, 2, 5]);
        let tail = *self.r.pick(&[0i64, 0, 0, 1, 3]);
        let len = (hi - lo + 1 + lead + tail) as usize;
        let b = self.buf(ty, if rows == 0 || cols == 0 { 4 } else { len });
        Mat { buf: b, off: if rows == 0 || cols == 0 { 0 } else { lead - lo }, rs, cs }
    }
}
fn scalar(r: &mut Rng, ty: u8, data: u8, beta: bool) -> [f64; 2] {
    let one = |r: &mut Rng| -> f64 {
        if data >= 1 && r.chance(1, 2) { return (r.range(-1000, 1000) as f64 / 700.0) as f32 as f64; }
        *r.pick(if beta { &[0.0, 0.0, 1.0, 1.0, -1.0, 2.0, 0.5] } else { &[1.0, 1.0, 1.0, -1.0, 2.0, 0.5, 0.0, 3.0] })
    };
    let re = one(r);
    let im = if ty >= 2 && r.chance(1, 2) { one(r) } else { 0.0 };
    [re, im]
}

/// Which comparison with a second execution a property uses.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Twin { None, Alone, Sched, History, Place, CFill }
pub fn twin_kind(prop: &str) -> Twin {
    match prop { "C02" => Twin::Alone, "C13" => Twin::Sched, "C08" => Twin::History, "C17" => Twin::Place, "C07" => Twin::CFill, _ => Twin::None }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut p = Plan { seed, prop: prop.to_string(), oracles: oracles(prop), ..Plan::default() };
    let heavy = r.chance(1, 40);
    let tiny = KNOBS[0].nc < 128; // blocking parameters small: boundaries are cheap
    let mut budget: u64 = if heavy { 6_000_000 } else if tiny { *r.pick(&[20_000u64, 60_000, 200_000]) } else { *r.pick(&[60_000u64, 300_000, 1_200_000]) };
    let mut p_par = if THREADING { 35 } else { 0 };
    let (mut max_callers, mut max_calls) = (3u64, 3u64);
    let mut p_beta0 = 40;
    let mut p_guard = 30;
    let mut p_mis = 60;
    let mut p_group = 30;
    let mut p_float = 15;
    let mut p_special = 25;
    let mut p_after = 30;
    let mut p_stall = 25;
    let mut p_churn = 15;
    let mut p_empty_small = false;
    let p_far = match prop { "C01" | "C05" | "C06" | "C16" | "C17" => 4, "C02" | "C12" | "C15" => 1, _ => 0 };
    let mut p_again = 20; // repeat the previous call with other contents in the same memory
    // --- thread limit
    let t = *r.pick(&[1usize, 2, 3, 4, 4, 4]);
    p.cpus = *r.pick(&[1usize, 2, 3, 4, 8, 64]);
    p.env = match r.below(10) { 0..=6 => Some(t.to_string().into_bytes()), 7 => Some(vec![]), _ => None };
    p.feat = if STD { *r.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4, 5]) } else { 0 };
    p.fill = *r.pick(&[1u32, 2, 3, 4, 5, 5]);
    p.place = *r.pick(&[0u8, 1, 1, 2, 2]) | *r.pick(&[0u8, 0, 0, 4]);
    p.disp = r.next() >> 1;
    p.clk = *r.pick(&[1u64, 1, 30, 1000, 1_000_000]);
    match prop {
        "C01" => { p_special = 35; max_callers = 2; }
        "C02" => { max_callers = 4; p_group = 60; p_par = p_par * 3 / 2; p_float = 50; p_special = 10; }
        "C03" => { p_par = p_par * 2; p_group = 40; p_special = 0; }
        "C04" => { p_again = 10; p_par = p_par * 2; p_after = 90; p_stall = 50; p_special = 0; p_beta0 = 30; }
        "C05" => { p.mutators = r.below(3) as usize; p_guard = 50; p_special = 0; }
        "C06" => { p_guard = 60; p_special = 0; p.mutators = r.below(2) as usize; }
        "C07" => { p_beta0 = 90; p_special = 10; max_callers = 2; p_float = 40; }
        "C08" => { p_again = 35; p_special = 20; p_float = 50; max_callers = 2; }
        "C09" => { p_again = 10; p_special = 0; max_callers = 3; budget = budget.min(*r.pick(&[20_000, 60_000, 200_000])); }
        "C10" => { p.place &= 3; p.warmup = true; p_special = 0; max_calls = 5; p_churn = 30; }
        "C11" => {
            p_par = p_par * 2; p_special = 5; budget = budget.min(300_000);
            let garbage: [&[u8]; 16] = [b"abc", b"-1", b"2.5", b" 2", b"2 ", b"0x4", b"99999999999999999999999", b"\xff\xfe4", b"1e1", b"four", b"-", b"4\n", b"\xc3\x28", b"NaN", b"_", b"340282366920938463463374607431768211456"];
            p.env = match r.below(12) {
                0..=4 => Some(garbage[r.below(16) as usize].to_vec()),
                5..=8 => Some(r.pick(&["0", "1", "2", "3", "4", "5", "7", "16", "1000000", "18446744073709551615", "00", "003", "+3", "0000000000000000000000000004"]).as_bytes().to_vec()),
                9 => Some(vec![]),
                _ => None,
            };
            p.cpus = *r.pick(&[0usize, 1, 1, 2, 3, 4, 6, 128]);
            p.stderr = *r.pick(&[0u8, 0, 1, 2, 3]);
        }
        "C12" => {
            p.feat = *r.pick(&[0u8, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5]);
            p_special = 5;
            max_callers = 2;
            p.step = if INSTR == 0 { 1 + r.chance(9, 10) as u8 } else { 0 };
            if p.step == 1 { p_par = 0; budget = 3000; max_callers = 1; max_calls = 4; p.env = Some(b"1".to_vec()); p_empty_small = true; }
        }
        "C13" => { p_par = p_par * 2; p_float = 100; p_special = 0; }
        "C14" => { p_again = 5; max_callers = 6; max_calls = 5; p_stall = 60; p_churn = 40; p.spurious = *r.pick(&[0u64, 0, 100, 500]); budget = budget.min(60_000); p_par = p_par * 3 / 2; p_special = 0; p_group = 10; }
        "C15" => { p_special = 0; budget = budget.min(60_000); max_callers = 4; p.env = if r.chance(4, 5) { Some(r.pick(&["2", "3", "4", "4", "8"]).as_bytes().to_vec()) } else { None }; p.cpus = *r.pick(&[2usize, 4, 8]); p.spurious = *r.pick(&[0u64, 0, 200]); }
        "C16" => { p_par = p_par * 3 / 2; }
        "C17" => { p_mis = 95; p.place = *r.pick(&[1u8, 2, 2]) | *r.pick(&[0u8, 0, 0, 4]); p_float = 40; p_guard = 20; max_callers = 2; }
        _ => {}
    }
    // a crowd of callers with little work each
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C08" | "C10" | "C14" | "C15" | "C16") && r.chance(1, 20) {
        max_callers = 10; max_calls = max_calls.min(2); p_churn = 5; budget = budget.min(20_000);
        if r.chance(1, 3) { max_callers = 24; max_calls = 1; budget = budget.min(8_000); }
        if !(matches!(prop, "C02" | "C14") && r.chance(1, 2)) { p_par /= 3; } else if p_par > 0 { p_par = 80; }
    }
    if p.spurious == 0 && r.chance(1, 6) { p.spurious = 100; }
    if THREADING && p.step != 1 && r.chance(1, if prop == "C11" { 5 } else { 12 }) {
        p.shift = 1 + r.below(3);
        p.env2 = match r.below(6) { 0..=3 => Some((1 + r.below(6)).to_string().into_bytes()), 4 => Some(b"x".to_vec()), _ => None };
        p.cpus2 = *r.pick(&[1usize, 2, 4, 64]);
    }
    // faults
    if prop == "C09" {
        let n = 1 + r.below(2);
        for _ in 0..n { let lim = *r.pick(&[4u64, 12, 30, 40]); p.alloc_fail.push(1 + r.below(lim)); }
        // several in a row: those of calls that are in progress at the same time
        if r.chance(1, 4) { let (f, n) = (p.alloc_fail[0], 1 + r.below(3)); for i in 1..=n { p.alloc_fail.push(f + i); } }
        p.alloc_fail.sort(); p.alloc_fail.dedup();
        if r.chance(1, 5) { p.alloc_fail[0] += FROM; p.alloc_fail.truncate(1); }
        if r.chance(1, 3) {
            // scratch memory only
            let f = 1 + r.below(6);
            p.alloc_fail = match r.below(5) { 0 => vec![f], 1 => vec![f + FROM], 2 => vec![f, f + 1 + r.below(3)], n => (f..f + n).collect() };
            for x in p.alloc_fail.iter_mut() { *x += BIG; }
        }
    }
    if prop == "C15" {
        p.spawn_fail = match r.below(7) { 0 => vec![1], 1 => vec![2], 2 => vec![3], 3 => vec![1, 2], 4 => vec![FROM + 1 + r.below(3)], 5 => (1..=8).collect(), _ => vec![1 + r.below(4)] };
    }
    let data = if r.below(100) < p_float { *r.pick(&[1u8, 1, 1, 1, 2, 2, 3, 3, 4]) } else { 0 };
    p.data = data;
    let mut g = Gen { r, p, guard: p_guard, mis: p_mis, far: p_far, next_id: 0 };
    let ncallers = if g.r.chance(1, 3) { 1 } else { 1 + g.r.below(max_callers) as usize };
    // an interleaved destination shared by all callers
    let group = ncallers > 1 && g.r.below(100) < p_group;
    let gty = pick_type(g.r);
    let gslots = ncallers as i64;
    let gmode = g.r.below(3); // 0 element-interleaved, 1 stacked row blocks, 2 side by side column blocks
    let (gm, gk, gn) = dims(g.r, gty, budget, p_par, p_empty_small);
    let (gm, gn) = (gm.max(1), gn.max(1));
    let gbuf;
    let (mut grs, mut gcs) = (0, 0);
    if group {
        let (rs, cs) = if g.r.chance(1, 2) { (gn as i64, 1) } else { (1, gm as i64) };
        let len;
        match gmode {
            0 => { grs = rs * gslots; gcs = cs * gslots; len = (gm * gn) as i64 * gslots; }
            1 => { // row blocks of one (gslots*gm) x gn matrix
                if rs == 1 { grs = 1; gcs = gslots * gm as i64; } else { grs = gn as i64; gcs = 1; }
                len = gslots * (gm * gn) as i64; }
            _ => { if rs == 1 { grs = 1; gcs = gm as i64; } else { grs = gslots * gn as i64; gcs = 1; }
                len = gslots * (gm * gn) as i64; }
        }
        gbuf = g.buf(gty, len as usize);
    } else { gbuf = 0; }
    // an input shared by several calls
    let shared_in: Option<(u8, usize, Mat, usize, usize)> = if g.r.chance(1, 3) {
        let ty = if group { gty } else { pick_type(g.r) };
        let (m, k, _) = dims(g.r, ty, budget, 0, true);
        let (m, k) = (m.max(1), k.max(1));
        let mt = g.mat(ty, m, k, false);
        Some((ty, 0, mt, m, k))
    } else { None };
    for ci in 0..ncallers {
        let churn = (g.r.below(100) < p_churn) as u8;
        let dtor = if STD && g.r.chance(1, 12) { 1 + g.r.below(3) as u8 } else { 0 };
        let ncalls = 1 + g.r.below(max_calls) as usize;
        let mut calls: Vec<Call> = vec![];
        for j in 0..ncalls {
            if g.next_id >= MAXCALLS { break; }
            let in_group = group && j == (ncalls - 1).min(1);
            if !in_group && g.r.below(100) < p_again {
                if let Some(pc) = calls.last_mut().filter(|c| c.group == 0 && live(c)) {
                    pc.after = 0;
                    let mut c = pc.clone();
                    again(g.r, &mut c, shared_in.as_ref().map(|s| s.2.buf), data, p_beta0);
                    if calls.iter().filter(|x| x.c.buf == c.c.buf).count() >= 2 && data == 0 { c.beta = [0.0, 0.0]; }
                    c.id = g.next_id;
                    g.next_id += 1;
                    calls.push(c);
                    continue;
                }
            }
            let ty = if in_group { gty } else { pick_type(g.r) };
            let mut small_budget = budget;
            if j > 0 && !in_group { small_budget = budget / 2; }
            let (mut m, mut k, mut n) = if in_group { (gm, gk, gn) } else { dims(g.r, ty, small_budget, if j == 0 { p_par } else { p_par / 2 }, p_empty_small) };
            if in_group && g.r.chance(1, 3) { m = 1 + g.r.below(gm as u64) as usize; n = 1 + g.r.below(gn as u64) as usize; }
            let alpha = scalar(g.r, ty, data, false);
            let mut beta = scalar(g.r, ty, data, true);
            if (g.r.below(100)) < p_beta0 { beta = [0.0, 0.0]; }
            let mut a = None;
            if let Some((sty, _, mt, sm, sk)) = &shared_in {
                if *sty == ty && g.r.chance(1, 2) {
                    if !in_group { m = (*sm).min(m.max(1)); }
                    if m <= *sm { k = (*sk).min(k.max(1)); a = Some(mt.clone()); }
                }
            }
            if g.next_id == 0 && g.p.warmup { m = m.max(1); k = k.max(1); n = n.max(1); }
            let a = a.unwrap_or_else(|| g.mat(ty, m, k, false));
            // B made of A's own elements: the same matrix, its transpose or a corner of it
            let b = if m == k && k == n && m > 0 && g.r.chance(1, 8) { a.clone() }
                else if !in_group && m > 0 && k > 0 && n > 0 && m * m * k <= 2 * budget as usize && g.r.chance(1, 16) { n = m; Mat { rs: a.cs, cs: a.rs, ..a.clone() } }
                else if !in_group && k > 0 && n > 0 && m >= k && g.r.chance(1, 16) { n = n.min(k); a.clone() }
                else { g.mat(ty, k, n, false) };
            // reuse the previous destination as destination (accumulate) or start a new one
            let prev = calls.last().filter(|c: &&Call| c.ty == ty && c.group == 0 && c.after == 0 && !in_group).cloned();
            let mut group_no = 0;
            let c = if in_group {
                group_no = 1 + gmode as u8;
                let s = ci as i64;
                let off = match gmode { 0 => s, 1 => s * gm as i64 * grs, _ => s * gn as i64 * gcs };
                Mat { buf: gbuf, off, rs: grs, cs: gcs }
            } else if let (Some(pc), true) = (&prev, g.r.chance(1, 3)) {
                if pc.m > 0 && pc.n > 0 && m >= 1 && n >= 1 && pc.m >= m && pc.n >= n { pc.c.clone() } else { g.mat(ty, m, n, true) }
            } else { g.mat(ty, m, n, true) };
            let after = if group_no == 0 && g.r.below(100) < p_after { 1 + g.r.below(2) as u8 } else { 0 };
            let id = g.next_id;
            g.next_id += 1;
            // keep exact data exact: bound the magnitude of chained accumulations
            if prev.is_some() && data == 0 && calls.iter().filter(|x| x.c.buf == c.buf).count() >= 2 { beta = [0.0, 0.0]; }
            if g.r.below(100) < p_special && m > 0 && k > 0 && a.rs != 0 && a.cs != 0 {
                let i = g.r.below(m as u64) as i64;
                let l = g.r.below(k as u64) as i64;
                let idx = a.off + i * a.rs + l * a.cs;
                let kind = if ty < 2 && alpha[0] != 0.0 { g.r.below(3) as u8 } else { 0 };
                g.p.specials.push((a.buf, idx as usize, kind));
            }
            if g.r.below(100) < p_special / 3 && k > 0 && n > 0 && b.rs != 0 && b.cs != 0 {
                let (l, j) = (g.r.below(k as u64) as i64, g.r.below(n as u64) as i64);
                g.p.specials.push((b.buf, (b.off + l * b.rs + j * b.cs) as usize, 0));
            }
            calls.push(Call { id, ty, m, k, n, alpha, beta, a, b, c, after, group: group_no, warm: 0, va: 0, vb: 0, rep: 0, fresh: 0, unw: g.r.chance(1, 20) as u8 });
        }
        g.p.callers.push(Caller { calls, churn, dtor });
    }
    // history for C08: hostile earlier calls in the same threads
    if prop == "C08" {
        let nc = g.p.callers.len();
        for ci in 0..nc {
            let nh = 1 + g.r.below(2) as usize;
            let mut pre = vec![];
            for _ in 0..nh {
                if g.next_id >= MAXCALLS { break; }
                if let (Some(mc), true) = (g.p.callers[ci].calls.first().filter(|c| live(c)).cloned(), g.r.chance(1, 2)) {
                    // the same memory, other contents (and now and then another shape)
                    let mut c = mc.clone();
                    again(g.r, &mut c, shared_in.as_ref().map(|s| s.2.buf), data, 100);
                    if !(mc.beta == [0.0, 0.0] && mc.group == 0) || g.r.chance(1, 2) { c.c = g.mat(c.ty, c.m, c.n, true); }
                    c.id = g.next_id;
                    g.next_id += 1;
                    c.warm = 1;
                    c.group = 0;
                    c.after = 0;
                    pre.push(c);
                    continue;
                }
                let ty = if g.r.chance(1, 2) && !g.p.callers[ci].calls.is_empty() { g.p.callers[ci].calls[0].ty } else { pick_type(g.r) };
                let (m, k, n) = dims(g.r, ty, budget / 2, p_par, false);
                let a = g.mat(ty, m, k, false);
                let b = g.mat(ty, k, n, false);
                let c = g.mat(ty, m, n, true);
                if m > 0 && k > 0 {
                    for _ in 0..g.r.below(4) {
                        let (i, l) = (g.r.below(m as u64) as i64, g.r.below(k as u64) as i64);
                        g.p.specials.push((a.buf, (a.off + i * a.rs + l * a.cs) as usize, 0));
                    }
                }
                let id = g.next_id;
                g.next_id += 1;
                pre.push(Call { id, ty, m, k, n, alpha: [1.0, 0.0], beta: [0.0, 0.0], a, b, c, after: 0, group: 0, warm: 1, va: 0, vb: 0, rep: 0, fresh: 0, unw: 0 });
            }
            pre.append(&mut g.p.callers[ci].calls);
            g.p.callers[ci].calls = pre;
        }
    }
    let mut p = g.p;
    let r = &mut rng;
    repeat(r, &mut p);
    bound_exact(&mut p);
    for c in p.callers.iter_mut().flat_map(|c| c.calls.iter_mut()) {
        // zero by any other sign is zero
        if c.beta == [0.0, 0.0] && r.chance(1, 6) { c.beta = *r.pick(&[[-0.0, 0.0], [-0.0, -0.0], [0.0, -0.0]]); if c.ty < 2 { c.beta[1] = 0.0; } }
        if c.ty < 2 && c.warm == 0 && p_special > 0 && r.chance(1, 40) { c.beta[0] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); }
        if c.ty < 2 && c.warm == 0 && p_special > 0 && r.chance(1, 60) { c.alpha[0] = f64::NAN; }
    }
    policy(r, &mut p, p_stall);
    // one caller is held in the middle of a call while another makes its many
    if let Some(i) = p.callers.iter().position(|c| c.calls.iter().any(|c| c.rep >= 40)) {
        if p.callers.len() >= 2 && r.chance(1, 2) {
            let j = (i + 1 + r.below(p.callers.len() as u64 - 1) as usize) % p.callers.len();
            let est = p.callers[j].calls.first().map_or(1, |c| crate::knobs::est(c.ty, c.m, c.k, c.n));
            let (at, len) = (1 + r.below(est + est / 4 + 50), p.est_steps() * 2 + 100_000);
            p.stalls.push((1 + j, at, len));
        }
    }
    if p.prop == "C09" && p.alloc_fail.len() >= 2 && r.chance(1, 2) { p.meet |= 2; }
    p
}
fn live(c: &Call) -> bool { c.m > 0 && c.n > 0 && c.k > 0 }
/// Turn a copy of a call into one that looks like it but differs in what a cache could miss.
fn again(r: &mut Rng, c: &mut Call, shared: Option<usize>, data: u8, p_beta0: u64) {
    let mut v = || if r.chance(1, 4) { 0 } else { 1 + r.below(9) as u8 };
    let (va, vb) = (v(), v());
    if Some(c.a.buf) != shared { c.va = va; }
    if Some(c.b.buf) != shared { c.vb = vb; }
    if r.chance(1, 3) { c.alpha = scalar(r, c.ty, data, false); }
    if r.chance(1, 2) { c.beta = if r.below(100) < p_beta0 { [0.0, 0.0] } else { scalar(r, c.ty, data, true) }; }
    if p_beta0 >= 100 { c.beta = [0.0, 0.0]; }
    if r.chance(1, 6) { c.m = 1 + r.below(c.m as u64) as usize; }
    if r.chance(1, 6) { c.k = 1 + r.below(c.k as u64) as usize; }
    if r.chance(1, 6) { c.n = 1 + r.below(c.n as u64) as usize; }
}
/// Some calls are made many times over: counters wrap, tickets run out, leaks add up.
fn repeat(r: &mut Rng, p: &mut Plan) {
    if p.step == 1 { return; }
    let often = matches!(p.prop.as_str(), "C02" | "C08" | "C10" | "C14");
    let mut left = 1u64; // at most one of them per plan
    for c in p.callers.iter_mut().flat_map(|c| c.calls.iter_mut()) {
        if left == 0 || c.after != 0 || c.beta != [0.0, 0.0] || !r.chance(1, if often { 30 } else { 120 }) { continue; }
        let est = crate::knobs::est(c.ty, c.m, c.k, c.n);
        let most = (if INSTR == 0 { 60_000_000 } else { 12_000_000 }) / est;
        let huge = r.chance(1, 12);
        let n = *r.pick(&[8u64, 40, 260, 300, 1030, if huge { 66_000 } else { 260 }]);
        if n <= most || most >= 260 {
            c.rep = n.min(most) as u32;
            left -= 1;
            if r.chance(1, 4) { c.fresh = 1; c.rep = c.rep.min(300); }
        }
    }
    // history: a great many tiny calls before the ones that are compared
    if p.prop == "C08" && r.chance(1, 10) {
        if let Some(c) = p.callers.iter_mut().flat_map(|c| c.calls.iter_mut()).find(|c| c.warm != 0 && c.beta == [0.0, 0.0]) {
            let (m, k, n) = (1 + r.below(5) as usize, 1 + r.below(5) as usize, 1 + r.below(5) as usize);
            c.m = c.m.min(m); c.k = c.k.min(k); c.n = c.n.min(n);
            let huge = r.chance(1, 8);
            c.rep = *r.pick(&[70u32, 260, 1030, 5000, if huge { 66_000 } else { 260 }]);
        }
    }
}
fn pick_type(r: &mut Rng) -> u8 {
    if cfg!(feature = "cgemm") { *r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 3]) } else { *r.pick(&[0u8, 1]) }
}

/// Chained destinations must stay exactly representable; reset beta where they would not.
fn bound_exact(p: &mut Plan) {
    if p.data != 0 { return; }
    for c in p.callers.iter_mut() {
        let mut mag: Vec<(usize, f64)> = vec![];
        for x in c.calls.iter_mut() {
            let cx = if x.ty >= 2 { 4.0 } else { 1.0 };
            let prod = (x.alpha[0].abs() + x.alpha[1].abs()) * 4.0 * cx * x.k as f64 * 2.0;
            let old = mag.iter().find(|y| y.0 == x.c.buf).map_or(8.0, |y| y.1);
            let mut now = prod + (x.beta[0].abs() + x.beta[1].abs()) * cx * old;
            let lim = if x.ty % 2 == 0 { 2f64.powi(20) } else { 2f64.powi(40) };
            if now > lim { x.beta = [0.0, 0.0]; now = prod; }
            mag.retain(|y| y.0 != x.c.buf);
            mag.push((x.c.buf, now));
        }
    }
}
pub fn policy(r: &mut Rng, p: &mut Plan, p_stall: u64) {
    p.pol_seed = r.next() >> 1;
    p.stalls.clear();
    p.q = *r.pick(&[2u64, 5, 20, 80, 300, 1500, 8000]);
    // keep the number of context switches per run in check
    let est = p.est_steps();
    let qmin = est / 4000;
    p.q = p.q.max(qmin).max(2);
    p.p_sync = *r.pick(&[0u64, 60, 300, 700, 1000]);
    p.tmask = 0;
    p.p_t = 0;
    p.d = 0;
    p.meet = if r.chance(1, 5) { *r.pick(&[2u64, 2, 4, 8, 8, 16, 30]) } else { 0 };
    match r.below(10) {
        0 => p.pol = 0,
        1..=4 => p.pol = 1,
        5 => p.pol = 2,
        6..=7 => { p.pol = 3; p.d = 1 + r.below(6) as usize; }
        _ => { p.pol = 4; p.tmask = *r.pick(&[1u8, 2, 4, 7]); p.q = p.q.max(2000); p.p_t = *r.pick(&[30u64, 300, 3000]); let lim = 65536 * 4000 / est.max(1); p.p_t = p.p_t.min(lim.max(5)); }
    }
    if INSTR == 0 { p.q = p.q.min(20); }
    if r.below(100) < p_stall {
        for _ in 0..1 + r.below(3) {
            p.stalls.push((1 + r.below(8) as usize, 1 + r.below(est / 2 + 50), 1 + r.below(est + 100)));
        }
    }
}
/// The second execution to compare with (None: no comparison for this plan).
pub fn twin(p: &Plan) -> Option<Plan> {
    let kind = twin_kind(&p.prop);
    let mut r = Rng::new(p.seed ^ 0x7717);
    let mut q = p.clone();
    q.sched = None;
    match kind {
        Twin::None => return None,
        Twin::Alone => {
            // each caller alone, one after the other, no preemption
            q.pol = 0; q.meet = 0; q.stalls.clear(); q.p_sync = 0; q.warmup = false; q.spurious = 0;
            q.mutators = 0;
            let all: Vec<Call> = q.callers.iter().flat_map(|c| c.calls.clone()).collect();
            if q.callers.len() < 2 { return None; }
            q.callers = vec![Caller { calls: all, churn: 0, dtor: 0 }];
        }
        Twin::Sched => {
            let cur = p.thread_limit();
            let mut t = 1 + r.below(4) as usize;
            if t == cur && r.chance(3, 4) { t = 1 + (cur % 4); }
            q.env = Some(t.to_string().into_bytes());
            policy(&mut r, &mut q, 30);
            q.disp = r.next() >> 1;
            q.clk = *r.pick(&[1u64, 1000, 1_000_000]);
            q.fill = *r.pick(&[1u32, 2, 3, 4, 5]);
            if r.chance(1, 4) && q.callers.len() > 1 { let i = r.below(q.callers.len() as u64) as usize; q.callers.remove(i); }
        }
        Twin::History => {
            for c in q.callers.iter_mut() {
                // a destination the history wrote must not count for the calls that are compared
                let dirty: Vec<usize> = c.calls.iter().filter(|x| x.warm != 0).map(|x| x.c.buf).collect();
                let mut fresh: Vec<&Mat> = vec![];
                for x in c.calls.iter().filter(|x| x.warm == 0 && dirty.contains(&x.c.buf)) {
                    if x.beta == [0.0, 0.0] && live(x) { fresh.push(&x.c); } else if !fresh.contains(&&x.c) { return None; }
                }
            }
            for c in q.callers.iter_mut() { c.calls.retain(|x| x.warm == 0); }
            q.callers.retain(|c| !c.calls.is_empty());
            q.fill = 0;
            q.pol = 0;
            q.meet = 0;
            q.stalls.clear();
        }
        Twin::Place => {
            for b in q.bufs.iter_mut() { b.mis = 0; b.guard = 0; }
            q.place = 0;
            q.disp = 0;
            q.pol = 0;
            q.meet = 0;
            q.stalls.clear();
        }
        Twin::CFill => {
            for b in q.bufs.iter_mut() { b.gap = 0; }
            q.pol = 0;
            q.meet = 0;
            q.stalls.clear();
        }
    }
    Some(q)
}
