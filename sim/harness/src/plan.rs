//! A plan is everything about a run that is not the code: workload, environment,
//! faults, scheduling policy (or an explicit schedule).  It can be written out,
//! read back and shrunk.
use gsim_rt::*;
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Buf { pub ty: u8, pub len: usize, pub mis: usize, pub guard: u8, pub seed: u64, pub gap: u8, pub pat: u8, pub w: usize, pub pitch: usize }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mat { pub buf: usize, pub off: i64, pub rs: i64, pub cs: i64 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Call {
    pub id: usize, pub ty: u8, pub m: usize, pub k: usize, pub n: usize,
    pub alpha: [f64; 2], pub beta: [f64; 2],
    pub a: Mat, pub b: Mat, pub c: Mat,
    pub after: u8,  // 0 nothing, 1 overwrite operands at once, 2 also unmap them
    pub group: u8,  // >0: interleaved destination
    pub warm: u8,   // 1: belongs to the history, not compared between twins
    pub va: u8,     // which version of its contents A has for this call (0: the original ones)
    pub vb: u8,
    pub rep: u32,   // how many times more the call is made, one after the other
    pub fresh: u8,  // 1: each repetition on a thread of its own
    pub unw: u8,    // 1: made by a destructor while the thread unwinds from a panic
}
/// dtor > 0: calls from number dtor - 1 on are made while the thread's local storage is being destroyed
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Caller { pub calls: Vec<Call>, pub churn: u8, pub dtor: u8 }
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub prop: String,
    pub oracles: u32,
    pub data: u8,       // 0 exact integers, 1 arbitrary floats, 2 of very different magnitudes, 3 products underflow, 4 huge
    pub env: Option<Vec<u8>>,
    pub cpus: usize,
    pub shift: u64,     // after so many returned calls the environment and the processor count become env2 and cpus2 (0: never)
    pub env2: Option<Vec<u8>>,
    pub cpus2: usize,
    pub feat: u8,       // 0 all, 1 no avx2, 2 avx only, 3 sse2, 4 no fma, 5 nothing newer than avx2 and fma
    pub stderr: u8,     // 0 /dev/null, 1 /dev/full, 2 closed pipe
    pub pol: u8, pub q: u64, pub p_sync: u64, pub tmask: u8, pub p_t: u64, pub d: usize, pub pol_seed: u64,
    pub stalls: Vec<(usize, u64, u64)>,
    pub alloc_fail: Vec<u64>,
    pub spawn_fail: Vec<u64>,
    pub spurious: u64,
    pub meet: u64,      // kinds of place that threads are made to pass together: 2 allocation, 4 release, 8 start of a call, 16 start of a job
    pub fill: u32,
    pub place: u8,      // heap blocks: 0 natural alignment, 1 the least the layout allows, 2 from least to 2 MiB boundaries; +4: released blocks are used again
    pub disp: u64,
    pub clk: u64,       // simulated nanoseconds per step, should anything look at a clock
    pub mutators: usize,
    pub warmup: bool,   // caller 0's first call completes before anybody else starts
    pub step: u8,       // 1: stop at every instruction and decode it, 2: trap at those the processor would not have
    pub specials: Vec<(usize, usize, u8)>,
    pub bufs: Vec<Buf>,
    pub callers: Vec<Caller>,
    pub sched: Option<Vec<Dec>>,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { seed: 0, prop: String::new(), oracles: 0, data: 0, env: None, cpus: 4, shift: 0, env2: None, cpus2: 4, feat: 0, stderr: 0, pol: 0, q: 100,
            p_sync: 0, tmask: 0, p_t: 0, d: 0, pol_seed: 0, stalls: vec![], alloc_fail: vec![], spawn_fail: vec![], spurious: 0, meet: 0,
            fill: 0, place: 0, disp: 0, clk: 1, mutators: 0, warmup: false, step: 0, specials: vec![], bufs: vec![],
            callers: vec![], sched: None }
    }
}
pub fn tname(t: u8) -> &'static str { ["sgemm", "dgemm", "cgemm", "zgemm"][t as usize] }
pub fn esize(t: u8) -> usize { [4, 8, 8, 16][t as usize] }
pub fn ealign(t: u8) -> usize { [4, 8, 4, 8][t as usize] }
pub const POLS: [&str; 6] = ["serial", "random", "rr", "pct", "target", "replay"];

fn mat(s: &mut String, name: &str, m: &Mat) { let _ = write!(s, " {}={}:{}:{}:{}", name, m.buf, m.off, m.rs, m.cs); }
impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let hex = |e: &Option<Vec<u8>>| match e { None => "unset".to_string(), Some(b) => format!("x{}", b.iter().map(|c| format!("{:02x}", c)).collect::<String>()) };
        let _ = writeln!(s, "plan prop={} seed={} oracles={} data={} env={} cpus={} shift={} env2={} cpus2={} feat={} stderr={} spurious={} meet={} fill={} place={} disp={} clk={} mutators={} warmup={} step={}",
            self.prop, self.seed, self.oracles, self.data, hex(&self.env), self.cpus, self.shift, hex(&self.env2), self.cpus2, self.feat, self.stderr, self.spurious, self.meet, self.fill,
            self.place, self.disp, self.clk, self.mutators, self.warmup as u8, self.step);
        let _ = writeln!(s, "policy kind={} q={} psync={} tmask={} pt={} d={} seed={}", POLS[self.pol as usize], self.q, self.p_sync, self.tmask, self.p_t, self.d, self.pol_seed);
        for (t, a, d) in &self.stalls { let _ = writeln!(s, "stall tid={} at={} dur={}", t, a, d); }
        for x in &self.alloc_fail { let _ = writeln!(s, "allocfail no={}", x); }
        for x in &self.spawn_fail { let _ = writeln!(s, "spawnfail no={}", x); }
        for (b, i, k) in &self.specials { let _ = writeln!(s, "special buf={} idx={} kind={}", b, i, k); }
        for b in &self.bufs { let _ = writeln!(s, "buf ty={} len={} mis={} guard={} seed={} gap={} pat={} w={} pitch={}", b.ty, b.len, b.mis, b.guard, b.seed, b.gap, b.pat, b.w, b.pitch); }
        for c in &self.callers {
            let _ = writeln!(s, "caller churn={} dtor={}", c.churn, c.dtor);
            for c in &c.calls {
                let _ = write!(s, "call id={} fn={} m={} k={} n={} alpha={:?},{:?} beta={:?},{:?}", c.id, tname(c.ty), c.m, c.k, c.n, c.alpha[0], c.alpha[1], c.beta[0], c.beta[1]);
                mat(&mut s, "a", &c.a); mat(&mut s, "b", &c.b); mat(&mut s, "c", &c.c);
                let _ = writeln!(s, " after={} group={} warm={} va={} vb={} rep={} fresh={} unw={}", c.after, c.group, c.warm, c.va, c.vb, c.rep, c.fresh, c.unw);
            }
        }
        if let Some(d) = &self.sched {
            let _ = writeln!(s, "schedule n={}", d.len());
            for x in d { let _ = writeln!(s, "at t{} step {} run t{} ({})", x.tid, x.lstep, x.to, ["?", "preempt", "sync", "yield", "block", "exit"][x.why as usize % 6]); }
        }
        s.push_str("end\n");
        s
    }
    /// Parse the first plan of a text; returns the plan and the rest.
    pub fn parse(text: &str) -> Result<(Plan, &str), String> {
        let mut p = Plan::default();
        let mut pos = 0;
        let mut seen = false;
        for line in text.split_inclusive('\n') {
            pos += line.len();
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') { continue; }
            let w: Vec<&str> = line.split_whitespace().collect();
            let get = |k: &str| -> Result<&str, String> {
                for x in &w[1..] { if let Some((a, b)) = x.split_once('=') { if a == k { return Ok(b); } } }
                Err(format!("missing {} in: {}", k, line))
            };
            let num = |k: &str| -> Result<u64, String> { get(k)?.parse::<u64>().map_err(|e| format!("{}: {}", k, e)) };
            match w[0] {
                "plan" => {
                    seen = true;
                    p.prop = get("prop")?.into(); p.seed = num("seed")?; p.oracles = num("oracles")? as u32; p.data = num("data")? as u8;
                    let hex = |e: &str| if e == "unset" { None } else { Some((0..(e.len() - 1) / 2).map(|i| u8::from_str_radix(&e[1 + 2 * i..3 + 2 * i], 16).unwrap_or(b'?')).collect()) };
                    p.env = hex(get("env")?);
                    p.env2 = hex(get("env2")?);
                    p.shift = num("shift")?; p.cpus2 = num("cpus2")? as usize;
                    p.cpus = num("cpus")? as usize; p.feat = num("feat")? as u8; p.stderr = num("stderr")? as u8; p.spurious = num("spurious")?; p.meet = num("meet")?;
                    p.fill = num("fill")? as u32; p.place = num("place")? as u8; p.disp = num("disp")?; p.clk = num("clk")?; p.mutators = num("mutators")? as usize;
                    p.warmup = num("warmup")? != 0; p.step = num("step")? as u8;
                }
                "policy" => {
                    let k = get("kind")?;
                    p.pol = POLS.iter().position(|x| *x == k).ok_or("policy kind")? as u8;
                    p.q = num("q")?; p.p_sync = num("psync")?; p.tmask = num("tmask")? as u8; p.p_t = num("pt")?; p.d = num("d")? as usize; p.pol_seed = num("seed")?;
                }
                "stall" => p.stalls.push((num("tid")? as usize, num("at")?, num("dur")?)),
                "allocfail" => p.alloc_fail.push(num("no")?),
                "spawnfail" => p.spawn_fail.push(num("no")?),
                "special" => p.specials.push((num("buf")? as usize, num("idx")? as usize, num("kind")? as u8)),
                "buf" => p.bufs.push(Buf { ty: num("ty")? as u8, len: num("len")? as usize, mis: num("mis")? as usize, guard: num("guard")? as u8, seed: num("seed")?, gap: num("gap")? as u8, pat: num("pat")? as u8, w: num("w")? as usize, pitch: num("pitch")? as usize }),
                "caller" => p.callers.push(Caller { calls: vec![], churn: num("churn")? as u8, dtor: num("dtor")? as u8 }),
                "call" => {
                    let f = get("fn")?;
                    let ty = (0..4).find(|t| tname(*t) == f).ok_or("fn")?;
                    let cx = |k: &str| -> Result<[f64; 2], String> { let (a, b) = get(k)?.split_once(',').ok_or("complex")?; Ok([a.parse().map_err(|_| "num")?, b.parse().map_err(|_| "num")?]) };
                    let mt = |k: &str| -> Result<Mat, String> {
                        let v: Vec<i64> = get(k)?.split(':').map(|x| x.parse().unwrap_or(0)).collect();
                        if v.len() != 4 { return Err("matrix".into()); }
                        Ok(Mat { buf: v[0] as usize, off: v[1], rs: v[2], cs: v[3] })
                    };
                    let c = Call { id: num("id")? as usize, ty, m: num("m")? as usize, k: num("k")? as usize, n: num("n")? as usize,
                        alpha: cx("alpha")?, beta: cx("beta")?, a: mt("a")?, b: mt("b")?, c: mt("c")?, after: num("after")? as u8, group: num("group")? as u8, warm: num("warm")? as u8, va: num("va")? as u8, vb: num("vb")? as u8, rep: num("rep")? as u32, fresh: num("fresh")? as u8, unw: num("unw")? as u8 };
                    p.callers.last_mut().ok_or("call before caller")?.calls.push(c);
                }
                "schedule" => p.sched = Some(vec![]),
                "at" => {
                    let t = |s: &str| s[1..].parse::<u16>().unwrap_or(0);
                    let why = ["(?)", "(preempt)", "(sync)", "(yield)", "(block)", "(exit)"].iter().position(|x| *x == w[6]).unwrap_or(0) as u32;
                    p.sched.get_or_insert_with(Vec::new).push(Dec { tid: t(w[1]), lstep: w[3].parse().map_err(|_| "step")?, to: t(w[5]), why });
                }
                "end" => return Ok((p, &text[pos..])),
                _ => return Err(format!("unknown line: {}", line)),
            }
        }
        Err(if seen { "plan without end".into() } else { "no plan".into() })
    }
    pub fn ncalls(&self) -> usize { self.callers.iter().map(|c| c.calls.len()).sum() }
    pub fn thread_limit(&self) -> usize {
        if !crate::knobs::THREADING { return 1; }
        let limit = |env: &Option<Vec<u8>>, cpus: usize| match env {
            Some(b) if !b.is_empty() => match std::str::from_utf8(b) {
                Ok(s) => s.parse::<usize>().unwrap_or(1),
                Err(_) => cpus,
            },
            _ => cpus,
        };
        // when they change meanwhile: nobody may exceed what either asks for (in any combination)
        let mut v = limit(&self.env, self.cpus);
        if self.shift != 0 { v = v.max(limit(&self.env2, self.cpus2)).max(limit(&self.env, self.cpus2)); }
        v.clamp(1, 4)
    }
    pub fn est_steps(&self) -> u64 {
        let mut e = 5000u64;
        for c in self.callers.iter().flat_map(|c| &c.calls) { e += crate::knobs::est(c.ty, c.m, c.k, c.n) * (1 + c.rep as u64); }
        e
    }
}
