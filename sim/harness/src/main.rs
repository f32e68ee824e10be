//! gemmsim: deterministic simulation of the matrixmultiply library.
//!
//!   gsim batch prop=C01 base=1 worker=0 workers=8 secs=30 out=DIR        seeded search
//!   gsim replay FILE [trace]                                            re-execute a recorded failure
//!   gsim show prop=C01 seed=N                                           one seed, with a trace
//!   gsim det prop=ALL base=1 n=50 out=FILE                              hashes, for the determinism self-test
include!(concat!(env!("OUT_DIR"), "/wraps.rs"));
mod exec;
mod feat;
mod gen;
mod knobs;
mod plan;
mod step;

use gsim_rt::rng::hash64;
use gsim_rt::*;
use plan::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;
use std::io::Write as _;
use std::time::Instant;

#[global_allocator]
static A: mem::SimAlloc = mem::SimAlloc;

#[cfg(feature = "pad16")]
#[repr(align(32))]
struct Pad(#[allow(dead_code)] std::cell::UnsafeCell<[u64; 4]>);
#[cfg(feature = "pad16")]
thread_local! { static PAD: Pad = const { Pad(std::cell::UnsafeCell::new([0; 4])) }; }

const NONE: u32 = 0;
const STUCK: u32 = 1000;
const HARNESS: u32 = 1001;

/// What one simulated run produced.
#[derive(Clone, Default)]
struct Out {
    class: u32,
    msg: String,
    steps: u64,
    hash: u64,
    ileave: u64,
    switches: u64,
    preempts: u64,
    counters: Vec<u64>,
    out_hash: [u64; 32],
    state: [u32; 32],
    sched: Vec<Dec>,
    overflow: bool,
    trace: String,
}
/// Run a plan in a child process.
fn run(p: &Plan, trace: bool) -> Out {
    unsafe {
        clear_report();
        let pl: &'static Plan = Box::leak(Box::new(p.clone()));
        let pid = sys::fork();
        if pid == 0 {
            let it = [0i64, 0, 60, 0];
            sys::setitimer(0, &it, core::ptr::null_mut());
            exec::run_child(pl, trace);
        }
        let mut st = 0i32;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        drop(Box::from_raw(pl as *const Plan as *mut Plan));
        let r = &*rep();
        let mut o = Out {
            steps: r.steps, hash: r.hash, ileave: r.ileave, switches: r.switches, preempts: r.preempts,
            counters: r.counters.to_vec(), out_hash: r.out_hash, state: r.call_state,
            overflow: r.sched_overflow != 0,
            ..Out::default()
        };
        let msg = || String::from_utf8_lossy(&r.msg[..r.msg_len as usize]).into_owned();
        match r.status {
            1 => {}
            2 => {
                o.class = r.class;
                o.msg = msg();
                o.sched = r.sched[..r.nsched as usize].to_vec();
            }
            3 => { o.class = HARNESS; o.msg = msg(); }
            _ => {
                o.sched = r.sched[..r.nsched as usize].to_vec();
                if st & 0x7f == 14 {
                    o.class = STUCK;
                    o.msg = format!("no progress for 60 s of real time at step {}", r.steps);
                    for c in [HANG, LIVELOCK] { if p.oracles & (1 << c) != 0 { o.class = c; } }
                } else {
                    o.class = if p.oracles & (1 << CRASH) != 0 { CRASH } else { STUCK };
                    o.msg = format!("the process died (wait status {:#x})", st);
                }
            }
        }
        if trace { o.trace = String::from_utf8_lossy(&r.trace[..r.trace_len as usize]).into_owned(); }
        if o.class == NONE && trace { o.sched = r.sched[..r.nsched as usize].to_vec(); }
        o
    }
}
/// A run and, for comparing properties, its twin.
#[derive(Clone)]
struct Case { plan: Plan, twin: Option<Plan> }
struct Res { class: u32, msg: String, first: Out, second: Option<Out> }
fn sched_of(o: &Out) -> Vec<Dec> { o.sched.clone() }

fn run_case(c: &Case, trace: bool) -> Res {
    let first = run(&c.plan, trace);
    if first.class != NONE { return Res { class: first.class, msg: first.msg.clone(), first, second: None }; }
    if let Some(t) = &c.twin {
        let second = run(t, trace);
        if second.class != NONE { return Res { class: second.class, msg: format!("(in the comparison run) {}", second.msg), first, second: Some(second) }; }
        if c.plan.oracles & (1 << BITDIFF) != 0 {
            for call in c.plan.callers.iter().flat_map(|x| &x.calls) {
                let i = call.id;
                if call.warm != 0 || first.state[i] != 2 || second.state[i] != 2 { continue; }
                if !t.callers.iter().any(|x| x.calls.iter().any(|y| y.id == i)) { continue; }
                if first.out_hash[i] != second.out_hash[i] {
                    let msg = format!("call {} ({} {}x{}x{}): its result is not bit for bit the result of the same call in the comparison run ({:?})",
                        i, tname(call.ty), call.m, call.k, call.n, gen::twin_kind(&c.plan.prop));
                    return Res { class: BITDIFF, msg, first, second: Some(second) };
                }
            }
        }
        return Res { class: NONE, msg: String::new(), first, second: Some(second) };
    }
    Res { class: NONE, msg: String::new(), first, second: None }
}
fn case_of(p: &Plan) -> Case { Case { twin: gen::twin(p), plan: p.clone() } }

// ---------------------------------------------------------------- minimising
struct Min { deadline: Instant, class: u32, tests: u64 }
impl Min {
    fn late(&self) -> bool { Instant::now() > self.deadline }
    /// Does the plan (under its own policy or a few others) still fail the same way?
    fn fails(&mut self, p: &Plan, tries: usize) -> Option<Plan> {
        for t in 0..tries {
            if self.late() { return None; }
            let mut q = p.clone();
            if t > 0 { q.pol_seed = hash64(p.pol_seed, t as u64) >> 1; }
            self.tests += 1;
            let r = run_case(&case_of(&q), false);
            if r.class == self.class { return Some(q); }
        }
        None
    }
    fn shrink(&mut self, p: Plan) -> Plan {
        let mut best = p;
        best.sched = None;
        let tries = if best.pol == 0 { 1 } else { 4 };
        loop {
            let mut progress = false;
            let mut cands: Vec<Plan> = vec![];
            let push = |f: &dyn Fn(&mut Plan), v: &mut Vec<Plan>| { let mut q = best.clone(); f(&mut q); if q.text() != best.text() { v.push(q); } };
            for i in 0..best.callers.len() { if best.callers.len() > 1 { push(&|q| { q.callers.remove(i); if i == 0 { q.warmup = false; } }, &mut cands); } }
            for i in 0..best.callers.len() {
                for j in 0..best.callers[i].calls.len() {
                    if best.callers[i].calls.len() > 1 { push(&|q| { q.callers[i].calls.remove(j); }, &mut cands); }
                }
            }
            push(&|q| { q.mutators = 0 }, &mut cands);
            push(&|q| { q.specials.clear() }, &mut cands);
            push(&|q| { q.stalls.clear() }, &mut cands);
            push(&|q| { q.spurious = 0 }, &mut cands);
            push(&|q| { q.meet = 0 }, &mut cands);
            push(&|q| { q.pol = 0; q.p_sync = 0 }, &mut cands);
            push(&|q| { q.feat = 0 }, &mut cands);
            push(&|q| { q.stderr = 0 }, &mut cands);
            push(&|q| { q.shift = 0 }, &mut cands);
            push(&|q| { q.place = 0 }, &mut cands);
            push(&|q| { q.place = q.place.min(1) }, &mut cands);
            push(&|q| { q.disp = 0 }, &mut cands);
            push(&|q| { q.env = Some(b"1".to_vec()) }, &mut cands);
            push(&|q| { q.env = Some(b"2".to_vec()) }, &mut cands);
            for i in 0..best.alloc_fail.len() { push(&|q| { q.alloc_fail.remove(i); }, &mut cands); }
            for i in 0..best.spawn_fail.len() { push(&|q| { q.spawn_fail.remove(i); }, &mut cands); }
            for i in 0..best.callers.len() { push(&|q| { q.callers[i].churn = 0; }, &mut cands); push(&|q| { q.callers[i].dtor = 0; }, &mut cands); }
            for i in 0..best.bufs.len() { push(&|q| { q.bufs[i].guard = 0; q.bufs[i].mis = 0; }, &mut cands); push(&|q| { q.bufs[i].pat = 0; }, &mut cands); }
            for i in 0..best.callers.len() {
                for j in 0..best.callers[i].calls.len() {
                    push(&|q| { q.callers[i].calls[j].after = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].va = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].vb = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].rep = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].unw = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].fresh = 0; }, &mut cands);
                    push(&|q| { q.callers[i].calls[j].rep /= 2; }, &mut cands);
                    push(&|q| { let r = &mut q.callers[i].calls[j].rep; *r = r.saturating_sub(1); }, &mut cands);
                    for d in 0..3usize {
                        let v = { let c = &best.callers[i].calls[j]; [c.m, c.k, c.n][d] };
                        for w in [1, v / 4, v / 2, v * 3 / 4, v.saturating_sub(8), v.saturating_sub(1)] {
                            if w >= 1 && w < v {
                                push(&|q| { let c = &mut q.callers[i].calls[j]; *[&mut c.m, &mut c.k, &mut c.n][d] = w; }, &mut cands);
                            }
                        }
                    }
                    push(&|q| { let c = &mut q.callers[i].calls[j]; c.alpha = [1.0, 0.0]; }, &mut cands);
                }
            }
            for q in cands {
                if self.late() { return best; }
                if let Some(f) = self.fails(&q, tries) { best = f; progress = true; break; }
            }
            if !progress { return best; }
        }
    }
    /// Drop as many scheduling decisions as possible.
    fn ddmin(&mut self, c: &Case) -> Case {
        let mut best = c.clone();
        if best.twin.is_some() && self.class == BITDIFF { return best; }
        let mut n = 2usize;
        loop {
            let d = best.plan.sched.clone().unwrap_or_default();
            if d.len() < 2 || n > d.len() || self.late() { break; }
            let chunk = d.len().div_ceil(n);
            let mut hit = false;
            for i in 0..n {
                if self.late() { break; }
                let (lo, hi) = ((i * chunk).min(d.len()), ((i + 1) * chunk).min(d.len()));
                if lo == hi { continue; }
                let mut q = best.clone();
                let mut s = d[..lo].to_vec();
                s.extend_from_slice(&d[hi..]);
                q.plan.sched = Some(s);
                self.tests += 1;
                if run_case(&q, false).class == self.class { best = q; n = 2.max(n - 1); hit = true; break; }
            }
            if !hit { if chunk <= 1 { break; } n = (n * 2).min(d.len()); }
        }
        best
    }
}
/// Turn a failing case into one with explicit schedules that fails the same way.
fn pin(c: &Case, class: u32) -> Option<Case> {
    let r = run_case(c, true);
    if r.class != class { return None; }
    let mut q = c.clone();
    if !r.first.overflow { q.plan.sched = Some(sched_of(&r.first)); }
    if let (Some(t), Some(s)) = (&mut q.twin, &r.second) { if !s.overflow { t.sched = Some(sched_of(s)); } }
    if r.second.is_none() { q.twin = None; }
    if run_case(&q, false).class == class { return Some(q); }
    // the explicit schedule does not carry over: keep the seeded policy
    Some(c.clone())
}
fn file_of(c: &Case, r: &Res, tests: u64) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "gsim-replay 1 variant={} prop={} class={}", knobs::VARIANT, c.plan.prop, class_name(r.class));
    let _ = writeln!(s, "# {}", r.msg);
    let last = r.second.as_ref().unwrap_or(&r.first);
    let _ = writeln!(s, "# seed {} of property {}; minimised with {} further runs", c.plan.seed, c.plan.prop, tests);
    let _ = writeln!(s, "# expect steps={} hash={:016x}", last.steps, last.hash);
    s.push_str(&c.plan.text());
    if let Some(t) = &c.twin { s.push_str("# comparison run\n"); s.push_str(&t.text()); }
    let tr = if r.second.is_some() { &last.trace } else { &r.first.trace };
    s.push_str("# event trace of the failing run\n");
    let lines: Vec<&str> = tr.lines().collect();
    let skip = lines.len().saturating_sub(400);
    if skip > 0 { let _ = writeln!(s, "# ... {} earlier events", skip); }
    for l in &lines[skip..] { let _ = writeln!(s, "# {}", l); }
    s
}

// ---------------------------------------------------------------- subcommands
fn args() -> BTreeMap<String, String> {
    std::env::args().skip(2).filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect()
}
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], '\n' => vec![' '], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect() }

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| {
        let (big, y) = if *x >= BIG { (" of 256 bytes or more", x - BIG) } else { ("", *x) };
        if y >= FROM { format!("{}{} and all after it", y - FROM, big) } else { format!("{}{}", y, big) }
    }).collect::<Vec<_>>().join(", ")
}
fn describe(p: &Plan) -> String {
    let mut s = format!("seed {}: {} caller(s), policy {}, thread limit {}", p.seed, p.callers.len(), POLS[p.pol as usize], p.thread_limit());
    for c in p.callers.iter().flat_map(|c| &c.calls).take(4) {
        let _ = write!(s, "; {} {}x{}x{} strides A({},{}) B({},{}) C({},{}) beta {}", tname(c.ty), c.m, c.k, c.n, c.a.rs, c.a.cs, c.b.rs, c.b.cs, c.c.rs, c.c.cs, c.beta[0]);
    }
    if !p.stalls.is_empty() { let _ = write!(s, "; {} stall(s)", p.stalls.len()); }
    if !p.alloc_fail.is_empty() { let _ = write!(s, "; refuse allocation {}", nums(&p.alloc_fail)); }
    if !p.spawn_fail.is_empty() { let _ = write!(s, "; refuse thread start {}", nums(&p.spawn_fail)); }
    s
}

fn batch(a: &BTreeMap<String, String>) -> i32 {
    let get = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let prop = a.get("prop").cloned().unwrap_or("C01".into());
    let (base, worker, workers) = (get("base", 1), get("worker", 0), get("workers", 1));
    let secs = get("secs", 10);
    let max_runs = get("runs", u64::MAX);
    let min_secs = get("minsecs", 40);
    let out = a.get("out").cloned().unwrap_or("/tmp".into());
    let start = Instant::now();
    let mut tot = vec![0u64; NCOUNT];
    let mut runs_with = vec![0u64; NCOUNT];
    let (mut runs, mut plans, mut steps, mut switches, mut preempts, mut stuck, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut execs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut pols = [0u64; 6];
    let mut code = 0;
    let mut troubles = 0;
    let mut violation_json = String::new();
    let vid = hash64(0x5641, knobs::VARIANT.bytes().fold(7u64, |a, b| hash64(a, b as u64)));
    let mut i = worker;
    while start.elapsed().as_secs() < secs && plans < max_runs {
        let seed = hash64(hash64(base, vid), i) >> 1;
        i += workers;
        let p = gen::generate(&prop, seed);
        let c = case_of(&p);
        let r = run_case(&c, false);
        plans += 1;
        pols[p.pol as usize] += 1;
        for o in [Some(&r.first), r.second.as_ref()].into_iter().flatten() {
            runs += 1;
            steps += o.steps;
            switches += o.switches;
            preempts += o.preempts;
            for k in 0..NCOUNT { tot[k] += o.counters[k]; if o.counters[k] > 0 { runs_with[k] += 1; } }
            if o.switches > 0 { distinct.insert(o.ileave); }
            execs.insert(o.hash);
            if o.counters[Ctr::Calls as usize] > o.counters[Ctr::EmptyCalls as usize] || o.counters[Ctr::CallsPanicked as usize] > 0 || o.counters[Ctr::Refused as usize] > 0 { nontrivial += 1; }
        }
        if samples.len() < 3 && r.first.preempts > 3 { samples.push(describe(&p)); }
        if r.class == STUCK { stuck += 1; eprintln!("stuck: seed {} {}", seed, r.msg); continue; }
        if r.class == HARNESS {
            eprintln!("harness error: seed {} ({}): {}", seed, knobs::VARIANT, r.msg);
            let _ = std::fs::write(format!("{}/{}-{}-harness.txt", out, knobs::VARIANT, worker), c.plan.text());
            code = 2;
            troubles += 1;
            if troubles >= 10 { break; }
            continue;
        }
        if r.class != NONE {
            // must fail again, identically, before it is believed
            let again = run_case(&c, false);
            let (l1, l2) = (r.second.as_ref().unwrap_or(&r.first), again.second.as_ref().unwrap_or(&again.first));
            if again.class != r.class || l1.hash != l2.hash {
                eprintln!("not reproducible: seed {} ({}): {} / {} ({} {})", seed, knobs::VARIANT, r.msg, again.msg, class_name(r.class), class_name(again.class));
                let _ = std::fs::write(format!("{}/{}-{}-nondet.txt", out, knobs::VARIANT, worker), c.plan.text());
                if again.class != r.class { code = 2; troubles += 1; if troubles >= 10 { break; } continue; }
            }
            let mut m = Min { deadline: Instant::now() + std::time::Duration::from_secs(min_secs), class: r.class, tests: 0 };
            let small = m.shrink(p.clone());
            let mut best = pin(&case_of(&small), r.class).or_else(|| pin(&c, r.class)).unwrap_or_else(|| c.clone());
            best = m.ddmin(&best);
            let fin = run_case(&best, true);
            let path = format!("{}/{}-{}-{}.replay", out, prop, knobs::VARIANT, seed);
            let _ = std::fs::write(&path, file_of(&best, &fin, m.tests));
            let _ = write!(violation_json, "{{\"class\":\"{}\",\"seed\":{},\"msg\":\"{}\",\"replay\":\"{}\",\"minimised\":\"{}\",\"decisions\":{}}}",
                class_name(r.class), seed, esc(&fin.msg), path, esc(&describe(&best.plan)), best.plan.sched.as_ref().map_or(-1, |s| s.len() as i64));
            code = 1;
            break;
        }
    }
    let el = start.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(j, "{{\"prop\":\"{}\",\"variant\":\"{}\",\"plans\":{},\"runs\":{},\"steps\":{},\"switches\":{},\"preemptions\":{},\"stuck\":{},\"nontrivial\":{},\"seconds\":{:.3},\"violation\":{}",
        prop, knobs::VARIANT, plans, runs, steps, switches, preempts, stuck, nontrivial, el, if violation_json.is_empty() { "null" } else { &violation_json });
    let _ = write!(j, ",\"policies\":{{{}}}", (0..6).map(|k| format!("\"{}\":{}", POLS[k], pols[k])).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"counters\":{{{}}}", (0..NCOUNT).map(|k| format!("\"{}\":[{},{}]", COUNTER_NAMES[k], tot[k], runs_with[k])).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"samples\":[{}]}}", samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    let stem = format!("{}/{}-{}-{}", out, prop, knobs::VARIANT, worker);
    let _ = std::fs::write(format!("{}.json", stem), j);
    let dump = |set: &HashSet<u64>, ext: &str| { let mut f = std::fs::File::create(format!("{}.{}", stem, ext)).unwrap(); let v: Vec<u8> = set.iter().flat_map(|x| x.to_le_bytes()).collect(); let _ = f.write_all(&v); };
    dump(&distinct, "il");
    dump(&execs, "ex");
    code
}
fn replay(path: &str, trace: bool) -> i32 {
    let text = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let head = text.lines().next().unwrap_or("");
    let field = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
    if field("variant=") != knobs::VARIANT { eprintln!("recorded with variant {}, this is {}", field("variant="), knobs::VARIANT); return 2; }
    let body = &text[head.len()..];
    let (p, rest) = match Plan::parse(body) { Ok(x) => x, Err(e) => { eprintln!("{}", e); return 2; } };
    let twin = Plan::parse(rest).ok().map(|x| x.0);
    let c = Case { plan: p, twin };
    let r = run_case(&c, trace);
    if trace { print!("{}", r.first.trace); if let Some(s) = &r.second { println!("--- comparison run"); print!("{}", s.trace); } }
    let last = r.second.as_ref().unwrap_or(&r.first);
    let want = text.lines().find_map(|l| l.strip_prefix("# expect ")).unwrap_or("").to_string();
    let got = format!("steps={} hash={:016x}", last.steps, last.hash);
    if r.class == NONE { println!("no violation ({})", got); return 0; }
    if r.class >= STUCK { println!("harness problem: {}", r.msg); return 2; }
    println!("{}: {}", class_name(r.class), r.msg);
    println!("recorded class {}, {}; {}", field("class="), want, if want == got { "this execution is identical" } else { "this execution differs from the recorded one" });
    1
}
/// Load the program at the same addresses every time (where the system allows to ask for it).
unsafe fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: usize = 0x0040000;
    let now = sys::personality(0xffff_ffff);
    if now < 0 || now as usize & NO_RANDOMIZE != 0 || std::env::var_os("GSIM_REEXEC").is_some() { return; }
    if sys::personality(now as usize | NO_RANDOMIZE) < 0 { return; }
    let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("GSIM_REEXEC", "1").exec();
}
fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let a = args();
    unsafe {
        if let Some(c) = a.get("cpu").and_then(|c| c.parse::<usize>().ok()) {
            let mut m = [0u64; 16];
            m[c / 64 % 16] = 1 << (c % 64);
            sys::sched_setaffinity(0, 128, m.as_ptr());
        }
        sys::prctl(1, 9, 0, 0, 0); // die with the parent
        fixed_addresses();
        #[cfg(feature = "pad16")]
        PAD.with(|p| core::ptr::write_volatile(p.0.get() as *mut u8, 2));
        let base = step::exe_base();
        G.exe_base = base;
        init_process(knobs::INSTR);
        step::init();
        if knobs::INSTR == 0 { step::load_sites(); }
        if let Err(e) = feat::tls_init() { eprintln!("{}", e); std::process::exit(2); }
        if let Err(e) = feat::init(base) { eprintln!("{}", e); std::process::exit(2); }
    }
    let code = match cmd.as_str() {
        "batch" => batch(&a),
        "replay" => replay(&std::env::args().nth(2).unwrap_or_default(), std::env::args().any(|x| x == "trace")),
        "show" => {
            println!("thread-local block {} bytes, kernel buffer at {} mod 32, statics {:#x} bytes", unsafe { G.tls_size }, unsafe { feat::MASK_MOD }, unsafe { G.data_hi - G.data_lo });
            let prop = a.get("prop").cloned().unwrap_or("C01".into());
            let p = gen::generate(&prop, a.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1));
            print!("{}", p.text());
            let r = run_case(&case_of(&p), true);
            print!("{}", r.first.trace);
            println!("class {} {} steps {} hash {:016x} switches {}", r.class, r.msg, r.first.steps, r.first.hash, r.first.switches);
            for k in 0..NCOUNT { if r.first.counters[k] > 0 { println!("  {} {}", COUNTER_NAMES[k], r.first.counters[k]); } }
            0
        }
        "det" => {
            let prop = a.get("prop").cloned().unwrap_or("ALL".into());
            let base: u64 = a.get("base").and_then(|s| s.parse().ok()).unwrap_or(1);
            let n: u64 = a.get("n").and_then(|s| s.parse().ok()).unwrap_or(50);
            for i in 0..n {
                let p = gen::generate(&prop, hash64(base, i) >> 1);
                // a plan survives being written out and read back
                let q = Plan::parse(&p.text()).map(|x| x.0);
                if q.as_ref().map(|q| q.text()).ok() != Some(p.text()) { println!("plan {} does not survive a round trip: {:?}", i, q.err()); }
                let r = run(&p, false);
                println!("{} {} {} {:016x} {:016x} {}", i, r.class, r.steps, r.hash, r.ileave, r.out_hash.iter().fold(0u64, |a, b| hash64(a, *b)));
            }
            0
        }
        _ => { eprintln!("usage: gsim batch|replay|show|det"); 2 }
    };
    std::process::exit(code);
}
