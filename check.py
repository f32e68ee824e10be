#!/usr/bin/env python3
"""Decides the listed properties of matrixmultiply by deterministic simulation.

  check.py C01 [--tier quick|thorough] [--seed N] [--secs N]   one property
  check.py setup                                               build every variant once
  check.py replay FILE [trace]                                 re-execute a recorded failure
  check.py selftest                                            determinism of the simulator itself
"""
import json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "sim", "harness")
TARGET = os.environ.get("GSIM_TARGET", os.path.join(VERIF, "target"))
OUT = os.path.join(VERIF, "out")
NCPU = max(1, len(os.sched_getaffinity(0)))

ALLF = "threading,cgemm,constconf"


def knobs(**kw):
    """s=(mc,kc,nc) ... -> the library's compile-time variables"""
    e = {}
    for t, v in kw.items():
        for n, x in zip(("MC", "KC", "NC"), v):
            e["MATMUL_%sGEMM_%s" % (t.upper(), n)] = str(x)
    return e


# name -> instrumentation, features, environment, cargo profile
VARIANTS = {
    # as shipped
    "ship": (1, ALLF, {}, "release"),
    # small, uneven blocking parameters: every loop has boundaries at small sizes
    "tuned": (1, ALLF, knobs(s=(16, 24, 40), d=(12, 20, 28), c=(8, 16, 20), z=(4, 8, 12)), "release"),
    # not multiples of any kernel size; thread-local block shifted by 16 bytes
    "odd": (1, ALLF + ",pad16", knobs(s=(13, 17, 19), d=(9, 11, 21), c=(7, 7, 9), z=(5, 13, 14)), "release"),
    # the smallest admissible values
    "least": (1, ALLF, knobs(s=(8, 8, 8), d=(8, 8, 8), c=(4, 4, 4), z=(4, 4, 4)), "release"),
    # lopsided: long K, long N, all equal
    "long": (1, ALLF, knobs(s=(64, 512, 512), d=(8, 300, 1500), c=(65536, 65536, 65536), z=(16, 16, 65536)), "release"),
    # portable kernels, with debug assertions and overflow checks
    "dbg": (1, ALLF, dict(knobs(s=(16, 24, 40), d=(12, 20, 28), c=(8, 16, 20), z=(4, 8, 12)), MMTEST_FEATURE="none"), "dbg"),
    # portable kernels, no threads, no std
    "nostd": (1, "cgemm,constconf", knobs(s=(16, 24, 40), d=(12, 20, 28), c=(8, 16, 20), z=(4, 8, 12)), "release"),
    # no threads, with std
    "single": (1, "cgemm,constconf,std", {}, "release"),
    # thread instrumentation (atomics told apart from plain accesses)
    "tsan": (2, ALLF, knobs(s=(16, 24, 40), d=(12, 20, 28), c=(8, 16, 20), z=(4, 8, 12)), "release"),
    # no instrumentation: the machine code that ships
    "plain": (0, ALLF, {}, "release"),
    # values the library must refuse (or support in full)
    "bad1": (1, ALLF, dict(knobs(s=(16, 64, 32), d=(40, 20, 64), c=(1, 16, 20), z=(16, 32, 70000)), GSIM_BADKNOB="1"), "release"),
    "bad2": (1, ALLF, dict(knobs(s=(64, 32, 512), d=(16, 100, 50), c=(16, 32, 65537), z=(1, 1, 1)), GSIM_BADKNOB="1"), "release"),
    "bad3": (1, ALLF, dict(knobs(s=(3, 24, 40), d=(12, 20, 100000), c=(24, 8, 40), z=(8, 24, 12)), GSIM_BADKNOB="1"), "release"),
    "bad4": (1, ALLF, dict(knobs(s=(0, 24, 40), d=(8, 8, 0), c=(0, 0, 0), z=(8, 0, 64)), GSIM_BADKNOB="1"), "release"),
}
# property -> worker shares per variant
MIX = {
    "C01": [("ship", 3), ("tuned", 2), ("odd", 1), ("nostd", 1), ("dbg", 1)],
    "C02": [("ship", 4), ("tuned", 3), ("tsan", 1)],
    "C03": [("ship", 2), ("tuned", 2), ("tsan", 4)],
    "C04": [("ship", 4), ("tuned", 3), ("tsan", 1)],
    "C05": [("ship", 3), ("tuned", 3), ("dbg", 1), ("odd", 1)],
    "C06": [("ship", 3), ("tuned", 3), ("dbg", 1), ("odd", 1)],
    "C07": [("ship", 3), ("tuned", 3), ("nostd", 1), ("dbg", 1)],
    "C08": [("ship", 4), ("tuned", 3), ("odd", 1)],
    "C09": [("ship", 4), ("tuned", 3), ("nostd", 1)],
    "C10": [("ship", 4), ("tuned", 3), ("single", 1)],
    "C11": [("ship", 5), ("tuned", 3)],
    "C12": [("plain", 8)],
    "C13": [("ship", 4), ("tuned", 3), ("plain", 1)],
    "C14": [("ship", 4), ("tuned", 3), ("tsan", 1)],
    "C15": [("ship", 4), ("tuned", 3), ("tsan", 1)],
    "C16": [("tuned", 1), ("odd", 2), ("least", 1), ("long", 1), ("bad1", 1), ("bad2", 1), ("bad3", 1), ("bad4", 1)],
    "C17": [("ship", 3), ("tuned", 2), ("odd", 2), ("dbg", 1)],
}
TIER_SECS = {"quick": 55, "thorough": 540}


def binary(v):
    return os.path.join(TARGET, v, "dbg" if VARIANTS[v][3] == "dbg" else "release", "gsim")


def build_start(v, jobs):
    instr, feats, extra, prof = VARIANTS[v]
    env = {k: x for k, x in os.environ.items() if not k.startswith(("MATMUL_", "GSIM_", "MMTEST_", "CARGO_", "RUSTFLAGS"))
           or k in ("CARGO_HOME",)}
    env.update(extra)
    env.update(GSIM_INSTR=str(instr), GSIM_VARIANT=v, RUSTC_BOOTSTRAP="1",
               RUSTC_WRAPPER=os.path.join(VERIF, "sim", "wrap.sh"), CARGO_TARGET_DIR=os.path.join(TARGET, v),
               CARGO_INCREMENTAL="0")
    os.makedirs(TARGET, exist_ok=True)
    log = open(os.path.join(TARGET, v + ".log"), "w")
    cmd = ["cargo", "build", "--offline", "--profile", prof, "--features", feats, "-j", str(jobs)]
    return subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=log, stderr=subprocess.STDOUT)


def build(vs, par=8):
    """Build the variants from /repo's working tree; returns the failed ones."""
    todo, running, failed = list(vs), {}, []
    while todo or running:
        while todo and len(running) < par:
            v = todo.pop(0)
            running[v] = build_start(v, max(2, NCPU // max(1, min(par, len(vs)))))
        for v in list(running):
            rc = running[v].poll()
            if rc is not None:
                del running[v]
                if rc != 0 or not os.path.exists(binary(v)):
                    failed.append(v)
                    sys.stderr.write("build of variant %s failed:\n" % v)
                    sys.stderr.write("".join(open(os.path.join(TARGET, v + ".log")).readlines()[-40:]))
        time.sleep(0.05)
    for v in vs:
        if v not in failed and VARIANTS[v][0] == 0:
            sites(binary(v))
    return failed


def sites(exe):
    """Where the instructions of an uninstrumented build begin: 32-bit offsets, for the simulated processor."""
    out = exe + ".sites"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(exe):
        return
    txt = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-j", ".text", exe], capture_output=True, check=True).stdout
    a = [int(x, 16) for x in re.findall(rb"^ *([0-9a-f]+):\t", txt, re.M)]
    with open(out + ".new", "wb") as f:
        f.write(struct.pack("<%dI" % len(a), *a))
    os.replace(out + ".new", out)


def known_findings():
    """Lines `finding: property=<id> variant=<v> class=<c> match=<text>`: only those are reported quietly."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        if l.startswith("finding: "):
            head, _, text = l[9:].strip().partition(" match=")
            res.append((dict(w.split("=", 1) for w in head.split()), text))
    return res


def uniq(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            d = open(p, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    return len(s)


def check(prop, tier, seed, secs):
    t0 = time.time()
    mix = MIX[prop]
    failed = build([v for v, _ in mix])
    if failed:
        print("could not build variant(s) %s" % ", ".join(failed))
        return 2
    t_build = time.time() - t0
    out = os.path.join(OUT, prop)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    jobs = []
    shares = sum(n for _, n in mix)
    scale = max(1, NCPU // shares) if NCPU >= shares else 1
    k = 0
    for v, n in mix:
        n *= scale
        for w in range(n):
            cmd = [binary(v), "batch", "prop=" + prop, "base=%d" % seed, "worker=%d" % w, "workers=%d" % n,
                   "secs=%d" % secs, "minsecs=%d" % int(os.environ.get("GSIM_MINSECS", 45 if tier == "quick" else 180)), "out=" + out, "cpu=%d" % sorted(os.sched_getaffinity(0))[k % NCPU]]
            err = open(os.path.join(out, "%s-%d.err" % (v, w)), "w")
            jobs.append((v, w, subprocess.Popen(cmd, stdout=err, stderr=err, cwd=out, start_new_session=True)))
            k += 1
    rcs = {}
    deadline = time.time() + secs + 240
    while len(rcs) < len(jobs):
        for v, w, p in jobs:
            if (v, w) not in rcs and p.poll() is not None:
                rcs[(v, w)] = p.returncode
        if any(rc == 1 for rc in rcs.values()) or time.time() > deadline:
            break
        time.sleep(0.1)
    stopped = False
    for v, w, p in jobs:
        if p.poll() is None:
            stopped = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.wait()
        rcs.setdefault((v, w), p.returncode if p.returncode in (0, 1, 2) else None)
    res = []
    for v, w, p in jobs:
        f = os.path.join(out, "%s-%s-%d.json" % (prop, v, w))
        if os.path.exists(f):
            try:
                res.append(json.load(open(f)))
            except ValueError:
                pass
    viol = [r["violation"] | {"variant": r["variant"]} for r in res if r["violation"]]
    fresh = []
    for x in viol:
        hit = [k for k, text in known_findings() if k.get("property") == prop and k.get("class", x["class"]) == x["class"]
               and k.get("variant", x["variant"]) == x["variant"] and text and text in x["msg"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, x["msg"]))
        else:
            fresh.append(x)
    for x in fresh:
        print("VIOLATION property=%s replay=%s" % (prop, x["replay"]))
        print("  %s [%s, seed %d, %d scheduling decisions]" % (x["msg"], x["variant"], x["seed"], x["decisions"]))
        print("  minimised: %s" % x["minimised"])
        print("  re-execute with: %s replay %s" % (os.path.abspath(__file__), x["replay"]))
    bad = [k for k, rc in rcs.items() if rc not in (0, 1)] if not stopped else [k for k, rc in rcs.items() if rc == 2]
    write_evidence(prop, tier, seed, secs, mix, res, fresh, out, t_build, time.time() - t0)
    if fresh:
        return 1
    stuck = sum(r["stuck"] for r in res)
    plans = sum(r["plans"] for r in res)
    if bad or not res:
        for v, w in bad:
            sys.stdout.write("worker %s-%d failed (%s):\n" % (v, w, rcs[(v, w)]))
            sys.stdout.write(open(os.path.join(out, "%s-%d.err" % (v, w))).read()[-2000:])
        return 2
    if plans == 0 or stuck * 10 > plans:
        print("too few simulated runs finished (%d of %d stuck)" % (stuck, plans))
        return 2
    print("%s held on %d simulated runs (%d plans, %d steps) in %.0f s" % (prop, sum(r["runs"] for r in res), plans, sum(r["steps"] for r in res), time.time() - t0))
    return 0


REAL = ["all of /repo/src (gemm loops, packing, kernels, thread configuration, pool registry, scratch allocation, feature detection), compiled from the working tree",
        "thread-tree's job, join and context code; once_cell's initialisation algorithm", "std (thread start, thread-local storage, panics, environment, standard error)",
        "real OS threads, stacks and thread-local blocks (one runs at a time)"]
STUB = ["thread scheduler (seeded)", "bounded channel and latch of thread-tree; atomics and parking of once_cell (simulated primitives with clocks)",
        "heap (arena with red zones, garbage, minimal alignment, refusals)", "pthread_create/join, futex, sched_yield, nanosleep, sched_getaffinity, getrandom",
        "num_cpus (answers the plan's processor count)", "std's cached processor feature bits (masked per plan)"]


def write_evidence(prop, tier, seed, secs, mix, res, viol, out, t_build, wall):
    tot = {}
    for r in res:
        for k, (a, b) in r["counters"].items():
            x = tot.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
    pol = {}
    for r in res:
        for k, a in r["policies"].items():
            pol[k] = pol.get(k, 0) + a
    runs = sum(r["runs"] for r in res)
    plans = sum(r["plans"] for r in res)
    steps = sum(r["steps"] for r in res)
    el = max([r["seconds"] for r in res] or [1])
    files = [os.path.join(out, "%s-%s-%d" % (prop, r["variant"], i)) for v, n in mix for r in res if r["variant"] == v for i in range(64)]
    files = sorted(set(files))
    per = {}
    for r in res:
        p = per.setdefault(r["variant"], {"plans": 0, "runs": 0, "steps": 0})
        for k in p:
            p[k] += r[k]
    faults = {k[6:]: {"injected": a, "runs_with_it": b} for k, (a, b) in sorted(tot.items()) if k.startswith("fault_") and a}
    never = sorted(k[6:] for k, (a, b) in tot.items() if k.startswith("fault_") and not a)
    distinct = uniq([f + ".ex" for f in files])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": min(distinct, sum(r["nontrivial"] for r in res)),
        "rule": "Each seed is expanded to a plan (callers, calls with dimensions/strides/data, environment, processor, heap and placement, faults, scheduling policy); "
                "one plan is one simulated run, or two where the property compares executions. A run counts as non-trivial if at least one call with work to do returned, panicked or was refused; "
                "runs are distinct by the hash of their whole sequence of accesses, synchronisation operations and thread switches.",
        "samples": [s for r in res for s in r["samples"]][:6] or ["(no run with more than three preemptions)"],
        "plans": plans,
        "seeds_per_hour": int(plans / el * 3600),
        "runs_per_hour": int(runs / el * 3600),
        "simulated_steps": steps,
        "simulated_time": "the library reads no clock; simulated time is the number of memory accesses and synchronisation operations executed (simulated_steps)",
        "thread_switches": sum(r["switches"] for r in res),
        "preemptions": sum(r["preemptions"] for r in res),
        "distinct_interleavings": uniq([f + ".il" for f in files]),
        "distinct_interleavings_measure": "hash of the sequence of (thread, its step count, reason) at every thread switch; runs without a switch are not counted",
        "distinct_executions": distinct,
        "scheduling_policies": {k: a for k, a in pol.items() if a},
        "faults": faults,
        "fault_kinds_not_injected_for_this_property": never,
        "workload": {k: a for k, (a, b) in sorted(tot.items()) if not k.startswith("fault_") and a},
        "variants": per,
        "runs_not_finished": sum(r["stuck"] for r in res),
        "real_components": REAL,
        "stubbed_components": STUB,
        "build_s": round(t_build, 1),
    }
    if prop == "C12":
        cov["stubbed_components"] = ["std's cached processor feature bits (masked per plan)"] + STUB[:-1]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["memory accesses are sequentially consistent in the simulator; weaker orders are judged by happens-before clocks, not executed",
                          "x86-64 only; the processor running the check provides AVX2 and FMA (missing features are simulated by masking)",
                          "the compiler's access instrumentation sees every access of the library's own code"],
          "wall_s": round(wall, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path, rest):
    head = open(path).readline()
    v = dict(w.split("=", 1) for w in head.split() if "=" in w).get("variant")
    if v not in VARIANTS:
        print("unknown variant in %s" % path)
        return 2
    if build([v]):
        return 2
    return subprocess.call([binary(v), "replay", os.path.abspath(path)] + rest)


def selftest():
    """The same seeds twice, in different processes and on different processors: identical executions."""
    vs = ["ship", "tuned", "tsan", "dbg", "nostd"]
    if build(vs):
        return 2
    bad = 0
    for v in vs:
        outs = []
        for base_cpu in (0, 1):
            ps = [subprocess.Popen([binary(v), "det", "prop=" + p, "base=7", "n=25", "cpu=%d" % ((i + base_cpu) % NCPU)], stdout=subprocess.PIPE, text=True)
                  for i, p in enumerate(["ALL"] + sorted(MIX))]
            outs.append([p.communicate()[0] for p in ps])
        for name, a, b in zip(["ALL"] + sorted(MIX), *outs):
            if a != b or "round trip" in a:
                bad += 1
                print("%s %s: executions differ" % (v, name))
                for x, y in zip(a.splitlines(), b.splitlines()):
                    if x != y:
                        print("   ", x, "|", y)
    print("determinism self-test: %s" % ("FAILED" if bad else "ok"))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        return 2 if build(list(VARIANTS), par=6) else 0
    if a[0] == "build":
        return 2 if build(a[1:], par=6) else 0
    if a[0] == "replay":
        return replay(a[1], a[2:])
    if a[0] == "selftest":
        return selftest()
    if a[0] not in MIX:
        print("unknown property " + a[0])
        return 2
    tier = opt("--tier", "quick")
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    return check(a[0], tier, seed, int(opt("--secs", TIER_SECS[tier])))


if __name__ == "__main__":
    sys.exit(main())
