"""What is run for each property."""

import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import sys
import time

import driver
from driver import Build, Job, build_all, collect, run_jobs

BUILD_LIMIT = 420


def arguments(res, shard=None, tier=None, extra=()):
    a = ["--prop", res.prop, "--seed", str(res.seed & 0xFFFFFFFFFFFFFFFF), "--tier", tier or res.tier]
    if shard:
        a += ["--shard", "%d/%d" % shard]
    return a + list(extra)


def harness(res, scratch, builds, shards, budget, tier=None, extra=()):
    """Run the property's workload in every build, split up into shards."""
    stages = []
    for b in builds:
        jobs = []
        for i in range(shards):
            args = arguments(res, (i, shards), tier, ["--budget", str(budget)] + list(extra))
            label = "%s-%s-%d" % (b.mode, b.config, i)
            jobs.append(Job(b, args, label, scratch))
        stages.append(jobs)
    return stages


def plain(configs=("base", "istr", "all"), quick_shards=3, thorough_shards=8, scale=3):
    def run(res, scratch):
        quick = res.tier == "quick"
        builds = build_all([Build(c) for c in configs], BUILD_LIMIT)
        extra = ["--scale", str(scale)] if quick else []
        stages = harness(res, scratch, builds, quick_shards if quick else thorough_shards, 60 if quick else 110, extra=extra)
        run_jobs([j for s in stages for j in s], 420)
        for b, jobs in zip(builds, stages):
            collect(res, "%s, %s" % (b.mode, b.config), jobs)

    return {"run": run}


def seeded(res, i, n=None):
    """Another seed for each process."""
    return str((res.seed * 1000003 + (n or 1) * i) & 0xFFFFFFFFFFFFFFFF)


def threads(res, scratch):
    """Real threads as they are, under ThreadSanitizer, and under Miri's schedules."""
    quick = res.tier == "quick"
    plains = [Build(c) for c in ("base", "istr", "all")]
    tsans = [Build(c, "tsan") for c in ("base", "all")]
    miris = [Build(c, "miri") for c in ("istr", "all")]
    build_all(plains + tsans + miris, BUILD_LIMIT)
    # These use several threads each
    stages = harness(res, scratch, plains, 2, 40 if quick else 60)
    stages += harness(res, scratch, tsans, 2, 60 if quick else 80)
    run_jobs([j for s in stages for j in s], 400, parallel=3)
    for b, jobs in zip(plains + tsans, stages):
        collect(res, "%s, %s" % (b.mode, b.config), jobs)
    jobs = []
    for i in range(8 if quick else 24):
        b = miris[i % len(miris)]
        args = ["--prop", res.prop, "--seed", seeded(res, i), "--tier", "tiny", "--budget", "60"]
        jobs.append(Job(b, args, "miri-%s-%d" % (b.config, i), scratch, "-Zmiri-seed=%d" % (i + res.seed % 1000)))
    run_jobs(jobs, 300)
    collect(res, "miri, %d schedules" % len(jobs), jobs)
    res.extra["monitors"] = ["ThreadSanitizer", "Miri", "oracles of the workload"]


OTHERS = ["C%02d" % i for i in range(1, 18)] + ["C20", "C22", "C23", "C24"]


def undefined(res, scratch):
    """Everything under AddressSanitizer, LeakSanitizer, Miri and the checks of a debug build."""
    quick = res.tier == "quick"
    base = Build("base")
    asans = [Build(c, "asan") for c in ("base", "istr", "all")]
    miris = [Build(c, "miri") for c in ("base", "istr", "all")]
    build_all([base] + asans + miris, BUILD_LIMIT)

    jobs = []
    for i in range(8 if quick else 16):
        b = miris[(i + 1) % len(miris)]
        args = ["--prop", res.prop, "--seed", seeded(res, i), "--tier", "tiny", "--budget", "100" if quick else "60"]
        jobs.append(Job(b, args, "miri-%s-%d" % (b.config, i), scratch))
    run_jobs(jobs, 420)
    collect(res, "miri", jobs)

    stages = harness(res, scratch, [base] + asans, 4 if quick else 8, 60 if quick else 40, tier="quick")
    run_jobs([j for s in stages for j in s], 300)
    for b, jobs in zip([base] + asans, stages):
        collect(res, "%s, %s" % (b.mode, b.config), jobs)

    # The workloads of the other properties, for what the sanitizer says about them
    jobs = []
    for i, p in enumerate(OTHERS):
        for b in asans[1:2] if quick else asans:
            n = 6 if quick else 2
            args = ["--prop", p, "--seed", seeded(res, i), "--tier", "quick"]
            args += ["--shard", "%d/%d" % (res.seed % n, n), "--budget", "20" if quick else "14"]
            jobs.append(Job(b, args, "%s-%s-%s" % (b.mode, b.config, p), scratch, oracle=False))
    run_jobs(jobs, 300)
    collect(res, "asan, workloads of the other properties", jobs, count=False)
    if not quick:
        jobs = []
        for i, p in enumerate(["C05", "C10", "C12", "C13", "C15", "C16", "C17", "C20"]):
            b = miris[1 + (i + res.seed) % 2]
            args = ["--prop", p, "--seed", seeded(res, i), "--tier", "tiny", "--budget", "30"]
            jobs.append(Job(b, args, "miri-%s-%s" % (b.config, p), scratch, oracle=False, limit=100))
        run_jobs(jobs, 300)
        collect(res, "miri, workloads of the other properties", jobs, count=False)
    res.extra["monitors"] = [
        "AddressSanitizer",
        "LeakSanitizer",
        "Miri",
        "precondition checks of the standard library",
        "oracles of the workload",
    ]


PROBE = os.path.join(driver.VERIF, "probe")
FULL = "std,owned,error,seq,sval,serde,test"
FEATURES = [
    "",
    "alloc",
    "std",
    "owned",
    "seq",
    "error",
    "sval",
    "serde",
    "sval,serde",
    "sval,alloc",
    "sval,owned",
    "serde,owned,seq",
    "owned,seq,sval",
    "std,seq,sval,serde",
    "owned,inline-str",
    "inline-i128",
    "owned,inline-i128,seq,sval",
    "std,test",
    FULL,
    FULL + ",inline-i128",
    FULL + ",inline-str",
    FULL + ",inline-str-l",
    FULL + ",inline-str-l,inline-i128",
]
SINGLE = ["inline-i128", "inline-str", "inline-str-l", "std", "alloc", "owned", "seq", "sval", "serde", "error", "test"]
GROUPS = 6


def probes(features, out, limit):
    """Build the probe with each set of features. Sets that share a directory are built in turn."""
    deadline = time.time() + limit
    base = driver.environment({"RUSTUP_TOOLCHAIN": "stable"})

    def group(g):
        for i in range(g, len(features), GROUPS):
            target = os.path.join(driver.TARGET, "probe-%d" % g)
            cmd = ["cargo", "build", "--offline", "--features", features[i]]
            try:
                p = subprocess.run(
                    cmd,
                    cwd=PROBE,
                    env=dict(base, CARGO_TARGET_DIR=target),
                    stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT,
                    timeout=max(1, deadline - time.time()),
                )
            except subprocess.TimeoutExpired:
                raise driver.CheckError("building the probe took too long")
            if p.returncode != 0:
                sys.stderr.write(p.stdout.decode("utf-8", "replace")[-4000:])
                raise driver.CheckError("building the probe with %r failed" % features[i])
            if out:
                shutil.copy(os.path.join(target, "debug", "vbprobe"), os.path.join(out, "probe-%d" % i))

    with concurrent.futures.ThreadPoolExecutor(GROUPS) as ex:
        list(ex.map(group, range(GROUPS)))


def features(res, scratch):
    """The same workload in many feature configurations, compared operation by operation."""
    quick = res.tier == "quick"
    rng = random.Random(res.seed)
    sets = list(FEATURES)
    for _ in range(3 if quick else 15):
        s = ",".join(f for f in SINGLE if rng.random() < 0.45)
        if s not in sets:
            sets.append(s)
    probes(sets, scratch, BUILD_LIMIT)
    seed = str(res.seed & 0xFFFFFFFFFFFFFFFF)
    res.rule = "distinct (value, capture route, handle, operation) whose results were compared between at least two configurations"
    bags = 0

    def run(args, i):
        p = subprocess.run(
            [os.path.join(scratch, "probe-%d" % i)] + args,
            env=driver.environment(),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=driver.remaining(300),
        )
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    def said(i, case):
        return dict(l.split("\t", 1) for l in run(["--seed", seed, "--only", str(case)], i)[1].splitlines() if "\t" in l)

    n = 400
    chunks = 3 if quick else 24
    for chunk in range(chunks):
        if driver.remaining(1000) < 120:
            res.counters["chunks left out for time"] = chunks - chunk
            break
        outs = [os.path.join(scratch, "out-%d" % i) for i in range(len(sets))]
        args = ["--seed", seed, "--first", str(chunk * n), "--cases", str(n)]
        with concurrent.futures.ThreadPoolExecutor(driver.CORES) as ex:
            results = list(ex.map(lambda i: run(args + ["--out", outs[i]], i), range(len(sets))))
        for i, (code, out, err) in enumerate(results):
            m = re.search(r"BAGS (\d+) OPERATIONS (\d+)", out)
            if code < 0 and -code in driver.DEATHS:
                res.violate("features " + sets[i], driver.DEATHS[-code] + ": " + err[-500:], {"features": sets[i], "args": args})
                return
            if code != 0 or not m:
                raise driver.CheckError("the probe with %r ended with %r: %s" % (sets[i], code, err[-1000:]))
            bags += int(m.group(1))
        code, out, err = run(["--compare"] + outs, 0)
        m = re.search(r"TOTAL (\d+) COMPARED (\d+) DISTINCT (\d+)", out)
        if code not in (0, 1) or not m:
            raise driver.CheckError("comparing failed: %r %s" % (code, err[-1000:]))
        res.evaluations += int(m.group(2))
        res.distinct += int(m.group(3))
        res.counters["operations"] = res.counters.get("operations", 0) + int(m.group(1))
        for case, a, b in sorted({tuple(map(int, t)) for t in re.findall(r"^DIFFERENT (\d+) (\d+) (\d+)", out, re.M)})[:5]:
            x, y = said(a, case), said(b, case)
            for key in [k for k in x if k in y and x[k] != y[k]][:3]:
                res.violate(
                    "features %r and %r" % (sets[a], sets[b]),
                    "case %d: %s: %s and %s" % (case, key, x[key][:300], y[key][:300]),
                    {"features": [sets[a], sets[b]], "args": ["--seed", seed, "--only", str(case)]},
                )
        if code == 1 and not res.violations:
            raise driver.CheckError("a difference that could not be shown again")
        if res.violations:
            break
        for case in (chunk * n, chunk * n + 7):
            x = sorted(said(len(FEATURES) - 1, case).items())
            res.samples += ["%s: %s" % (k, v[:160]) for k, v in x[:: max(1, len(x) // 4)]]
        for o in outs:
            os.remove(o)
    res.counters["bags"] = bags
    res.extra["configurations"] = sets


PLANS = {"C%02d" % p: plain() for p in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 22, 23, 24)}
for p in ("C04", "C08", "C17", "C24"):
    PLANS[p] = plain(scale=1.5)
PLANS["C11"] = {"run": threads}
PLANS["C18"] = {"run": undefined}
PLANS["C19"] = {"run": features}
PLANS["C20"] = plain(configs=("base", "istr", "istrl", "all"))


def setup():
    build_all([Build(c) for c in ("base", "istr", "all")], 1500)
    build_all([Build(c, m) for m in ("asan", "miri") for c in ("base", "istr", "all")], 1500)
    build_all([Build("istrl")] + [Build(c, "tsan") for c in ("base", "all")], 1500)
    probes(FEATURES, None, 1500)
