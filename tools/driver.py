"""Builds the harness from /repo's working tree, runs a property's workload with its monitors
attached, and turns what they observed into an exit code and an evidence file."""

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
CORES = max(1, min(8, os.cpu_count() or 1))
# Of the 900 s a check may take
CHECK_LIMIT = 840
STARTED = time.time()
TRIPLE = "x86_64-unknown-linux-gnu"

# The storage configurations of the library
CONFIGS = {
    "base": [],
    "istr": ["inline-str"],
    "istrl": ["inline-str-l"],
    "i128": ["inline-i128"],
    "all": ["inline-str-l", "inline-i128"],
}

DEATHS = {
    signal.SIGSEGV: "segmentation fault",
    signal.SIGABRT: "abort",
    signal.SIGBUS: "bus error",
    signal.SIGILL: "illegal instruction",
    signal.SIGFPE: "arithmetic exception",
    signal.SIGTRAP: "trap",
}


class CheckError(Exception):
    """The check itself could not be carried out."""


def say(msg):
    print(msg, flush=True)


def environment(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST", "MIRI", "ASAN", "TSAN", "LSAN")) and k not in (
            "CARGO_HOME",
            "RUSTUP_HOME",
        ):
            del env[k]
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


class Build:
    """One way of building the harness."""

    def __init__(self, config, mode="plain"):
        self.config = config
        self.mode = mode
        self.dir = os.path.join(TARGET, config if mode == "plain" else mode + "-" + config)

    def command(self):
        feats = CONFIGS[self.config]
        args = ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
        if feats:
            args += ["--features", ",".join(feats)]
        env = {"CARGO_TARGET_DIR": self.dir}
        if self.mode == "plain":
            cmd = ["cargo", "build"] + args
            self.binary = [os.path.join(self.dir, "debug", "vbharness")]
        elif self.mode == "release":
            cmd = ["cargo", "build", "--release"] + args
            self.binary = [os.path.join(self.dir, "release", "vbharness")]
        elif self.mode in ("asan", "tsan"):
            env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
            env["RUSTFLAGS"] = "-Zsanitizer=" + {"asan": "address", "tsan": "thread"}[self.mode]
            cmd = ["cargo", "build"]
            if self.mode == "tsan":
                cmd += ["-Zbuild-std"]
            cmd += ["--target", TRIPLE] + args
            self.binary = [os.path.join(self.dir, TRIPLE, "debug", "vbharness")]
        elif self.mode == "miri":
            env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
            # Builds, and runs without arguments, which does nothing
            cmd = ["cargo", "miri", "run"] + args + ["--", "--nothing"]
            self.binary = None
        else:
            raise CheckError("unknown mode " + self.mode)
        return cmd, env

    def start(self):
        cmd, env = self.command()
        os.makedirs(self.dir, exist_ok=True)
        self.log = tempfile.TemporaryFile()
        self.cmd = cmd
        self.process = subprocess.Popen(
            cmd,
            env=environment(env),
            cwd=HARNESS,
            stdout=self.log,
            stderr=subprocess.STDOUT,
        )
        return self

    def wait(self, deadline):
        try:
            code = self.process.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.process.kill()
            self.process.wait()
            raise CheckError("building took too long: " + " ".join(self.cmd))
        if code != 0:
            self.log.seek(0)
            text = self.log.read().decode("utf-8", "replace")
            sys.stderr.write(text[-6000:] + "\n")
            raise CheckError("building failed: " + " ".join(self.cmd))
        self.log.close()
        return self

    def run_command(self, args, flags=""):
        """The command and environment of one run."""
        if self.mode == "miri":
            feats = CONFIGS[self.config]
            cmd = ["cargo", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
            if feats:
                cmd += ["--features", ",".join(feats)]
            env = {
                "CARGO_TARGET_DIR": self.dir,
                "RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu",
                "MIRIFLAGS": ("-Zmiri-disable-isolation " + flags).strip(),
            }
            return cmd + ["--"] + args, environment(env)
        env = {}
        if self.mode == "asan":
            env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0"
            env["LSAN_OPTIONS"] = "exitcode=78"
        if self.mode == "tsan":
            env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
        return self.binary + args, environment(env)


def remaining(limit):
    """No more than what is left of the time for a check."""
    return max(1, min(limit, STARTED + CHECK_LIMIT - time.time()))


def build_all(builds, limit):
    deadline = time.time() + limit
    started = []
    try:
        for b in builds:
            started.append(b.start())
        for b in started:
            b.wait(deadline)
    except BaseException:
        for b in started:
            if b.process.poll() is None:
                b.process.kill()
        raise
    return builds


class Job:
    """One process running part of a workload."""

    def __init__(self, build, args, label, scratch, flags="", oracle=True, limit=None):
        self.build = build
        self.args = args
        self.label = label
        self.out = os.path.join(scratch, re.sub(r"[^\w.-]", "_", label) + ".json")
        self.hashes = self.out + ".hashes"
        self.flags = flags
        # Whether what the workload itself finds counts, or only what a sanitizer does
        self.oracle = oracle
        # After this long it's stopped, and was cut short
        self.limit = limit
        self.cut = False

    def start(self):
        self.started = time.time()
        cmd, env = self.build.run_command(
            self.args + ["--out", self.out, "--hashes", self.hashes], self.flags
        )
        self.cmd = cmd
        self.err = tempfile.TemporaryFile()
        self.process = subprocess.Popen(
            cmd, env=env, cwd=HARNESS, stdout=self.err, stderr=subprocess.STDOUT, start_new_session=True
        )

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.process.wait()

    def finish(self):
        self.err.seek(0)
        self.stderr = self.err.read().decode("utf-8", "replace")
        self.err.close()
        self.code = self.process.returncode


def run_jobs(jobs, limit, parallel=CORES):
    """Run every job, a few at a time. Raises when they take too long."""
    deadline = time.time() + remaining(limit)
    waiting = list(jobs)
    running = []
    while waiting or running:
        while waiting and len(running) < parallel:
            j = waiting.pop(0)
            j.start()
            running.append(j)
        for j in list(running):
            if j.process.poll() is None and j.limit and time.time() - j.started > j.limit:
                j.kill()
                j.cut = True
            if j.process.poll() is not None:
                j.finish()
                running.remove(j)
        if time.time() > deadline:
            for j in running:
                j.kill()
            raise CheckError("timed out: " + ", ".join(j.label for j in running))
        time.sleep(0.02)


class Result:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.trivial = 0
        self.judgements = 0
        self.hashes = []
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.stages = []
        self.counters = {}
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.extra = {}
        self.started = time.time()

    def violate(self, where, what, replay):
        self.violations.append({"where": where, "what": what, "replay": replay})


def known_findings(prop):
    """The names of the defects on record for a property."""
    names = set()
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.md")) as f:
        for line in f:
            m = re.match(r"known: property=(\w+) ([\w-]+): ", line)
            if m and m.group(1) == prop:
                names.add(m.group(2))
    return names


def last_case(text):
    m = re.findall(r"^CASE (\d+) (.*)$", text, re.M)
    return m[-1] if m else None


def replay_of(job, case=None):
    cmd, env = job.build.run_command(job.args + (["--only", str(case)] if case is not None else []), job.flags)
    keep = {k: v for k, v in env.items() if k.startswith(("MIRI", "ASAN", "TSAN", "RUSTUP_TOOL", "CARGO_TARGET"))}
    return {"build": job.build.mode, "config": job.build.config, "env": keep, "command": cmd, "case": case}


def sanitizer_report(job):
    """The report of a sanitizer or interpreter, when there is one."""
    t = job.stderr
    if job.build.mode == "asan":
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): (.*)", t)
        if m:
            return m.group(1) + ": " + m.group(2)
    if job.build.mode == "tsan":
        m = re.search(r"WARNING: ThreadSanitizer: (.*)", t)
        if m:
            return "ThreadSanitizer: " + m.group(1)
    if job.build.mode == "miri":
        m = re.search(r"error: (Undefined Behavior: .*|memory leaked: .*|abnormal termination: .*|deadlock.*|the evaluated program (deadlocked|leaked memory).*)", t)
        if m:
            return "Miri: " + m.group(1)
    return None


def judge_job(res, job):
    """What one process observed."""
    if job.cut:
        report = sanitizer_report(job)
        if report:
            raise CheckError(job.label + ": stopped while reporting " + report)
        res.counters["processes cut short"] = res.counters.get("processes cut short", 0) + 1
        return None
    if job.code in (0, 1, 3) and os.path.exists(job.out):
        with open(job.out) as f:
            d = json.load(f)
        if not job.oracle:
            # Whatever it is belongs to another property
            d["violations"] = []
            d["known"] = {}
            d["harness_errors"] = []
        for v in d["violations"]:
            res.violate(job.label, v["what"], replay_of(job, v["case"]))
        for name, what in d["known"].items():
            if name in known_findings(res.prop):
                res.known.setdefault(name, what)
            else:
                res.violate(job.label, "%s: %s" % (name, what), replay_of(job))
        if d["harness_errors"] and not d["violations"]:
            raise CheckError(job.label + ": " + "; ".join(d["harness_errors"]))
        report = sanitizer_report(job)
        if report:
            res.violate(job.label, report, dict(replay_of(job), report=job.stderr[-6000:]))
        return d
    report = sanitizer_report(job)
    if report:
        case = last_case(job.stderr)
        if case is None and job.build.mode != "miri":
            case = trace_case(job)
        res.violate(
            job.label,
            report + (" in case %s (%s)" % case if case else ""),
            dict(replay_of(job, case and case[0]), report=job.stderr[-8000:]),
        )
        return None
    if job.code is not None and job.code < 0 and -job.code in DEATHS:
        death = DEATHS[-job.code]
        m = re.search(r"memory allocation of (\d+) bytes failed", job.stderr)
        if m and int(m.group(1)) < 1 << 40:
            raise CheckError(job.label + ": out of memory")
        # Crashes count when they happen again
        case = trace_case(job)
        if case is None:
            raise CheckError(job.label + ": " + death + " that did not happen again")
        res.violate(
            job.label,
            "%s in case %s (%s): %s" % (death, case[0], case[1], job.stderr[-400:].strip()),
            replay_of(job, case[0]),
        )
        return None
    sys.stderr.write(job.stderr[-4000:] + "\n")
    raise CheckError("%s ended with %r" % (job.label, job.code))


def trace_case(job):
    """Run a job that died again, and find the case it died in."""
    cmd, env = job.build.run_command(job.args + ["--trace"], job.flags)
    try:
        p = subprocess.run(
            cmd, env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=remaining(300)
        )
    except subprocess.TimeoutExpired:
        return None
    if p.returncode in (0, 2, 3):
        return None
    return last_case(p.stdout.decode("utf-8", "replace"))


def union(hashes):
    """How many distinct cases there are in all of these files."""
    if not hashes:
        return 0
    for d in sorted(os.listdir(TARGET)):
        binary = os.path.join(TARGET, d, "debug", "vbharness")
        if d in CONFIGS and os.path.exists(binary):
            p = subprocess.run([binary, "--union"] + hashes, env=environment(), stdout=subprocess.PIPE)
            if p.returncode != 0:
                raise CheckError("counting distinct cases failed")
            return int(p.stdout)
    raise CheckError("nothing to count distinct cases with")


def collect(res, stage, jobs, count=True):
    """Add what a group of processes observed. Not to the counts of the property when it's about another."""
    t = {"evaluations": 0, "judgements": 0, "trivial": 0}
    counters = {}
    hashes = []
    for j in jobs:
        d = judge_job(res, j)
        if d is None:
            continue
        for k in t:
            t[k] += d[k]
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if count:
            res.rule = res.rule or d["rule"]
            res.samples += d["samples"][:4]
        if os.path.exists(j.hashes):
            hashes.append(j.hashes)
    distinct = union(hashes)
    if t["evaluations"] == 0 and not res.violations:
        raise CheckError(stage + ": nothing was observed")
    if count:
        res.evaluations += t["evaluations"]
        res.judgements += t["judgements"]
        res.trivial += t["trivial"]
        res.hashes += hashes
        for k, v in counters.items():
            res.counters[k] = res.counters.get(k, 0) + v
    res.stages.append(dict({"stage": stage, "processes": len(jobs), "distinct": distinct}, **t))


def write_evidence(res, level):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = res.samples
    if len(samples) > 24:
        step = len(samples) / 24
        samples = [samples[int(i * step)] for i in range(24)]
    coverage = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": union(res.hashes) + res.distinct,
        "rule": res.rule + ("; the same case in several builds counts once" if res.hashes else ""),
        "samples": samples,
        "trivial": res.trivial,
        "observed": res.counters,
    }
    if res.stages:
        coverage["oracle_judgements"] = res.judgements
        coverage["stages"] = res.stages
    coverage.update(res.extra)
    doc = {
        "property": res.prop,
        "tier": res.tier,
        "seed": res.seed,
        "level": level,
        "coverage": coverage,
        "assumptions": res.assumptions,
        "violations": len(res.violations),
        "wall_s": round(time.time() - res.started, 3),
    }
    path = os.path.join(VERIF, "evidence", res.prop + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def report(res):
    for name, what in sorted(res.known.items()):
        say("KNOWN-FINDING: property=%s %s: %s" % (res.prop, name, what[:500]))
    if not res.violations:
        return 0
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    path = os.path.join(VERIF, "replay", "%s-%s-%d.json" % (res.prop, res.tier, res.seed))
    with open(path, "w") as f:
        json.dump({"property": res.prop, "tier": res.tier, "seed": res.seed, "violations": res.violations}, f, indent=1)
        f.write("\n")
    for v in res.violations[:5]:
        say("%s: %s" % (v["where"], v["what"][:1500]))
    say("VIOLATION property=%s replay=%s" % (res.prop, path))
    return 1


def main(argv):
    import plans

    if argv[:1] == ["--setup"]:
        try:
            plans.setup()
        except CheckError as e:
            sys.stderr.write("error: %s\n" % e)
            return 2
        return 0
    if not argv or argv[0] not in plans.PLANS:
        sys.stderr.write("usage: check <ID> [quick|thorough] | --setup\n")
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        sys.stderr.write("unknown tier %r\n" % tier)
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    except ValueError:
        seed = sum(b << (8 * i) for i, b in enumerate(os.environ["VERIF_SEED"].encode()[:7]))
    # What follows wants an unsigned 64-bit number
    res = Result(prop, tier, seed)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=ensure(os.path.join(TARGET, "scratch")))
    try:
        plan = plans.PLANS[prop]
        plan["run"](res, scratch)
        write_evidence(res, plan.get("level", "exploration"))
        return report(res)
    except CheckError as e:
        sys.stderr.write("error: %s\n" % e)
        if res.violations:
            # Something was broken before the check ran into trouble
            write_evidence(res, plans.PLANS[prop].get("level", "exploration"))
            return report(res)
        return 2
    except Exception:
        # Trouble with the check is not a violation
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def ensure(path):
    os.makedirs(path, exist_ok=True)
    return path
