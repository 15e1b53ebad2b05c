"""Building from /repo's working tree, running components, evidence and verdicts."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
CPUS = os.cpu_count() or 8

class Inconclusive(Exception):
    """The check could not reach a verdict: neither held nor violated."""

class Violation(Exception):
    def __init__(self, detail, replay):
        super().__init__(detail)
        self.detail, self.replay = detail, replay

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env(extra=None):
    e = dict(os.environ)
    e.setdefault("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["MONITOR_HINTS"] = hints()
    e.update(extra or {})
    return e

def run(cmd, cwd=None, timeout=600, extra=None, **kw):
    """Runs a command in its own process group; kills the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd or VERIF, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Inconclusive("timed out after %d s: %s" % (timeout, " ".join(map(str, cmd))))
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")

# ---------------------------------------------------------------- sources under test

def source_files():
    files = []
    for base in ("lib", "cli"):
        for d, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            files += [os.path.join(d, n) for n in names if n.endswith((".rs", ".toml", ".md"))]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    return sorted(f for f in files if os.path.exists(f))

def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()

_hints = None
def hints():
    """Numbers that occur in the sources under test: workload hints, never part of a verdict."""
    global _hints
    if _hints is None:
        nums = set()
        for p in source_files():
            if not p.endswith(".rs") or os.path.basename(p) in ("single_lut.rs", "test_data.rs"):
                continue
            text = re.sub(r"//[^\n]*", "", open(p, encoding="utf-8", errors="replace").read())
            text = text.split("#[cfg(test)]\nmod tests")[0]
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|size))?(?![\w.])", text):
                try:
                    nums.add(int(m.group(1).replace("_", ""), 0))
                except ValueError:
                    pass
        _hints = ",".join(str(n) for n in sorted(nums) if n < 1 << 31)
    return _hints

# ---------------------------------------------------------------- builds

def bare(target, library=True):
    """Arguments for a target without std, where the standard library is core alone"""
    return (["--release", "-Zbuild-std=core,compiler_builtins", "-Zbuild-std-features=compiler-builtins-mem", "--target", target] +
            (["--features", "library"] if library else []))

STATIC = {"RUSTFLAGS": "-Crelocation-model=static"}

# targets other than the two that C17 interprets most on
FURTHER = ["aarch64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-pc-windows-gnu", "armv7-unknown-linux-gnueabihf", "riscv64gc-unknown-linux-gnu"]

FLAVOURS = {
    # name: (crate, cargo arguments, extra environment, toolchain)
    "serial": ("monitor", ["--release"], {}, None),
    "parallel": ("monitor", ["--release", "--features", "parallel,hooks"], {}, None),
    "checked": ("monitor", ["--profile", "checked"], {}, None),
    "checked-parallel": ("monitor", ["--profile", "checked", "--features", "parallel,hooks"], {}, None),
    # the library as other profiles and CPUs would have it, for C17
    "debug": ("monitor", [], {}, None),
    "small": ("monitor", ["--release"], {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_PANIC": "abort",
                                         "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}, None),
    "wide": ("monitor", ["--release"], {"RUSTFLAGS": "-Ctarget-cpu=x86-64-v3"}, None),
    "tsan": ("monitor", ["--release", "--features", "parallel,hooks", "-Zbuild-std", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=thread"}, "nightly"),
    "fuzz": ("fuzz", None, {}, "nightly"),
    "native": ("miri", ["--release"], {}, None),
    "miri-s390x": ("miri", ["s390x-unknown-linux-gnu"], {"MIRIFLAGS": "-Zmiri-env-forward=MONITOR_HINTS -Zmiri-deterministic-floats"}, "miri"),
    "miri-i686": ("miri", ["i686-unknown-linux-gnu"], {"MIRIFLAGS": "-Zmiri-env-forward=MONITOR_HINTS -Zmiri-deterministic-floats"}, "miri"),
    **{"miri-" + t.split("-u")[0].replace("-pc", "").replace("-gnu", ""): ("miri", [t], {"MIRIFLAGS": "-Zmiri-env-forward=MONITOR_HINTS -Zmiri-deterministic-floats"}, "miri") for t in FURTHER},
    "miri-x86_64": ("miri", [TRIPLE], {"MIRIFLAGS": "-Zmiri-env-forward=MONITOR_HINTS -Zmiri-tree-borrows"}, "miri"),
    "miri-race": ("miri", [TRIPLE, "--features", "parallel"],
                  {"MIRIFLAGS": "-Zmiri-env-forward=MONITOR_HINTS -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03"}, "miri"),
    "oracle": ("oracle", ["--release"], {}, None),
    "bare-host": ("bare", ["--release", "--features", "host,library"], {}, None),
    "bare-control": ("bare", bare("x86_64-unknown-none", False), STATIC, "nightly"),
    "bare-x86_64": ("bare", bare("x86_64-unknown-none"), STATIC, "nightly"),
    "bare-thumbv7em": ("bare", bare("thumbv7em-none-eabihf"), {}, "nightly"),
    "bare-riscv32": ("bare", bare("riscv32imac-unknown-none-elf"), {}, "nightly"),
    "cli": ("cli", ["--release"], {}, None),
    "cli-serial": ("cli", ["--release", "--no-default-features"], {}, None),
}

def crate_dir(crate):
    return os.path.join(REPO, "cli") if crate == "cli" else os.path.join(VERIF, crate)

def harness_sources(crate):
    if crate == "cli":
        return []
    out = []
    for c in {crate} if crate in ("oracle", "bare") else {"monitor", crate}:
        for d, dirs, names in os.walk(os.path.join(VERIF, c)):
            dirs[:] = [x for x in dirs if x not in ("target", "corpus", "artifacts")]
            out += [os.path.join(d, n) for n in names if n.endswith((".rs", ".toml", ".lock"))]
    return sorted(out)

def binary(flavour):
    crate = FLAVOURS[flavour][0]
    base = os.path.join(TARGET, flavour)
    if flavour == "fuzz":
        return os.path.join(base, TRIPLE, "release", "check")
    profile = "checked" if flavour.startswith("checked") else "debug" if flavour == "debug" else "release"
    args = FLAVOURS[flavour][1]
    if "--target" in args:
        base = os.path.join(base, args[args.index("--target") + 1])
    name = {"bare": "bare", "monitor": "monitor", "miri": "under-miri", "oracle": "oracle", "cli": "texpresso"}[crate]
    return os.path.join(base, profile, name)

class Locked:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def forget(target, packages):
    """Drops cargo's record of these packages, so that they are rebuilt whatever file times say."""
    for prof in sum((glob.glob(os.path.join(target, *["*"] * n, ".fingerprint")) for n in (1, 2, 3)), []):
        for d in os.listdir(prof):
            if re.match(r"(%s)-[0-9a-f]+$" % "|".join(map(re.escape, packages)), d):
                shutil.rmtree(os.path.join(prof, d))

def build_shim(name="shim"):
    """A library to be interposed with LD_PRELOAD: `shim` injects faults, `asked` notes the environment variables asked for, `clock` shifts the wall clock"""
    src, so = os.path.join(VERIF, "shim", name + ".c"), os.path.join(TARGET, name + ".so")
    with Locked(name):
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            code, out, err = run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl", "-lpthread"], timeout=120)
            if code != 0:
                raise Inconclusive("building the shim failed: " + err[-500:])
    return so

def sysroots(target):
    """Where Miri keeps its standard library for a target; one directory for each, so that they can be built at the same time"""
    return os.path.join(TARGET, "cache", target)

def miri_command(flavour):
    args = FLAVOURS[flavour][1]
    return (["cargo", "+nightly", "miri", "run", "-q", "--target", args[0], "--target-dir", os.path.join(TARGET, flavour)] + args[1:] + ["--"],
            dict(FLAVOURS[flavour][2], RUSTFLAGS="-Awarnings", XDG_CACHE_HOME=sysroots(args[0])))

def build(flavour):
    crate, args, extra, toolchain = FLAVOURS[flavour]
    target = os.path.join(TARGET, flavour)
    stamp = os.path.join(target, "verif-stamp")
    with Locked(flavour):
        want = digest(source_files() + harness_sources(crate))
        have = open(stamp).read() if os.path.exists(stamp) else ""
        interpreted = toolchain == "miri"
        exe = None if interpreted else binary(flavour)
        if have == want and (interpreted or os.path.exists(exe)):
            return exe
        os.makedirs(target, exist_ok=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        forget(target, ["texpresso", "texpresso_cli", "monitor", "verif-fuzz", "under-miri", "oracle", "bare"])
        start = time.time()
        if interpreted:
            with Locked("sysroot-" + args[0]):
                run(["cargo", "+nightly", "miri", "setup", "--target", args[0]], cwd=crate_dir(crate), timeout=800,
                    extra={"XDG_CACHE_HOME": sysroots(args[0])})
            cmd, extra = miri_command(flavour)
            cmd, cwd = cmd + ["digests", "1", "0", "0"], crate_dir(crate)
        elif flavour == "fuzz":
            cmd = ["cargo", "+nightly", "fuzz", "build", "--fuzz-dir", os.path.join(VERIF, "fuzz"), "--target-dir", target, "check"]
            cwd = os.path.join(VERIF, "fuzz")
        else:
            cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--target-dir", target] + args
            cwd = crate_dir(crate)
            if crate == "cli":
                cmd += ["--locked", "--manifest-path", os.path.join(REPO, "cli", "Cargo.toml")]
                cwd = REPO
        code, out, err = run(cmd, cwd=cwd, timeout=800, extra=extra)
        if code != 0:
            raise Inconclusive("building %s failed:\n%s" % (flavour, "\n".join((out + err).splitlines()[-40:])))
        if not interpreted and not os.path.exists(exe):
            raise Inconclusive("building %s left no %s" % (flavour, exe))
        with open(stamp, "w") as f:
            f.write(want)
        log("built %s in %.0f s" % (flavour, time.time() - start))
        return exe

# ---------------------------------------------------------------- verdicts and evidence

def save_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path

def violate(prop, detail, **how):
    raise Violation(detail, save_replay(prop, dict(property=prop, detail=detail, repo_sources=digest(source_files()), **how)))

class Totals:
    """What a run of a check observed, summed over its components."""
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.components = []

    def add(self, name, evaluations, distinct, samples=(), **details):
        self.evaluations += evaluations
        self.distinct += distinct
        self.samples += list(samples)[:3]
        self.components.append(dict(component=name, evaluations=evaluations, distinct_nontrivial=distinct, **details))

def write_evidence(prop, tier, seed, level, rule, totals, wall, violations, assumptions, exhaustive=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": totals.evaluations,
        "distinct_nontrivial": totals.distinct,
        "rule": rule,
        "samples": totals.samples[:12] or ["(none: stopped before the first sample)"],
        "components": totals.components,
    }
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 1), violations=violations)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

# ---------------------------------------------------------------- components shared by the library checks

def verdict(prop, flavour, cmd, timeout, replay):
    """Runs the monitor and turns what it prints into a verdict."""
    code, out, err = run(cmd, timeout=timeout)
    crashed = code < 0 or code not in (0, 1, 3)
    try:
        r = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        r = None
    if crashed or r is None:
        if code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE) or code in (134, 139):
            violate(prop, "the process died of signal %d while exercising the library: %s" % (-code, err[-400:]),
                    flavour=flavour, command=cmd)
        raise Inconclusive("monitor ended with %d: %s %s" % (code, out[-500:], err[-500:]))
    if code == 3:
        raise Inconclusive(r.get("broken", "monitor broken"))
    if code == 1:
        violate(prop, r["violation"], case=r.get("text", ""), flavour=flavour, replay=replay(r),
                hints=hints())
    return r

def monitor(prop, totals, flavour, seed, seconds, sweep=None, name=None):
    """The seeded random driver and, if asked, the systematic sweep."""
    exe = build(flavour)
    cmd = [exe, "run", "--check", prop, "--seed", str(seed), "--seconds", str(seconds), "--threads", str(CPUS)]
    if sweep:
        cmd += ["--sweep", str(sweep)]
    r = verdict(prop, flavour, cmd, seconds + (sweep or 0) + 240, lambda r: [exe, "replay"] + r["how"].split())
    if r["nontrivial"] == 0:
        raise Inconclusive("nothing was observed")
    totals.add(name or "random%s, %s build" % (" and systematic" if sweep else "", flavour), r["cases"], r["distinct"], r["samples"],
               library_calls=r["calls"], nontrivial=r["nontrivial"], observed=r["labels"],
               sweep_complete=r["sweep_complete"] if sweep else None)
    return r

def giant(prop, totals, flavour, seed, thorough):
    """Images of more than 2^24 pixels a side and 2^32 bytes."""
    cmd = [build(flavour), "giant", "--check", prop, "--seed", str(seed)] + (["--thorough"] if thorough else [])
    try:
        r = verdict(prop, flavour, cmd, 700, lambda r: cmd)
    except Inconclusive as e:
        if "ended with -9:" not in str(e):
            raise
        # ended from outside, for its memory
        totals.add("giant images, %s build" % flavour, 0, 0, [], skipped="too little memory")
        return
    totals.add("giant images, %s build" % flavour, r["cases"], r["distinct"], [r["text"]], library_calls=r["calls"], observed=r["labels"])

def fuzz(prop, totals, seed, seconds, jobs=None):
    """libFuzzer with comparison feedback and AddressSanitizer over the same oracle."""
    exe = build("fuzz")
    jobs = jobs or CPUS
    work = tempfile.mkdtemp(prefix="verif-fuzz-")
    try:
        corpus = os.path.join(work, "corpus")
        os.makedirs(corpus)
        import random
        rng = random.Random(seed * 1000003 + sum(prop.encode()))
        for i in range(24):
            n = rng.choice([16, 40, 90, 140, 220])
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(bytes(rng.randrange(256) if rng.random() < 0.8 else rng.choice([0, 255, 128, 127]) for _ in range(n)))
        procs = []
        for j in range(jobs):
            d = os.path.join(work, "p%d" % j)
            os.makedirs(d)
            cmd = [exe, corpus, "-max_total_time=%d" % seconds, "-use_value_profile=%d" % (j % 4 != 3), "-max_len=320", "-len_control=0",
                   "-seed=%d" % (seed * 97 + j + 1), "-print_final_stats=1", "-timeout=300", "-rss_limit_mb=3000",
                   "-artifact_prefix=" + d + "/", "-reload=1", "-detect_leaks=0"]
            e = env({"MONITOR_PROP": prop, "MONITOR_FUZZ_OUT": os.path.join(d, "verdict"),
                     "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"})
            procs.append((d, subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.DEVNULL,
                                              stderr=open(os.path.join(d, "log"), "wb"), start_new_session=True)))
        deadline = time.time() + seconds + 120
        failed = None
        pending = list(procs)
        while pending and time.time() < deadline:
            for item in list(pending):
                rc = item[1].poll()
                if rc is not None:
                    pending.remove(item)
                    if rc != 0 and failed is None:
                        failed = (item[0], rc)
            if failed:
                break
            time.sleep(0.1)
        late = bool(pending) and not failed
        for d, p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if failed:
            d, rc = failed
            text = open(os.path.join(d, "log"), "rb").read().decode("utf-8", "replace")
            verdict = os.path.join(d, "verdict")
            found = [f for f in os.listdir(d) if re.match(r"(crash|timeout|oom|slow-unit)-", f)]
            data = open(os.path.join(d, found[0]), "rb").read() if found else b""
            if os.path.exists(verdict):
                kind, detail, case = (open(verdict).read() + "\n\n\n").split("\n")[:3]
                if kind == "broken":
                    raise Inconclusive(detail)
                violate(prop, detail, case=case, input_hex=data.hex(), flavour="fuzz", hints=hints(),
                        replay="write the bytes of input_hex to a file and run: monitor replay bytes %s FILE" % prop)
            m = re.search(r"ERROR: AddressSanitizer: .*", text)
            if m:
                violate(prop, m.group(0), input_hex=data.hex(), flavour="fuzz", log=text[-3000:],
                        replay="MONITOR_PROP=%s %s FILE" % (prop, exe))
            raise Inconclusive("the fuzzer ended with %d: %s" % (rc, text[-800:]))
        if late:
            raise Inconclusive("the fuzzer did not stop in time")
        runs = new = 0
        for d, p in procs:
            text = open(os.path.join(d, "log"), "rb").read().decode("utf-8", "replace")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
            runs += int(m.group(1)) if m else 0
            m = re.search(r"stat::new_units_added:\s*(\d+)", text)
            new += int(m.group(1)) if m else 0
        if runs == 0:
            raise Inconclusive("the fuzzer executed nothing")
        totals.add("coverage- and comparison-guided (libFuzzer, AddressSanitizer, debug checks)", runs, len(os.listdir(corpus)) - 24,
                   processes=jobs, new_units=new)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def miri(flavour, runs, timeout):
    """Interprets `under-miri` with each of the argument lists; yields (arguments, code, out, err, finished)."""
    build(flavour)
    cmd, extra = miri_command(flavour)
    flags = extra["MIRIFLAGS"]
    procs, done = [], []
    deadline = time.time() + timeout
    work = tempfile.mkdtemp(prefix="verif-miri-")
    try:
        for i, args in enumerate(runs):
            e = env(dict(extra, MIRIFLAGS="%s -Zmiri-seed=%d" % (flags, 1 + int(args[1]) % 65521 + i)))
            o, r = open(os.path.join(work, "o%d" % i), "w+b"), open(os.path.join(work, "e%d" % i), "w+b")
            procs.append((args, subprocess.Popen(cmd + [str(a) for a in args], cwd=crate_dir("miri"), env=e, stdout=o, stderr=r, start_new_session=True), o, r))
        for args, p, o, r in procs:
            try:
                p.wait(max(0.1, deadline - time.time()))
                finished = True
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                finished = False
            o.seek(0), r.seek(0)
            done.append((args, p.returncode, o.read().decode("utf-8", "replace"), r.read().decode("utf-8", "replace"), finished))
            o.close(), r.close()
    finally:
        for _, p, _, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        shutil.rmtree(work, ignore_errors=True)
    return done

def miri_error(err):
    """The error Miri reports, if it arises in the library: in it, or in what it calls directly"""
    m = re.search(r"^error: (?!process didn't|aborting).*", err, re.M)
    if not m:
        return None
    near = "\n".join(err[m.start():].splitlines()[:40])
    return m.group(0) if "/repo/lib/" in near else None
