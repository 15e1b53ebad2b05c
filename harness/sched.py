"""C05: histories, pools, builds and schedules; C17: targets; the interpreted part of C07."""
import random
from common import *

def parse(out):
    return [tuple(l.split()[:2]) for l in out.splitlines()]

def c05(prop, tier, seed, totals):
    k = 1 if tier == "quick" else 12
    n = 600 if tier == "quick" else 2500
    rng = random.Random(seed * 7 + 5)
    serial, parallel = build("serial"), build("parallel")
    # the reference: the serial build, each job in the order listed
    base = ["--seed", str(seed), "--jobs", str(n)]
    def listing(exe, order, extra, seed_args=base):
        code, out, err = run([exe, "digests"] + seed_args + ["--order", str(order)], timeout=300, extra=extra)
        if code == 1:
            return out
        if code != 0:
            raise Inconclusive("digests ended with %d: %s" % (code, err[-300:]))
        return parse(out)
    want = listing(serial, 0, {})
    if isinstance(want, str):
        violate(prop, "the job list panics: " + want, command=[serial, "digests"] + base)
    plans = [("serial", 1, {}), ("serial", 2 + rng.randrange(90), {}), ("serial", 100 + rng.randrange(90), {}),
             ("parallel", 0, {}), ("parallel", 1, {"RAYON_NUM_THREADS": "1"}), ("parallel", 200 + rng.randrange(90), {"RAYON_NUM_THREADS": "3"}),
             ("parallel", 300 + rng.randrange(90), {"RAYON_NUM_THREADS": "8"}), ("parallel", 400 + rng.randrange(90), {"RAYON_NUM_THREADS": "61"})]
    compared = 0
    for name, order, extra in plans:
        got = listing(serial if name == "serial" else parallel, order, extra)
        if isinstance(got, str):
            violate(prop, "the job list panics in order %d, %s build: %s" % (order, name, got), flavour=name, order=order, env=extra)
        for i, (a, b) in enumerate(zip(want, got)):
            if a[0] != b[0]:
                raise Inconclusive("the job lists differ")
            compared += 1
            if a[1] != b[1]:
                code, text, _ = run([serial, "digests"] + base + ["--describe"], timeout=300)
                violate(prop, "job %d gives other bytes in the %s build, order %d, %s: %s" % (i, name, order, extra, text.splitlines()[i]),
                        flavour=name, replay=[serial if name == "serial" else parallel, "digests"] + base + ["--order", str(order)], env=extra)
    totals.add("histories: the job list in %d orders, builds and pool sizes, a process each" % len(plans), compared, len(set(want)),
               ["job %d: inputs %s result %s" % (i, a, b) for i, (a, b) in list(enumerate(want))[:3]], jobs=n)
    # one-job processes: what a first call sees; compared with the same job in a long history
    first = 0
    for i in range(24 * k):
        s = seed * 1000 + i
        lone = listing(parallel if i % 2 else serial, 0, {}, ["--seed", str(s), "--jobs", "1"])
        after = listing(serial if i % 4 < 2 else parallel, 1, {}, ["--seed", str(s), "--jobs", "7"])
        if isinstance(lone, str) or isinstance(after, str) or lone[0] != after[0]:
            violate(prop, "a job alone in a process (seed %d) gives other bytes than after six others: %s, %s" % (s, lone, after), seed=s)
        first += 1
    totals.add("first calls of a process against the same call later", first, first)
    # calls after histories that pass the ends of counters
    import concurrent.futures
    def long_past(i):
        cmd = [serial, "history", "--seed", str(seed * 100 + i), "--seconds", str(5 * k)]
        return verdict(prop, "serial", cmd, 5 * k + 200, lambda r: cmd)
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        past = list(ex.map(long_past, range(CPUS)))
    totals.add("calls repeated 255 to 257 and 65535 to 65537 calls after others", sum(r["cases"] for r in past), sum(r["distinct"] for r in past),
               [past[0]["text"]], library_calls=sum(r["calls"] for r in past))
    work = tempfile.mkdtemp(prefix="verif-c05-")
    try:
        expect = os.path.join(work, "expect")
        with open(expect, "w") as f:
            f.writelines("%s %s\n" % p for p in want)
        for flavour, seconds, extra in [("parallel", 8 * k, {"RAYON_NUM_THREADS": str(rng.choice([2, 3, 5, 8]))}),
                                        ("tsan", 12 * k, {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_signal_unsafe=0", "RAYON_NUM_THREADS": "4"})]:
            exe = build(flavour)
            cmd = [exe, "stress"] + base + ["--expect", expect, "--seconds", str(seconds)]
            code, out, err = run(cmd, timeout=seconds + 300, extra=extra)
            try:
                r = json.loads(out.strip().splitlines()[-1])
            except (ValueError, IndexError):
                r = None
            races = re.findall(r"WARNING: ThreadSanitizer: .*?(?=WARNING: ThreadSanitizer|\Z)", err, re.S)
            ours = [x for x in races if any("/repo/lib/" in "\n".join(part.splitlines()[:5]) for part in re.split(r"\n\s*\n", x))]
            if ours:
                violate(prop, ours[0].splitlines()[0] + " in the library", report=ours[0][:3000], flavour=flavour, command=cmd)
            if r and "violation" in r:
                violate(prop, r["violation"], flavour=flavour, command=cmd, env=extra)
            if r is None or code not in (0, 66) or "broken" in r:
                if code < 0 and code != -9:
                    violate(prop, "concurrent calls ended the process with signal %d" % -code, flavour=flavour, command=cmd, log=err[-1000:])
                raise Inconclusive("stress ended with %d: %s %s" % (code, out[-300:], err[-300:]))
            totals.add("stress, %s build" % flavour, r["executions"], r["jobs"], observed=r, reports_outside_the_library=len(races))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    procs = CPUS
    done = miri("miri-race", [("race", seed * 100 + i, 6 * k) for i in range(procs)], 45 * k + 60)
    raced = 0
    for args, code, out, err, finished in done:
        if code == 1 and "violated" in out:
            violate(prop, out.strip().splitlines()[0], flavour="miri-race", arguments=list(args))
        e = miri_error(err)
        if e:
            violate(prop, e, report=err[-4000:], flavour="miri-race", arguments=list(args))
        m = re.search(r"^raced (\d+)", out, re.M)
        raced += int(m.group(1)) if m else 0
        if finished and not m:
            raise Inconclusive("miri: " + err[-600:])
    totals.add("Miri with preemption and weak-memory emulation", raced, sum(1 for d in done if "raced" in d[2]), processes=procs)
    return ("library calls under varied histories, pools, callers, nesting and delays, each compared with the serial build's result; distinct: "
            "job results per component (components also count schedules: distinct windows of eight row events by thread, operation and row)"), None

def v3():
    """Whether this machine runs code compiled for x86-64-v3"""
    try:
        have = set(re.search(r"^flags\s*:(.*)", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except (OSError, AttributeError):
        return False
    return {"avx", "avx2", "bmi1", "bmi2", "f16c", "fma", "abm", "movbe"} <= have

def profiles(prop, tier, seed, totals):
    """The same jobs in builds with other optimisation levels, debug settings and CPU features"""
    import concurrent.futures
    reference = build("serial")
    others = {"debug": "debug profile", "small": "opt-level s, LTO, panics abort", "checked": "opt-level 2, debug checks"}
    if v3():
        others["wide"] = "for x86-64-v3"
    for flavour in others:
        build(flavour)
    per, lists = 400, CPUS * (3 if tier == "quick" else 40)
    def listing(flavour, i, more=()):
        cmd = [binary(flavour), "digests", "--seed", str(seed * 7919 + i), "--jobs", str(per)] + list(more)
        code, out, err = run(cmd, timeout=400)
        if code not in (0, 1):
            if code < 0 and code != -9:
                violate(prop, "the job list ends the process with signal %d" % -code, flavour=flavour, replay=cmd)
            raise Inconclusive("digests ended with %d: %s" % (code, err[-300:]))
        return cmd, out
    def compare(i):
        _, want = listing("serial", i)
        for flavour, what in others.items():
            cmd, got = listing(flavour, i)
            if got == want:
                continue
            if got.startswith("panic") or want.startswith("panic"):
                violate(prop, "a job panics, %s: %s; release profile: %s" % (what, got.splitlines()[0], want.splitlines()[0]), flavour=flavour, replay=cmd)
            text = listing("serial", i, ["--describe"])[1].splitlines()
            for j, (a, b) in enumerate(zip(parse(want), parse(got))):
                if a[0] != b[0]:
                    raise Inconclusive("the job lists differ")
                if a[1] != b[1]:
                    violate(prop, "other bytes than in the release profile, %s: %s" % (what, text[j]), flavour=flavour, replay=cmd)
            raise Inconclusive("the job lists differ")
        return want
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(compare, range(lists)))
    distinct = len({l for r in results for l in r.splitlines()})
    totals.add("other profiles and CPU features (%s), compared with the release profile" % "; ".join(others.values()), lists * per * len(others), distinct,
               results[0].splitlines()[:2])

def c17(prop, tier, seed, totals):
    start = time.time()
    profiles(prop, tier, seed, totals)
    per = 56 if tier == "quick" else 400
    native = build("native")
    runs, half = [], max(1, CPUS // 2)
    main, further = ["miri-s390x", "miri-i686"], sorted(f for f in FLAVOURS if FLAVOURS[f][0] == "miri" and FLAVOURS[f][1][0] in FURTHER)
    for t in main:
        build(t)
    left_out = []
    for t in list(further):
        # these are extras: no time is to be lost over a standard library that does not build here
        try:
            if time.time() - start > 400:
                raise Inconclusive("no time left to build it")
            build(t)
        except Inconclusive as e:
            further.remove(t)
            left_out.append(t)
            log("%s is left out: %s" % (t, str(e)[-300:]))
    if left_out:
        totals.add("left out: " + ", ".join(left_out), 0, 0)
    import concurrent.futures
    def interpret(targets, each, parts, limit):
        plans = [(t, [("digests", seed, (j * len(targets) + b) * each, (j * len(targets) + b + 1) * each) for j in range(parts)]) for b, t in enumerate(targets)]
        with concurrent.futures.ThreadPoolExecutor(max(1, CPUS // parts)) as ex:
            return list(zip(plans, ex.map(lambda p: miri(p[0], p[1], limit), plans)))
    results = (interpret(main, per, half, 100 if tier == "quick" else 500) +
               interpret(further, per * 3 // 4, 1, 100 if tier == "quick" else 250))
    for (flavour, _), done in results:
        same, shown, kinds = 0, [], {}
        for args, code, out, err, finished in done:
            c, ref, _ = run([native] + [str(a) for a in args], timeout=120)
            ref = {l.split()[0]: l for l in ref.splitlines()}
            lines = out.splitlines()
            for l in lines:
                f = l.split(" ", 3)
                if len(f) < 4 or not l.endswith(ref[f[0]][-3:]):
                    if not finished and l == lines[-1]:
                        continue
                g = ref[f[0]].split(" ", 3)
                if f[1] != g[1]:
                    raise Inconclusive("the job lists differ: %s / %s" % (l, ref[f[0]]))
                if f[2] != g[2]:
                    violate(prop, "result on %s differs from the host's: %s / %s" % (flavour[5:], l, ref[f[0]]), flavour=flavour, arguments=list(args))
                same += 1
                kinds[" ".join(f[3].split()[:2])] = kinds.get(" ".join(f[3].split()[:2]), 0) + 1
                if len(shown) < 3:
                    shown.append(l)
            e = miri_error(err)
            if e:
                violate(prop, "on %s: %s" % (flavour[5:], e), report=err[-4000:], flavour=flavour, arguments=list(args))
            if finished and code != 0:
                raise Inconclusive("miri on %s: %s" % (flavour, err[-600:]))
        if same == 0:
            raise Inconclusive("nothing was compared on " + flavour)
        totals.add("interpreted on %s, compared with the host" % flavour[5:], same, same, shown, kinds=kinds)
    return "library calls on blocks and small images; all are non-trivial; distinct by job", None

def judged_miri(prop, mode, flavour, tier, seed, per, totals):
    """Cases that the interpreted program judges itself"""
    k = 1 if tier == "quick" else 12
    done = miri(flavour, [(mode, seed * 100 + i, per * k) for i in range(CPUS)], 45 * k + 60)
    held = 0
    for args, code, out, err, finished in done:
        lines = out.splitlines()
        held += sum(l.startswith("held") for l in lines)
        bad = [l for l in lines if l.startswith("violated")]
        if bad:
            violate(prop, "on %s: %s" % (flavour[5:], bad[0]), flavour=flavour, arguments=list(args))
        e = miri_error(err)
        if e:
            violate(prop, e, report=err[-4000:], flavour=flavour, arguments=list(args))
        if finished and code != 0:
            raise Inconclusive("miri: " + err[-600:])
    totals.add("Miri on %s (undefined behaviour, debug checks)" % flavour[5:], held, held)

def c31(prop, tier, seed, totals):
    """Which threads use CPU time during calls of the parallel build"""
    k = 1 if tier == "quick" else 15
    for i in range(2):
        cmd = [build("parallel"), "spread", "--seed", str(seed * 2 + i), "--seconds", str(9 * k)]
        r = verdict(prop, "parallel", cmd, 9 * k + 200, lambda r: cmd)
        totals.add("CPU clocks of all threads around calls, process %d" % (i + 1), r["calls"], r["distinct"], [r["text"]], images=r["cases"], observed=r["labels"])
    return "images of many rows compressed and decompressed in thread pools of several sizes; distinct by size, pool and caller; all are non-trivial", None
