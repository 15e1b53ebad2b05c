import traceback
from common import *
import library, sched, cli, isolation, endings, freestanding

LEVELS = {"C22": "fault_enumeration", "C32": "fault_enumeration"}

def decide(prop, tier, seed, totals):
    if prop == "C05":
        return sched.c05(prop, tier, seed, totals)
    if prop == "C31":
        return sched.c31(prop, tier, seed, totals)
    if prop == "C17":
        return sched.c17(prop, tier, seed, totals)
    if prop == "C23":
        return freestanding.c23(prop, tier, seed, totals)
    if prop in cli.CASES:
        return cli.check(prop, tier, seed, totals)
    r = library.check(prop, tier, seed, totals)
    if prop == "C07":
        sched.judged_miri(prop, "hostile", "miri-x86_64", tier, seed, 30, totals)
    if prop == "C26":
        sched.judged_miri(prop, "sizes", "miri-i686", tier, seed, 150, totals)
    return r

def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    totals = Totals()
    rule, exhaustive, violations, code = "", None, 0, 0
    try:
        rule, exhaustive = decide(prop, tier, seed, totals)
        print("held: %s on %d evaluations (%d distinct)" % (prop, totals.evaluations, totals.distinct))
    except Violation as v:
        violations, code = 1, 1
        rule = "stopped at the first violation"
        print(v.detail)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: the check itself failed" % prop)
        return 2
    write_evidence(prop, tier, seed, LEVELS.get(prop, "exploration"), rule, totals, time.time() - start, violations,
                   ["no execution outside the generated workloads was observed"], exhaustive)
    return code

def replay(path):
    data = json.load(open(path))
    print(json.dumps(data, indent=1))
    r = data.get("replay")
    if isinstance(r, list):
        build(data["flavour"])
        return subprocess.call(r, env=env({"MONITOR_HINTS": data.get("hints", "")}))
    if "cli_case" in data:
        return cli.replay(data["property"], data["cli_case"])
    if data.get("input_hex"):
        exe = build("checked")
        with tempfile.NamedTemporaryFile() as f:
            f.write(bytes.fromhex(data["input_hex"]))
            f.flush()
            return subprocess.call([exe, "replay", "bytes", data["property"], f.name], env=env({"MONITOR_HINTS": data.get("hints", "")}))
    return 0

def setup():
    """Builds everything, several at a time. What it leaves out or fails to build, the checks build themselves."""
    import concurrent.futures
    start = time.time()
    further = [f for f in FLAVOURS if FLAVOURS[f][0] == "miri" and FLAVOURS[f][1][0] in FURTHER]
    def one(f):
        if f in further and time.time() - start > 700:
            return log("left out: " + f)
        try:
            build(f)
        except Inconclusive as e:
            # whether the library builds for such targets is for C23 to say; the further ones are extras of C17
            if not f.startswith("bare") and f not in further:
                raise
            log(e)
    with concurrent.futures.ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        list(ex.map(one, [f for f in FLAVOURS if f not in further] + further))
    for so in ("shim", "asked", "clock"):
        build_shim(so)
    log("setup took %.0f s" % (time.time() - start))
    return 0

def main(args):
    if len(args) == 2 and args[0] == "--replay":
        return replay(args[1])
    if args == ["--setup"]:
        return setup()
    if len(args) != 1:
        print(__doc__)
        return 2
    return check(args[0])
