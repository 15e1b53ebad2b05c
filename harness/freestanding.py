"""C23: the library in programs that have neither std nor alloc nor an operating system."""
from common import *

STACK = 64 << 10

def linked(prop, flavour):
    try:
        return build(flavour)
    except Inconclusive as e:
        # the library may be at fault if the same program without it can be built, and so can an ordinary one with it
        build("bare-host")
        build("bare-control")
        violate(prop, "a program for %s cannot be built with the library, though it can without it" % flavour[5:],
                flavour=flavour, log=str(e)[-3000:])

def c23(prop, tier, seed, totals):
    per = 2500 if tier == "quick" else 12000
    exe = linked(prop, "bare-x86_64")
    host = build("bare-host")
    jobs = []
    for i in range(CPUS):
        e = env()
        jobs.append((seed * 1000 + i, subprocess.Popen([exe, str(seed * 1000 + i), str(per)], env=e, stdout=subprocess.PIPE, start_new_session=True)))
    compared, distinct, deepest, shown = 0, set(), 0, []
    try:
        for s, p in jobs:
            try:
                out = p.communicate(timeout=240 if tier == "quick" else 800)[0].decode()
            except subprocess.TimeoutExpired:
                raise Inconclusive("the freestanding program did not end")
            code, want, err = run([host, str(s), str(per)], timeout=200)
            if code != 0:
                raise Inconclusive("the ordinary program ended with %d: %s" % (code, err[-300:]))
            got, want = out.splitlines(), want.splitlines()
            how = dict(flavour="bare-x86_64", command=[exe, str(s), str(per)])
            if p.returncode != 0 or not got or not got[-1].startswith("stack "):
                if p.returncode == -9:
                    raise Inconclusive("the freestanding program was killed")
                violate(prop, "the freestanding program ends with %d after %d jobs, the ordinary one with 0" % (p.returncode, len(got)), **how)
            for i, (a, b) in enumerate(zip(got[:-1] + [""] * len(want), want)):
                if a[:16] != b[:16]:
                    raise Inconclusive("the job lists differ")
                if a != b:
                    violate(prop, "job %d of seed %d gives %s in a freestanding program, %s in an ordinary one" % (i, s, a[17:], b[17:]), job=i, **how)
                distinct.add(b)
            compared += len(want)
            deepest = max(deepest, int(got[-1].split()[1], 16))
            shown = shown or want[:3]
    finally:
        for _, p in jobs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
    if deepest > STACK:
        violate(prop, "a call uses %d bytes of stack, more than %d" % (deepest, STACK), flavour="bare-x86_64")
    totals.add("freestanding process on x86_64-unknown-none (core alone, soft floats), compared with an ordinary one", compared, len(distinct), shown,
               deepest_stack_bytes=deepest, processes=len(jobs))
    for flavour in ("bare-thumbv7em", "bare-riscv32"):
        exe = linked(prop, flavour)
        totals.add("linked, not run: " + flavour[5:], 0, 0, [], bytes=os.path.getsize(exe))
    return "library calls on blocks and images of up to 2^18 pixels; distinct by inputs and result; all are non-trivial", None
