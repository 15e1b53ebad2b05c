"""C32: what runs that end early leave behind."""
import resource, signal
from common import *
from cli import *

class Task:
    """A command, its input, and what it makes of it when left alone"""
    def __init__(self, world, rng, ext, data, command, base):
        self.ext, self.data, self.command = ext, data, command
        self.name = base + "." + ext
        d = world.fresh()
        with open(os.path.join(d, self.name), "wb") as f:
            f.write(data)
        start = time.time()
        r = world.texpresso(command + ["-o", "result", self.name], d, rng)
        self.seconds = time.time() - start
        if r.code != 0 or not os.path.exists(os.path.join(d, "result")):
            raise Bad("a valid %s input is refused (status %d): %s" % (ext, r.code, r.err[:200]))
        self.good = open(os.path.join(d, "result"), "rb").read()
        judge_output(world, ext, data, command, self.good)
        self.makes = "png" if command[0] == "decompress" else "dds"

    def args(self, out):
        return self.command + ["-o", out, self.name]

def task(world, rng, base):
    kind = rng.choice(["png", "jpg", "dds", "dds"])
    small = rng.random() < 0.5
    w, h = (rng.randint(1, 14), rng.randint(1, 14)) if small else (rng.randint(60, 130), rng.randint(60, 130))
    command = ["compress", "-f", rng.choice(FORMATS), "-p", "speed"]
    if kind == "dds":
        fmt = rng.choice(FORMATS)
        payload = bytes(rng.getrandbits(8) for _ in range(payload_size(fmt, w, h)))
        return Task(world, rng, "dds", dds(fmt, w, h, payload, legacy=fmt in FOURCC and rng.random() < 0.3), ["decompress"], base)
    if kind == "jpg":
        return Task(world, rng, "jpg", random_jpeg(rng, w, h), command, base)
    px = bytes(rng.getrandbits(8) for _ in range(4 * w))
    rows = [[(v + y) & 255 for v in px] for y in range(h)]
    return Task(world, rng, "png", Png(w, h, 6, 8, rows).encode(rng, interlace=False, level=0), command, base)

def same_result(makes, data, good):
    """Whether a file holds all of the right result, perhaps without its end mark"""
    if data == good:
        return True
    try:
        if makes == "dds":
            return understood_dds(data) == understood_dds(good)
        return read_png(data) == read_png(good)
    except (ValueError, zlib.error, struct.error, IndexError):
        return False

def passes(world, makes, data, rng, right):
    """What a leftover passes for: the way in which someone may take it for a result, or None"""
    if makes == "dds":
        if understood_dds(data):
            return "a complete DDS file"
    else:
        try:
            read_png(data)
            return "a complete PNG file"
        except (ValueError, zlib.error, struct.error, IndexError):
            pass
    # and by the commands themselves
    d = os.path.join(world.dir, "again")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    command = ["decompress"] if makes == "dds" else ["compress", "-f", "bc3", "-p", "speed"]
    outs = []
    for name, content in (("left", data), ("right", right)):
        with open(os.path.join(d, name + "." + makes), "wb") as f:
            f.write(content)
        r = world.texpresso(command + ["-o", name + ".out", name + "." + makes], d, rng)
        outs.append(None if r.code else open(os.path.join(d, name + ".out"), "rb").read())
        if outs[0] is None:
            return None
    # all the image is there, though the file ends early
    return None if outs[0] == outs[1] else "a valid input of '%s'" % command[0]

SIGNALS = [signal.SIGKILL, signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGALRM, signal.SIGXCPU, signal.SIGABRT]

def go(world, args, d, rng, env_more=None, pre=None, meanwhile=None):
    """Runs a command; `meanwhile` may act on the process"""
    e = env(env_more)
    e.pop("RUST_BACKTRACE", None)
    e["RAYON_NUM_THREADS"] = str(rng.choice([1, 2, 4, 8]))
    world.last.append(args)
    world.runs += 1
    with open(os.path.join(world.dir, "err"), "wb") as err:
        p = subprocess.Popen([world.exes[0] if rng.random() < 0.8 else world.exes[-1]] + args, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=pre)
    if meanwhile:
        meanwhile(p)
    try:
        return p.wait(120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Inconclusive("a run did not end within two minutes")

def steps_of(world, t, d, rng):
    """How many steps of a run change files"""
    log = os.path.join(world.dir, "log")
    if os.path.exists(log):
        os.remove(log)
    code = go(world, t.args("steps"), d, rng, dict(LD_PRELOAD=world.shim, SHIM_IN=t.name, SHIM_PLAN="", SHIM_LOG=log))
    try:
        steps = [int(x) for x in open(log).read().split()][5]
    except (OSError, ValueError, IndexError):
        raise Inconclusive("the interposed library is not in effect")
    if code != 0:
        raise Bad("fails with status %d when nothing disturbs it" % code)
    os.remove(os.path.join(d, "steps"))
    return steps

def one_end(world, rng, t, d, out, how, at):
    """One run that ends early, or does not; its status"""
    log = os.path.join(world.dir, "log")
    if how in ("killed before a step", "killed after a step"):
        return go(world, t.args(out), d, rng, dict(LD_PRELOAD=world.shim, SHIM_IN=t.name, SHIM_PLAN="%s:%d" % ("k" if "before" in how else "K", at), SHIM_LOG=log))
    if how == "a write refused":
        return go(world, t.args(out), d, rng, dict(LD_PRELOAD=world.shim, SHIM_IN=t.name, SHIM_PLAN="%s:%d:%d" % (rng.choice("wWp"), at, rng.choice([errno.ENOSPC, errno.EIO])), SHIM_LOG=log))
    if how == "a signal":
        s, delay = rng.choice(SIGNALS), rng.random() * t.seconds * 1.2
        def kill(p):
            time.sleep(delay)
            if p.poll() is None:
                p.send_signal(s)
        return go(world, t.args(out), d, rng, meanwhile=kill)
    if how == "a signal once the output is there":
        s, path = rng.choice(SIGNALS), os.path.join(d, out)
        before = os.stat(path) if os.path.exists(path) else None
        def watch(p):
            while p.poll() is None:
                try:
                    now = os.stat(path)
                    if before is None or (now.st_size, now.st_mtime_ns, now.st_ino) != (before.st_size, before.st_mtime_ns, before.st_ino):
                        p.send_signal(s)
                        return
                except FileNotFoundError:
                    pass
        return go(world, t.args(out), d, rng, meanwhile=watch)
    if how == "a limit of file size":
        return go(world, t.args(out), d, rng, pre=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (at, at)))
    if how == "a limit of memory":
        return go(world, t.args(out), d, rng, pre=lambda: resource.setrlimit(resource.RLIMIT_AS, (at, at)))
    if how == "a limit of CPU time":
        return go(world, t.args(out), d, rng, pre=lambda: resource.setrlimit(resource.RLIMIT_CPU, (0, 0)))
    if how == "stopped and continued":
        def stop(p):
            for _ in range(rng.randint(1, 3)):
                time.sleep(rng.random() * t.seconds * 0.6)
                p.send_signal(signal.SIGSTOP)
                time.sleep(0.005)
                p.send_signal(rng.choice([signal.SIGWINCH, signal.SIGURG, signal.SIGCHLD]))
                p.send_signal(signal.SIGCONT)
        return go(world, t.args(out), d, rng, meanwhile=stop)
    raise AssertionError(how)

def c32(world, rng):
    tasks = [task(world, rng, "in")]
    if rng.random() < 0.4:
        tasks.append(task(world, rng, "other"))
    if rng.random() < 0.08:
        return closed_pipe(world, rng, tasks[0])
    d = world.fresh()
    out = "out"
    path = os.path.join(d, out)
    for t in tasks:
        with open(os.path.join(d, t.name), "wb") as f:
            f.write(t.data)
    bystander = rng.choice(["in.dds", "in.png", "out.tmp", ".out.tmp", "out~", "out.part", "bystander"])
    if not os.path.exists(os.path.join(d, bystander)):
        with open(os.path.join(d, bystander), "wb") as f:
            f.write(b"not theirs")
    watched = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
    # (contents, what they are): all that may be found under the output's name without being judged
    k = rng.random()
    if k < 0.3:
        known = None
    else:
        known = (bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 5000]))) if k < 0.5 else
                 # one like the result, but for its picture: a mixture of both is no result
                 tasks[0].good[:148] + bytes(255 - b for b in tasks[0].good[148:]) + bytes(rng.choice([0, 100])) if k < 0.8 and tasks[0].makes == "dds" else
                 tasks[-1].good)
        with open(path, "wb") as f:
            f.write(known)
    steps = {t.name: steps_of(world, t, d, rng) for t in tasks}
    points = {t.name: ([(h, i) for h in ("killed before a step", "killed after a step") for i in range(1, steps[t.name] + 1)]
                       + [("a write refused", i) for i in range(1, steps[t.name] + 1)]) for t in tasks}
    for p in points.values():
        rng.shuffle(p)
    tried = 0
    for _ in range(70):
        t = rng.choice(tasks)
        k = rng.random()
        if k < 0.55 and points[t.name]:
            how, at = points[t.name].pop()
        else:
            how, at = rng.choice([("a signal", 0), ("a signal", 0), ("a signal once the output is there", 0), ("a signal once the output is there", 0), ("a limit of file size", rng.randint(0, len(t.good) + 10)),
                                  ("a limit of memory", rng.choice([2, 4, 6, 8, 12, 20, 40]) << 20), ("stopped and continued", 0), ("a limit of CPU time", 0)])
        code = one_end(world, rng, t, d, out, how, at)
        what = "%s from %s of %d bytes, %s%s, status %d" % (t.command[0], t.ext, len(t.data), how, " (%d of %d)" % (at, steps[t.name]) if at else "", code)
        for n, content in watched.items():
            p = os.path.join(d, n)
            if not os.path.exists(p) or open(p, "rb").read() != content:
                raise Bad("%s: the file %r was %s" % (what, n, "changed" if os.path.exists(p) else "removed"))
        left = open(path, "rb").read() if os.path.exists(path) else None
        if code == 0:
            if left != t.good:
                raise Bad("%s: reports success, but the output is not what it should be" % what)
            known = left
            world.seen(how + ": completed")
        else:
            if how in ("stopped and continued",):
                raise Bad("%s: no run should fail for that" % what)
            world.seen(how + ": ended early")
            tried += 1
            if left is not None and left != known:
                if not same_result(t.makes, left, t.good):
                    taken = passes(world, t.makes, left, rng, t.good)
                    if taken:
                        raise Bad("%s: what is left passes for %s" % (what, taken))
                    world.seen("left: a part of the output")
                else:
                    world.seen("left: all of the output")
                known = left
            elif left is None:
                known = None
                world.seen("left: no output")
            else:
                world.seen("left: what was there before")
        if rng.random() < 0.25:
            t = rng.choice(tasks)
            code = go(world, t.args(out), d, rng)
            left = open(path, "rb").read() if os.path.exists(path) else None
            if code != 0 or left != t.good:
                raise Bad("%s: run again undisturbed, %s (status %d)" % (what, "it fails" if code else "the output is not right", code))
            known = left
            world.seen("run again")
            if rng.random() < 0.5:
                os.remove(path)
                known = None
    return "%s from %s of %d bytes, %d steps, %d early ends" % (tasks[0].command[0], tasks[0].ext, len(tasks[0].data), steps[tasks[0].name], tried)

def closed_pipe(world, rng, t):
    """The output is a pipe whose reader goes away"""
    w, h = rng.randint(200, 300), rng.randint(200, 300)
    fmt = rng.choice(FORMATS)
    # random data stay as long as they are
    data = dds(fmt, w, h, bytes(rng.getrandbits(8) for _ in range(payload_size(fmt, w, h))))
    d = world.fresh()
    with open(os.path.join(d, "in.dds"), "wb") as f:
        f.write(data)
    fifo = os.path.join(d, "pipe")
    os.mkfifo(fifo)
    n = rng.choice([0, 1, 100, 5000])
    got = []
    def read():
        with open(fifo, "rb", buffering=0) as f:
            while sum(map(len, got)) < n:
                x = f.read(n - sum(map(len, got)))
                if not x:
                    return
                got.append(x)
    reader = threading.Thread(target=read, daemon=True)
    reader.start()
    code = go(world, ["decompress", "-o", "pipe", "in.dds"], d, rng)
    if os.path.lexists(fifo) and not stat.S_ISFIFO(os.lstat(fifo).st_mode):
        # replaced by a file; the reader waits for a writer
        os.remove(fifo)
        return "pipe replaced"
    while reader.is_alive():
        try:
            os.close(os.open(fifo, os.O_WRONLY | os.O_NONBLOCK))
        except OSError:
            pass
        reader.join(0.02)
    if code == 0:
        good = go(world, ["decompress", "-o", "out", "in.dds"], d, rng)
        size = os.path.getsize(os.path.join(d, "out"))
        if size > n + (2 << 16):
            raise Bad("reports success, although no more than %d of %d bytes can have been written to a pipe closed at its other end" % (n + (1 << 16), size))
    world.seen("a pipe closed by its reader: " + ("completed" if code == 0 else "ended early"))
    return "%s %dx%d to a pipe closed after %d bytes: status %d" % (fmt, w, h, n, code)

CASES["C32"] = c32
SECONDS["C32"] = 30
RULES["C32"] = ("runs of both commands that end early: killed before and after every step that changes files, by signals at other moments, by limits, or by refused writes, "
                "one after another over what earlier ones left, with undisturbed runs between; distinct by command and input; all are non-trivial")
