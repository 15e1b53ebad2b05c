"""C27 and C28: what the commands depend on besides their input and options, and what they cost."""
import contextlib, fcntl, resource, termios
from common import *
from cli import *

NOBODY = 65534
LIMIT = 150

class Job:
    """A run to make: arguments, the file it reads, the file it writes, and what that has to hold (None: it has to refuse)"""
    def __init__(self, args, source, out, judge):
        self.args, self.source, self.out, self.judge = args, source, out, judge

def job(world, rng, d, name, absolute=False, default=True, failing=0.2):
    """An input under that name in d, and a command for it"""
    kind = rng.choice(["png", "png", "jpg", "dds", "dds"])
    w, h = dims(rng, 900)
    if kind == "dds":
        fmt, _, _, data = random_dds(rng, w, h)
        command = ["decompress"]
        payload = understood_dds(data)[3]
        want = world.lib.decompress(fmt, w, h, payload)
        judge = lambda got: judge_png(got, w, h, want)
    else:
        if kind == "jpg":
            data = random_jpeg(rng, w, h)
            rgba = world.lib.jpeg(data)[2]
        else:
            png = random_png(rng, w, h, *rng.choice([(6, 8), (2, 8), (3, 8), (4, 16)]))
            data, rgba = png.encode(rng, interlace=rng.random() < 0.2), png.rgba()
        fmt, profile, by_alpha = rng.choice(FORMATS), rng.choice(PROFILES), rng.random() < 0.3
        command = ["compress", "-f", fmt, "-p", profile] + (["--weigh-colour-by-alpha"] if by_alpha else [])
        want = world.lib.compress(fmt, profile, None, by_alpha, w, h, rgba)
        judge = lambda got: judge_dds(got, fmt, w, h, want)
    if rng.random() < failing:
        judge = None
        how = rng.random()
        if how < 0.5:
            data = data[:rng.randint(0, min(len(data) // 2, 100))]
        elif how < 0.75:
            command = command + ["--nonsense"]
        else:
            data = b"no image at all"
    ext = "png" if command[0] == "decompress" else "dds"
    source = name + "." + kind
    with open(os.path.join(d, source), "wb") as f:
        f.write(data)
    at = lambda p: os.path.join(d, p) if absolute else p
    if default and not absolute and rng.random() < 0.3:
        out, how = name + "." + ext, []
    else:
        out = name + ".out"
        how = ["-o", at(out)]
    if rng.random() < 0.3:
        with open(os.path.join(d, out), "wb") as f:
            f.write(bytes(rng.choice([0, 3, 20000])))
    return Job(command + how + [at(source)], source, out, judge)

def streams(*closed):
    def go():
        for fd in closed:
            os.close(fd)
    return go

def limited(what, n):
    return lambda: resource.setrlimit(what, (n, n))

def become_nobody():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)

def lost():
    """Into a directory that is gone"""
    d = tempfile.mkdtemp(prefix="verif-gone-")
    os.chdir(d)
    os.rmdir(d)

ANSWERS = [b"n\n", b"N\n", b"no\n", b"q\n", b"\x03", b"\n", b"0\n", b"y\n", b"bc5\n", b"quality\n"]

class Terminal:
    """A terminal of the run's own, at which somebody types, and which takes everything that is written"""
    def __init__(self, rng):
        self.outer, self.inner = os.openpty()
        which = rng.choice([(0, 1, 2), (0, 1, 2), (0,), (1,), (2,), (1, 2)])
        self.kw = {("stdin", "stdout", "stderr")[i]: self.inner for i in which}
        controls = rng.random() < 0.5
        def own():
            os.setsid()
            fcntl.ioctl(self.inner, termios.TIOCSCTTY, 0)
        if controls:
            self.kw["preexec_fn"] = own
        try:
            fcntl.ioctl(self.inner, termios.TIOCSWINSZ, struct.pack("HHHH", *rng.choice([(24, 80), (1, 1), (0, 0), (500, 1000)]), 0, 0))
        except OSError:
            pass
        os.write(self.outer, rng.choice([x for x in ANSWERS if x != b"\x03"]) * 3)
        self.reader = threading.Thread(target=self.drain, daemon=True)
        self.reader.start()

    def drain(self):
        with contextlib.suppress(OSError):
            while os.read(self.outer, 4096):
                pass

    def close(self):
        os.close(self.inner)
        self.reader.join(5)
        os.close(self.outer)

def variation(world, rng):
    """(what it is, environment changes or None for an empty one, Popen arguments, whether paths have to be absolute)"""
    k = rng.choice(["empty environment", "locale and time zone", "threads", "terminal", "rust variables", "no home", "closed streams", "full streams",
                    "endless input", "umask", "few descriptors", "another user", "one processor", "gone directory", "odd program name", "open descriptors",
                    "ignored signals", "answers", "at a terminal", "at a terminal", "variables asked for", "variables asked for", "traced", "traced"])
    e, kw, absolute = {}, {}, False
    if k == "empty environment":
        e = None
    elif k == "locale and time zone":
        e = dict(LANG=rng.choice(["tr_TR.UTF-8", "C", "de_DE.ISO-8859-1"]), LC_ALL=rng.choice(["xx", "C.UTF-8", "fa_IR"]), LC_NUMERIC="de_DE", TZ=rng.choice(["Pacific/Kiritimati", "rubbish", ""]), LANGUAGE="tr")
    elif k == "threads":
        e = dict(RAYON_NUM_THREADS=rng.choice(["1", "3", "40", "0", "many", "-1"]))
    elif k == "terminal":
        e = dict(TERM=rng.choice(["dumb", "", "xterm-256color"]), COLUMNS=rng.choice(["3", "0", "x"]), NO_COLOR="1", CLICOLOR_FORCE="1", PAGER="false", EDITOR="false")
    elif k == "rust variables":
        e = dict(RUST_BACKTRACE=rng.choice(["full", "1", "0", "x"]), RUST_LOG="trace", RUST_MIN_STACK=str(rng.choice([4 << 20, 64 << 20])), CARGO_MANIFEST_DIR="/nonexistent", TEXPRESSO_FORMAT="bc5", TEXPRESSO_PROFILE="quality", TEXPRESSO_WEIGHTS="0")
    elif k == "variables asked for":
        values = ["", "0", "1", "2", "true", "false", "yes", "no", "off", "bc5", "BC1", "speed", "quality", "0.5", "fast", "/nonexistent", "tmp", "x", "9999999"]
        e = {n: rng.choice(values) for n in world.asked() if rng.random() < 0.8}
    elif k == "no home":
        e = dict(HOME="/nonexistent", TMPDIR="/nonexistent", XDG_CONFIG_HOME="/nonexistent", XDG_CACHE_HOME="/nonexistent", USER="", PATH="")
    elif k == "closed streams":
        which = rng.choice([(0,), (1,), (2,), (0, 1, 2), (1, 2)])
        k, kw = "closed streams %s" % (which,), dict(preexec_fn=streams(*which))
    elif k == "full streams":
        full = open("/dev/full", "wb")
        kw = dict(stdout=full, stderr=full)
    elif k == "endless input":
        kw = dict(stdin=open("/dev/zero", "rb"))
    elif k == "answers":
        # what a question whether to go on may be answered with
        with tempfile.TemporaryFile() as f:
            f.write(rng.choice(ANSWERS) * rng.choice([1, 3]))
            f.seek(0)
            kw = dict(stdin=os.fdopen(os.dup(f.fileno()), "rb"))
    elif k == "at a terminal":
        try:
            terminal = Terminal(rng)
        except OSError:
            return "plain", {}, {}, False
        kw, e = dict(terminal.kw, terminal=terminal), dict(TERM=rng.choice(["xterm", "dumb"]))
    elif k == "umask":
        mask = rng.choice([0, 0o77, 0o177])
        kw = dict(preexec_fn=lambda: os.umask(mask))
    elif k == "few descriptors":
        kw = dict(preexec_fn=limited(resource.RLIMIT_NOFILE, 12))
    elif k == "another user":
        if os.getuid() != 0 or not world.nobody():
            return "plain", {}, {}, False
        kw = dict(preexec_fn=become_nobody)
    elif k == "one processor":
        cpus = sorted(os.sched_getaffinity(0))
        kw = dict(preexec_fn=lambda: os.sched_setaffinity(0, {cpus[0]}))
    elif k == "gone directory":
        absolute, kw = True, dict(preexec_fn=lost)
    elif k == "odd program name":
        kw = dict(executable=None)
    elif k == "open descriptors":
        kw = dict(close_fds=False)
    elif k == "ignored signals":
        def ignore():
            for s in (signal.SIGPIPE, signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGCHLD):
                signal.signal(s, signal.SIG_IGN)
            signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR1, signal.SIGALRM, signal.SIGXFSZ])
        kw = dict(preexec_fn=ignore)
    return k, e, kw, absolute

class Isolated(World):
    def fresh(self):
        d = super().fresh()
        os.chmod(self.dir, 0o755)
        os.chmod(d, 0o777)
        for x in ("home", "tmp"):
            os.mkdir(os.path.join(self.dir, x))
            os.chmod(os.path.join(self.dir, x), 0o777)
        return d

    _nobody = None
    def nobody(self):
        """Whether programs can be run as another user here"""
        if self._nobody is None:
            try:
                self._nobody = subprocess.call([self.exes[0], "--version"], cwd=self.dir, preexec_fn=become_nobody, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0
            except (OSError, subprocess.SubprocessError):
                self._nobody = False
        return self._nobody

    _asked = None
    def asked(self):
        """The environment variables that the commands ask for, as seen in a few runs"""
        if self._asked is None:
            log, names = os.path.join(self.dir, "asked"), set()
            so = build_shim("asked")
            rng = random.Random(1)
            d = tempfile.mkdtemp(dir=self.dir)
            for i in range(6):
                j = job(self, rng, d, "n%d" % i, failing=0.2)
                with open(os.path.join(self.dir, "err"), "wb") as err:
                    p = subprocess.Popen([self.exes[0]] + j.args, cwd=d, env=env(dict(LD_PRELOAD=so, ASKED=log)), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
                    self.finish(p)
            shutil.rmtree(d)
            with contextlib.suppress(OSError):
                names = set(open(log, errors="replace").read().split())
                os.remove(log)
            # those of the loader, the allocator and the threads (a million of them cannot be started) are not the commands' own
            self._asked = sorted(n for n in names if not n.startswith(("LD_", "GLIBC", "MALLOC", "SHIM", "ASKED", "RUST_MIN_STACK", "RAYON_")))
        for n in self._asked:
            self.seen("asks for variable " + n)
        return self._asked

    def start(self, args, cwd, changes={}, trace=None, rng=None, **kw):
        e = env()
        e.pop("RUST_BACKTRACE", None)
        e.update(HOME=os.path.join(self.dir, "home"), TMPDIR=os.path.join(self.dir, "tmp"))
        e.update(changes or {})
        if changes is None:
            e = {}
        exe = self.exes[0] if rng is None or rng.random() < 0.8 else self.exes[-1]
        self.last.append([os.fsdecode(a) for a in args])
        self.runs += 1
        command = ([] if trace is None else ["strace", "-ff", "-qq", "-v", "-s", "4096", "-e", "trace=%file,%network,%process,%desc", "-e", "signal=none", "-o", trace]) + [exe] + args
        if "executable" in kw:
            kw["executable"] = exe
            command[0] = "x"
        kw.pop("terminal", None)
        self.err = os.path.join(self.dir, "err%d" % self.runs)
        streams = dict(stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"))
        streams.update(kw)
        p = subprocess.Popen(command, cwd=cwd, env=e, **streams)
        p.said = self.err
        return p

    def finish(self, p):
        """Its exit status"""
        try:
            p.wait(LIMIT)
        except subprocess.TimeoutExpired:
            used = cpu(p.pid)
            p.kill()
            p.wait()
            if used > 60:
                raise Bad("used %d s of CPU time without finishing" % used)
            raise Inconclusive("the executable did not finish in time")
        if p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            raise Bad("died of signal %d" % -p.returncode)
        return p.returncode

    def settle(self, before, d, jobs, ended, what):
        """Judges finished runs in one directory"""
        after = listing(d)
        outs = {os.fsencode(j.out) for j in jobs}
        for j, p in zip(jobs, ended):
            with open(p.said, "rb") as f:
                said = f.read(300).decode("utf-8", "replace")
            o = os.fsencode(j.out)
            if j.judge is None:
                if p.returncode == 0:
                    raise Bad("%s: reports success for a faulty input" % what)
                if after.get(o) != before.get(o):
                    raise Bad("%s: fails, but the output was touched" % what)
            else:
                if p.returncode != 0:
                    raise Bad("%s: exit status %d: %s" % (what, p.returncode, said))
                if o not in after:
                    raise Bad("%s: no output" % what)
                try:
                    j.judge(after[o])
                except Bad as e:
                    raise Bad("%s: %s" % (what, e))
        for k in set(before) | set(after):
            if k not in outs and before.get(k) != after.get(k):
                raise Bad("%s: the file %r %s" % (what, k, "appeared" if k not in before else "vanished" if k not in after else "changed"))
        for x in ("home", "tmp"):
            left = os.listdir(os.path.join(self.dir, x))
            if left:
                raise Bad("%s: left %r in the %s directory" % (what, left[0], {"home": "home", "tmp": "temporary"}[x]))

CALL = re.compile(r"(\w+)\((.*)\)\s+= (-?\d+|\?)")
STRING = re.compile(r'"((?:[^"\\]|\\.)*)"')

def unquote(s):
    return os.fsdecode(s.encode("latin-1", "replace").decode("unicode_escape").encode("latin-1"))

def judge_trace(prefix, d, mine, job, before):
    """Which files, programs and sockets a run used, from its system calls"""
    source, out = os.path.join(d, job.source), os.path.join(d, job.out)
    events, executed = 0, 0
    for path in glob.glob(glob.escape(prefix) + ".*"):
        for line in open(path, encoding="latin-1"):
            m = CALL.match(line)
            if not m:
                continue
            call, rest = m.group(1), m.group(2)
            events += 1
            if call in ("read", "readv", "pread64", "preadv", "preadv2") and re.match(r"0\b", rest):
                raise Bad("the command reads its standard input")
            if call in ("open", "openat", "openat2", "access", "faccessat", "faccessat2", "stat", "lstat", "newfstatat", "statx", "readlink", "readlinkat"):
                for n in STRING.findall(rest)[:1]:
                    p = os.path.normpath(os.path.join(d, unquote(n)))
                    if n and p.startswith(mine + "/") and p not in (source, out) and not os.path.isdir(p) and not re.search("O_WRONLY|O_RDWR", rest):
                        raise Bad("the command looks for %r besides its input and output" % p)
            if m.group(3).startswith("-"):
                continue
            if call in ("execve", "execveat"):
                executed += 1
                if executed > 1:
                    raise Bad("the command runs another program: %s" % rest[:80])
            elif call in ("fork", "vfork") or (call in ("clone", "clone3") and "CLONE_THREAD" not in rest):
                raise Bad("the command starts another process")
            elif call in ("socket", "socketpair", "connect", "bind", "sendto", "sendmsg"):
                raise Bad("the command uses the network: %s(%s)" % (call, rest[:80]))
            elif call in ("open", "openat", "openat2", "creat"):
                names = STRING.findall(rest)
                if not names:
                    continue
                p = os.path.normpath(os.path.join(d, unquote(names[0])))
                writes = call == "creat" or re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC", rest)
                inside = p.startswith(mine + "/")
                if writes and p != out and p not in ("/dev/null", "/dev/tty") and (not inside or os.fsencode(os.path.relpath(p, d)) in before):
                    raise Bad("the command opens %r for writing" % p)
                if not writes and inside and p not in (source, out) and not os.path.isdir(p) and os.fsencode(os.path.relpath(p, d)) in before:
                    raise Bad("the command reads %r besides its input" % p)
            elif call.startswith(("unlink", "rename", "rmdir", "truncate", "chmod", "fchmodat", "chown", "lchown", "fchownat", "link", "symlink", "utime", "futimes", "mknod")):
                for n in STRING.findall(rest):
                    p = os.path.normpath(os.path.join(d, unquote(n)))
                    if p != out and (not p.startswith(mine + "/") or os.fsencode(os.path.relpath(p, d)) in before):
                        raise Bad("the command changes %r: %s" % (p, call))
    return events

def bystanders(rng, d):
    """Other files beside the input, with names that something might take for its own"""
    for name in rng.sample(["texpresso.toml", ".texpresso", "out", "out.tmp", "a.png~", "a.dds.tmp", "config", "core", "a.bak", ".env", "Cargo.toml", "output.dds", "output.png"], 4):
        with open(os.path.join(d, name), "wb") as f:
            f.write(b'format = "bc5"\nprofile = "speed"\n' if rng.random() < 0.5 else bytes(100))

def again(world, rng, d):
    """Earlier runs and what they left do not matter: over an output that is wrong but of the right size, or over that of another image, and in any order of modification times"""
    args = None
    for i in range(rng.randint(2, 4)):
        j = job(world, random.Random(rng.getrandbits(32)) if i == 0 or rng.random() < 0.5 else rng, d, "a", failing=0)
        out = os.path.join(d, j.out)
        before = listing(d)
        p = world.start(j.args, d, rng=rng)
        world.finish(p)
        world.settle(before, d, [j], [p], "run %d in the same directory" % (i + 1))
        # now the same size with other contents
        with open(out, "r+b") as f:
            good = f.read()
            f.seek(rng.choice([0, 0, len(good) // 2, len(good) - 9]))
            f.write(bytes(9))
        for name in (j.out, j.source):
            if rng.random() < 0.7:
                t = rng.choice([0, 10 ** 9, 1.7e9, time.time() - 5, time.time(), time.time() + 5, 4e9])
                os.utime(os.path.join(d, name), (t, t))
        before = listing(d)
        p = world.start(j.args, d, rng=rng)
        world.finish(p)
        world.settle(before, d, [j], [p], "run again over an output of the right size")
        args = j.args
    world.seen("run again")
    return "run again: " + " ".join(args)

def elsewhere(world, rng, d):
    """The same file under other names, in other places, of other times, at another time of day: the same bytes, every one"""
    j = job(world, rng, d, "a", failing=0)
    before = listing(d)
    p = world.start(j.args, d, rng=rng)
    world.finish(p)
    world.settle(before, d, [j], [p], "run for comparison")
    want = listing(d)[os.fsencode(j.out)]
    ext = os.path.splitext(j.source)[1]
    for i in range(3):
        there = tempfile.mkdtemp(prefix=rng.choice(["x", "out of the way ", "\u00e4.d", "a" * 90]), dir=d)
        os.chmod(there, 0o777)
        name = rng.choice(["b", "long" * 20, "A", "\u00fc", "..a", "a.b.c", "9"])
        source, out = name + ext, rng.choice(["o", "b.png.dds", "second", "\u00df.out"])
        shutil.copyfile(os.path.join(d, j.source), os.path.join(there, source))
        t = rng.choice([0, 1, 86400 * 365, 10 ** 9, 1.7e9, time.time() + 10 ** 6, 4e9])
        os.utime(os.path.join(there, source), (t, t))
        os.chmod(os.path.join(there, source), rng.choice([0o444, 0o644, 0o777]))
        if rng.random() < 0.3:
            os.rename(os.path.join(there, source), os.path.join(there, "real"))
            os.symlink("real", os.path.join(there, source))
        args = list(j.args[:-1])
        if "-o" in args:
            args = args[:args.index("-o")]
        args += ["-o", out, source]
        changes = {}
        if rng.random() < 0.8:
            changes = dict(LD_PRELOAD=build_shim("clock"), CLOCK_SHIFT=str(rng.choice([1, -1, 60, 3600, 86400, -86400, 86400 * 31, 10 ** 9, -10 ** 9, 86400 * 365 * 30])))
        k = Job(args, source, out, j.judge)
        before = listing(there)
        p = world.start(args, there, changes, rng=rng)
        world.finish(p)
        what = "the same input under other names and times"
        world.settle(before, there, [k], [p], what)
        got = listing(there)[os.fsencode(out)]
        if got != want:
            at = next((n for n, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Bad("%s (%s as %s, clock shifted by %s s): the output differs from byte %d on" % (what, source, out, changes.get("CLOCK_SHIFT", "0"), at))
    world.seen("other names, places and times")
    return "elsewhere: " + " ".join(args)

def c27(world, rng):
    world.__class__ = Isolated
    d = world.fresh()
    if rng.random() < 0.6:
        bystanders(rng, d)
    if rng.random() < 0.35:
        n = rng.randint(3, 8)
        same = rng.random() < 0.3
        jobs = [job(world, rng, d, "ab"[i % 2] * (1 + i // 2) if not same else "f%d" % i, default=i % 2 == 0, failing=0.1) for i in range(n)]
        # no two of them may have the same output, which is up to the names
        jobs = [j for i, j in enumerate(jobs) if j.out not in {k.out for k in jobs[:i]} and j.out not in {k.source for k in jobs}]
        before = listing(d)
        running = [world.start(j.args, d, rng=rng) for j in jobs]
        try:
            for p in running:
                world.finish(p)
        finally:
            for p in running:
                if p.returncode is None:
                    p.kill()
                    p.wait()
        world.settle(before, d, jobs, running, "one of %d runs at the same time" % len(jobs))
        world.seen("runs at the same time")
        return "%d at the same time: %s" % (len(jobs), " ; ".join(" ".join(j.args) for j in jobs))
    if rng.random() < 0.1:
        return again(world, rng, d)
    if rng.random() < 0.1:
        return elsewhere(world, rng, d)
    what, changes, kw, absolute = variation(world, rng)
    if what == "traced" and not shutil.which("strace"):
        what = "plain"
    j = job(world, rng, d, rng.choice(["a", "image", "x y"]), absolute)
    if what == "another user":
        for x in os.listdir(d):
            os.chmod(os.path.join(d, x), 0o666)
    if "umask" == what:
        with contextlib.suppress(OSError):
            os.remove(os.path.join(d, j.out))
    before = listing(d)
    trace = os.path.join(world.dir, "trace") if what == "traced" else None
    p = world.start(j.args, d, changes, trace, rng, **kw)
    world.finish(p)
    for x in kw.values():
        if hasattr(x, "close"):
            x.close()
    if trace and not glob.glob(glob.escape(trace) + ".*"):
        raise Inconclusive("strace does not work here: " + open(p.said).read(200))
    world.settle(before, d, [j], [p], what)
    if trace:
        n = judge_trace(trace, d, world.dir, j, before)
        world.seen("system calls seen", n)
        if n < 5:
            raise Inconclusive("the trace of a run is empty")
    world.seen(what + ("" if j.judge else ", refused"))
    return "%s: %s" % (what, " ".join(j.args))

# ---------------------------------------------------------------- C28

BASE, PER_PIXEL, FACTOR, SLACK = 64 << 20, 64, 10, 0.5

def measured(world, args, d, most=120):
    """Exit status, CPU seconds and peak memory of a run with a single thread, ended after that many seconds"""
    e = env()
    e.pop("RUST_BACKTRACE", None)
    e["RAYON_NUM_THREADS"] = "1"
    world.last.append(args)
    world.runs += 1
    with open(os.path.join(world.dir, "err"), "wb") as err:
        p = subprocess.Popen([world.exes[0]] + args, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_CPU, (most, most + 1)), resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))))
    _, status, used = os.wait4(p.pid, 0)
    p.returncode = os.waitstatus_to_exitcode(status)
    return p.returncode, used.ru_utime + used.ru_stime, used.ru_maxrss << 10

def own_memory():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss << 10

def shaped(rng, kind, w, h):
    """A file of that kind and size: made of few different lines, so that large ones take no time to make"""
    if kind == "dds":
        fmt = rng.choice(FORMATS)
        n = payload_size(fmt, w, h)
        some = bytes(rng.getrandbits(8) for _ in range(4096))
        return dds(fmt, w, h, (some * (n // 4096 + 1))[:n], legacy=fmt in FOURCC and rng.random() < 0.3)
    if kind == "png":
        ctype, depth = rng.choice([(0, 8), (2, 8), (3, 8), (4, 8), (6, 8), (2, 16), (0, 1), (3, 4)])
        bits = CHANNELS[ctype] * depth
        n = (w * bits + 7) // 8
        some = [bytes(rng.getrandbits(8) for _ in range(2048)) for _ in range(4)]
        lines = [(bytes([rng.choice([0, 1, 2, 4])]) + (s * (n // 2048 + 1))[:n]) for s in some]
        z = zlib.compressobj(1)
        body = b"".join(z.compress(lines[rng.randrange(4)] if n > 64 else lines[y & 3]) for y in range(h)) + z.flush()
        palette = chunk(b"PLTE", bytes(rng.getrandbits(8) for _ in range(3 << depth))) if ctype == 3 else b""
        return SIGNATURE + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0)) + palette + chunk(b"IDAT", body) + chunk(b"IEND", b"")
    return encode_jpeg(w, h, [(1, 1)] * rng.choice([1, 3]), lambda c, x, y: ((x * 7 + y * 3) % 100 - 50, {1 + x % 60: 9} if x % 3 == 0 else {}), q=8)

def c28(world, rng):
    d = world.fresh()
    kind = rng.choice(["png", "png", "dds", "dds", "jpg"])
    if rng.random() < 0.25 and kind != "jpg":
        return c28_claims(world, rng, d, kind)
    most = {"png": 1 << 17, "dds": 1 << 19, "jpg": 1 << 12}[kind]
    blocks = most >> rng.choice([0, 0, 1, 2, 4])
    across = min(rng.choice([1, 1, 2, 3, blocks, blocks, blocks // 2, blocks // 3]), 16383 if kind == "jpg" else 1 << 19)
    w, h = 4 * across - rng.choice([0, 1, 2, 3]), 4 * min(-(-blocks // across), 16383 if kind == "jpg" else 1 << 19) - rng.choice([0, 1, 2, 3])
    if kind == "jpg":
        # made of units of 8x8
        w, h = w + 7 & -8, h + 7 & -8
    blocks = -(-w // 4) * -(-h // 4)
    side = max(4, 4 * round(blocks ** 0.5))
    state = rng.getstate()
    command = ["decompress"] if kind == "dds" else ["compress", "-f", rng.choice(FORMATS), "-p", "speed"]
    seed = rng.getrandbits(32)
    for name, size in (("shape", (w, h)), ("square", (side, side))):
        with open(os.path.join(d, name + "." + kind), "wb") as f:
            f.write(shaped(random.Random(seed), kind, *size))
    def go(name, pixels, most):
        code, seconds, memory = measured(world, command + ["-o", "out", name + "." + kind], d, most)
        what = "%s of %s (%s)" % (kind, "%dx%d" % ((w, h) if name == "shape" else (side, side)), " ".join(command))
        if code in (-signal.SIGXCPU, -signal.SIGKILL) and seconds > most - 0.5:
            return seconds
        if code != 0:
            raise Bad("%s fails with status %d: %s" % (what, code, open(os.path.join(world.dir, "err"), errors="replace").read()[:200]))
        allowed = BASE + PER_PIXEL * pixels + own_memory()
        if memory > allowed:
            raise Bad("%s takes %d MiB of memory, more than %d" % (what, memory >> 20, allowed >> 20))
        return seconds
    # one that takes far too long is not waited for
    square = [go("square", side * side, 120)]
    allowed = lambda: FACTOR * sorted(square)[len(square) // 2] + SLACK
    shape = [go("shape", 16 * blocks, int(2 * allowed()) + 2)]
    while min(shape) > allowed() or max(square) > 100:
        if len(shape) >= 6 or max(square) > 100:
            raise Bad("%s of %dx%d takes %.2f s, one of %dx%d takes %.2f s" % (kind, w, h, min(shape), side, side, sorted(square)[len(square) // 2]))
        square.append(go("square", side * side, 120))
        shape.append(go("shape", 16 * blocks, int(2 * allowed()) + 2))
    world.seen("%s %s" % (kind, "wide" if w > 16 * h else "high" if h > 16 * w else "other shapes"))
    return "%s %dx%d: %.3f s, square %.3f s" % (kind, w, h, shape[0], square[0])

def c28_claims(world, rng, d, kind):
    """A header that promises more than the file holds"""
    w, h = rng.choice([(60000, 60000), (1 << 20, 1 << 10), (7, 1 << 28), (1 << 28, 7), (1 << 31, 1 << 31), ((1 << 31) - 1, 3), (30000, 20000)])
    some = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 100, 100000])))
    if kind == "dds":
        data, command = dds(rng.choice(FORMATS), w, h, some), ["decompress"]
    else:
        w, h = min(w, (1 << 31) - 1), min(h, (1 << 31) - 1)
        data = SIGNATURE + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, rng.choice([0, 2, 6]), 0, 0, 0)) + chunk(b"IDAT", zlib.compress(some)) + chunk(b"IEND", b"")
        command = ["compress", "-f", rng.choice(FORMATS)]
    with open(os.path.join(d, "in." + kind), "wb") as f:
        f.write(data)
    worst = None
    for _ in range(5):
        code, seconds, memory = measured(world, command + ["-o", "out", "in." + kind], d)
        what = "%s of %d bytes whose header says %dx%d" % (kind, len(data), w, h)
        if code == 0:
            raise Bad("%s: reports success" % what)
        if memory > BASE + own_memory():
            raise Bad("%s: refused with %d MiB of memory" % (what, memory >> 20))
        if seconds < 2:
            world.seen(kind + " that promises too much")
            return what
    raise Bad("%s: refused after %.1f s" % (what, seconds))

CASES.update({"C27": c27, "C28": c28})
SECONDS.update({"C27": 25, "C28": 25})
RULES.update({
    "C27": "runs of both commands under unusual circumstances (environment, streams, limits, users, directories, other runs) and under a system call trace, with valid and faulty inputs; distinct by circumstance and command line; all are non-trivial",
    "C28": "runs of both commands on files of extreme shapes, each next to a square one of as many blocks, and on headers that promise more than the file holds; distinct by file and size; all are non-trivial",
})
