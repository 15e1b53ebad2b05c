"""C19-C22: the texpresso executable, end to end, judged by independent file formats and the library."""
import collections, errno, stat, multiprocessing, random, resource, threading
from common import *
import formats
from formats import *

FORMATS = list(BLOCK)
PROFILES = ["speed", "balanced", "quality"]

class Bad(Exception):
    """The property is violated."""

class Lib:
    """What the library (or the JPEG decoder) makes of something."""
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env())

    def ask(self, head, data):
        self.p.stdin.write(("%s %d\n" % (head, len(data))).encode() + data)
        self.p.stdin.flush()
        l = self.p.stdout.readline().split()
        if not l:
            raise Inconclusive("the oracle process ended at: " + head)
        if l[0] != b"ok":
            return None
        return self.p.stdout.read(int(l[1]))

    def compress(self, fmt, profile, weights, by_alpha, w, h, rgba):
        bits = "default 0 0" if weights is None else " ".join(str(struct.unpack("<I", struct.pack("<f", x))[0]) for x in weights)
        r = self.ask("c %s %s %s %d %d %d" % (fmt, profile, bits, by_alpha, w, h), rgba)
        if r is None:
            raise Inconclusive("the library panics on a %dx%d image" % (w, h))
        return r

    def decompress(self, fmt, w, h, data):
        r = self.ask("d %s %d %d" % (fmt, w, h), data)
        if r is None:
            raise Inconclusive("the library panics decompressing %s %dx%d" % (fmt, w, h))
        return r

    def jpeg(self, data):
        """Width, height and RGBA pixels, or None"""
        r = self.ask("j", data)
        if r is None:
            return None
        head, px = r.split(b"\n", 1)
        w, h, kind = head.split()
        if kind == b"L8":
            rgba = b"".join(px[i:i + 1] * 3 + b"\xff" for i in range(len(px)))
        elif kind == b"RGB24":
            rgba = b"".join(px[i:i + 3] + b"\xff" for i in range(0, len(px), 3))
        else:
            return None
        return int(w), int(h), rgba

    def close(self):
        self.p.stdin.close()
        self.p.wait()

class Run:
    def __init__(self, code, err):
        self.code, self.err = code, err

def cpu(pid):
    try:
        ticks = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(ticks[11]) + int(ticks[12])) / 100
    except OSError:
        return 0

class World:
    """One worker's executables, oracle and scratch directory."""
    def __init__(self, exes, oracle, shim, seen):
        self.exes, self.lib, self.shim, self.seen = exes, Lib(oracle), shim, seen
        self.dir = tempfile.mkdtemp(prefix="verif-cli-")
        self.n = 0
        self.runs = 0
        self.last = []

    def close(self):
        self.lib.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self):
        """An empty directory for one case"""
        for x in os.listdir(self.dir):
            p = os.path.join(self.dir, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        d = os.path.join(self.dir, "case")
        os.mkdir(d)
        self.last = []
        return d

    def texpresso(self, args, cwd, rng=None, shim=None, exe=None):
        e = env(shim)
        e.pop("RUST_BACKTRACE", None)
        if rng is not None:
            e["RAYON_NUM_THREADS"] = str(rng.choice([1, 2, 4, 8]))
        if exe is None:
            exe = self.exes[0] if rng is None or rng.random() < 0.8 else self.exes[-1]
        self.last.append([os.fsdecode(a) for a in args])
        self.runs += 1
        p = subprocess.Popen([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err, ended = b"", threading.Event()
        def watch():
            if not ended.wait(200):
                timeout.append(cpu(p.pid))
                p.kill()
        timeout = []
        t = threading.Thread(target=watch, daemon=True)
        t.start()
        while True:
            x = p.stderr.read1(1 << 16)
            if not x:
                break
            if len(err) < 4096:
                err += x
        p.stderr.close()
        p.wait()
        ended.set()
        if timeout:
            if timeout[0] > 60:
                raise Bad("used %d s of CPU time without finishing" % timeout[0])
            raise Inconclusive("the executable did not finish in time")
        if p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            raise Bad("died of signal %d" % -p.returncode)
        return Run(p.returncode, err.decode("utf-8", "replace"))

def listing(d):
    out = {}
    for base, dirs, names in os.walk(os.fsencode(d)):
        for n in names:
            p = os.path.join(base, n)
            kind = os.lstat(p).st_mode
            out[os.path.relpath(p, os.fsencode(d))] = (
                b"a pipe" if stat.S_ISFIFO(kind) else b"a broken link" if stat.S_ISLNK(kind) and not os.path.exists(p) else
                b"a device" if stat.S_ISCHR(os.stat(p).st_mode) else open(p, "rb").read())
    return out

# ---------------------------------------------------------------- generated inputs and options

def dims(rng, cap=1600):
    while True:
        k = rng.random()
        if k < 0.3:
            w, h = rng.randint(1, 9), rng.randint(1, 9)
        elif k < 0.75:
            w, h = rng.randint(1, 40), rng.randint(1, 40)
        elif k < 0.85:
            w, h = rng.randint(1, 4), rng.randint(40, 400)
        else:
            w, h = rng.randint(40, 400), rng.randint(1, 4)
        if w * h <= cap:
            return w, h

def numbers():
    """Sizes that occur in the sources under test, and the limits of integer types"""
    return [n for n in map(int, hints().split(",")) if 40 < n < 20000] + [256, 1024, 4096, 32768, 65536]

def far_dims(rng, most=65535 + 40):
    """Now and then: an image that is large in one direction or both"""
    k = rng.random()
    if k < 0.6:
        w, h = min(most, max(1, rng.choice(numbers()) + rng.randint(-5, 5))), rng.randint(1, 5)
        if w * h > 40000:
            h = rng.randint(1, 2)
    elif k < 0.7:
        w, h = min(most, 65536 + rng.randint(-5, 40)), rng.randint(1, 2)
    else:
        w, h = rng.randint(200, 520), rng.randint(100, 300)
    return (w, h) if rng.random() < 0.5 else (h, w)

def random_jpeg(rng, w, h, kind=None):
    kind = kind or rng.choice(["grey", "444", "420", "422", "440", "rgb"])
    sampling = {"grey": [(1, 1)], "420": [(2, 2), (1, 1), (1, 1)], "422": [(2, 1), (1, 1), (1, 1)], "440": [(1, 2), (1, 1), (1, 1)],
                "cmyk": [(1, 1)] * 4}.get(kind, [(1, 1)] * 3)
    flat = rng.random() < 0.4
    def blocks(c, x, y):
        return rng.randint(-110, 110), {} if flat or rng.random() < 0.4 else {rng.randint(1, 63): rng.randint(-25, 25) for _ in range(rng.randint(1, 6))}
    return encode_jpeg(w, h, sampling, blocks, progressive=rng if rng.random() < 0.35 else None, q=rng.choice([8, 8, 5, 16]), restart=rng.choice([0, 0, 1, 3]),
                       adobe=0 if kind in ("rgb", "cmyk") else rng.choice([None, None, 1]) if kind != "grey" else None, jfif=kind not in ("rgb", "cmyk"), ids=b"RGB" if kind == "rgb" else (1, 2, 3, 4))

def upper(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize(), "".join(rng.choice([c, c.upper()]) for c in s)])

NAMES = ["in", "a", "some image", "dotted.name.v2", "UPPER", "-dash", ".hidden", "\u00fcml\u00e4ut", "trailing.", "x.dds", "x.png"]

def place(rng, d, ext, data):
    """Writes the input somewhere; returns its file name argument and the stem of default output names."""
    name = rng.choice(NAMES) if rng.random() < 0.5 else "img%d" % rng.randrange(100)
    if rng.random() < 0.05:
        name = os.fsdecode(b"odd\xffname")
    file = name + "." + ext
    where = rng.choice(["", "", "sub", "deep/er"])
    if where:
        os.makedirs(os.path.join(d, where), exist_ok=True)
    rel = os.path.join(where, file)
    with open(os.path.join(d, rel), "wb") as f:
        f.write(data)
    arg = rng.choice([rel, rel, os.path.join(d, rel), "./" + rel])
    return rel, arg, name

def output_option(rng, d, default_stem, ext, taken):
    """Arguments naming the output, and where it has to appear"""
    k = rng.random()
    if k < 0.35:
        return [], default_stem + "." + ext
    rel = rng.choice(["out." + ext, "result", "o/out.bin", "o/x." + ext.upper(), "with space.x"])
    if rel == taken:
        rel = "out2"
    os.makedirs(os.path.join(d, "o"), exist_ok=True)
    arg = rel if rng.random() < 0.7 else os.path.join(d, rel)
    how = rng.choice([["-o", arg], ["--output", arg], ["--output=" + arg], ["-o" + arg]])
    return how, rel

def maybe_existing(rng, d, rel, size):
    """Sometimes the output exists already, longer or shorter than what will be written"""
    if rng.random() < 0.35:
        with open(os.path.join(d, rel), "wb") as f:
            f.write(bytes(rng.randrange(256) for _ in range(min(64, size))) * (1 + rng.choice([0, 3, size // 16])))
        return True
    return False

def options(rng):
    fmt, profile = rng.choice(FORMATS), rng.choice(PROFILES + [None])
    weights = None
    k = rng.random()
    if k < 0.3:
        weights = [rng.choice(["0.25", "1", "0.5", "2", "0.125", "0", "10"]) for _ in range(3)]
    elif k < 0.4:
        weights = ["%.3f" % rng.random() for _ in range(3)]
    elif k < 0.44:
        weights = [rng.choice(["nan", "inf", "-1", "1e30", "0"]) for _ in range(3)]
    by_alpha = rng.random() < 0.35
    args = [rng.choice([["-f", upper(rng, fmt)], ["--format", fmt], ["--format=" + upper(rng, fmt)], ["-f" + fmt]])]
    if profile:
        args.append(rng.choice([["-p", profile], ["--profile", profile], ["--profile=" + profile]]))
    if weights:
        args.append([a for v in weights for a in rng.choice([["-w=" + v], ["--weights=" + v], ["-w" + v]])])
    if by_alpha:
        args.append(["--weigh-colour-by-alpha"])
    return fmt, profile or "balanced", weights and [float(v) for v in weights], by_alpha, args

def arrange(rng, groups, infile):
    """The option groups in any order, with the input file anywhere between them"""
    groups = groups[:]
    rng.shuffle(groups)
    guard = infile.startswith("-")
    if not guard:
        groups.insert(rng.randint(0, len(groups)), [infile])
    return [a for g in groups for a in g] + (["--", infile] if guard else [])

class Unusual:
    """Now and then: the input is a symbolic link or a pipe, the output a symbolic link or a pipe"""
    def __init__(self, world, rng, d, rel, data, how, out):
        self.d, self.data, self.out, self.feeder, self.drain, self.aside = d, data, out, None, False, None
        k = rng.random()
        path = os.path.join(d, rel)
        if k < 0.04:
            os.makedirs(os.path.join(d, "elsewhere"))
            os.rename(path, os.path.join(d, "elsewhere", "data"))
            os.symlink(os.path.join(d, "elsewhere", "data"), path)
            world.seen("input is a symbolic link")
        elif k < 0.08:
            os.remove(path)
            os.mkfifo(path)
            self.fifo = path
            self.feeder = threading.Thread(target=self.feed, daemon=True)
            world.seen("input is a pipe")
        elif k < 0.12 and how and out != rel and not os.path.exists(os.path.join(d, out)):
            self.aside = b"aside"
            if rng.random() < 0.6:
                with open(os.path.join(d, "aside"), "wb") as f:
                    f.write(bytes(rng.choice([0, 10, 5000])))
            os.symlink(os.path.join(d, "aside"), os.path.join(d, out))
            world.seen("output is a symbolic link")
        elif k < 0.16 and how and out != rel and not os.path.exists(os.path.join(d, out)):
            os.mkfifo(os.path.join(d, out))
            self.drain = True
            world.seen("output is a pipe")

    def feed(self):
        try:
            with open(self.fifo, "wb") as f:
                f.write(self.data)
        except OSError:
            # closed before all was read
            pass

    def run(self, world, args, rng):
        """The run, and what it wrote"""
        before = listing(self.d)
        if self.feeder:
            self.feeder.start()
        if self.drain:
            # holding it open ourselves, so that neither side waits for the other in vain
            path, piped = os.path.join(self.d, self.out), []
            hold = os.open(path, os.O_RDWR)
            def read():
                with open(path, "rb") as f:
                    ready.set()
                    piped.append(f.read())
            ready = threading.Event()
            reader = threading.Thread(target=read, daemon=True)
            reader.start()
            ready.wait()
        r = world.texpresso(args, self.d, rng)
        if self.drain:
            os.close(hold)
            reader.join()
        if self.feeder:
            while self.feeder.is_alive():
                # in case the command never opened the pipe
                os.close(os.open(self.fifo, os.O_RDONLY | os.O_NONBLOCK))
                self.feeder.join(0.02)
        if r.code != 0:
            raise Bad("exit status %d: %s" % (r.code, r.err[:300]))
        if self.drain and os.path.lexists(path) and stat.S_ISFIFO(os.lstat(path).st_mode):
            expect_files(before, self.d, self.out, None)
            return piped[0]
        if self.aside:
            # the link may be followed or replaced
            before.pop(self.aside, None)
            after = listing(self.d)
            if after.get(self.aside) == after.get(os.fsencode(self.out)):
                os.remove(os.path.join(self.d, os.fsdecode(self.out)))
                os.rename(os.path.join(self.d, "aside"), os.path.join(self.d, os.fsdecode(self.out)))
            elif self.aside in after:
                os.remove(os.path.join(self.d, "aside"))
        return expect_files(before, self.d, self.out, None)

# ---------------------------------------------------------------- oracles

def judge_dds(data, fmt, w, h, payload):
    try:
        f = read_dds(data)
    except ValueError as e:
        raise Bad("the output is no DDS file: %s" % e)
    want = dict(width=w, height=h, fourcc=b"DX10", dimension=3, array=1, dxgi=DXGI[fmt], alpha=2 if fmt == "bc1" else 1)
    for k, v in want.items():
        if f.get(k) != v:
            raise Bad("the header's %s is %r instead of %r" % (k, f.get(k), v))
    if not f["pf_flags"] & 4 or f["flags"] & 0x1007 != 0x1007 or f["caps"] & 0x1000 == 0 or f["misc"] & 4 or f["caps2"] or f["depth"] > 1 or f["mips"] > 1:
        raise Bad("the header does not describe a single 2D texture: %r" % {k: v for k, v in f.items() if k != "payload"})
    if f["flags"] & 0x80000 and f["linear"] != payload_size(fmt, w, h):
        raise Bad("the header's linear size is %d for a %s image of %dx%d" % (f["linear"], fmt, w, h))
    got = f["payload"]
    if got != payload:
        at = next((i for i, (a, b) in enumerate(zip(got, payload)) if a != b), min(len(got), len(payload)))
        raise Bad("the payload (%d bytes) differs from what the library produces (%d bytes) at byte %d" % (len(got), len(payload), at))

def expect_files(before, d, out, arg_in):
    """All files as before, apart from the output"""
    after = listing(d)
    out = os.fsencode(out)
    for k in set(before) | set(after):
        if k != out and before.get(k) != after.get(k):
            what = "appeared" if k not in before else "vanished" if k not in after else "changed"
            raise Bad("the file %r %s" % (k, what))
    if out not in after:
        raise Bad("no output file %r" % out)
    return after[out]

def c19(world, rng):
    d = world.fresh()
    jpeg = rng.random() < 0.25
    fmt, profile, weights, by_alpha, groups = options(rng)
    heavy = profile == "quality" and fmt in FOURCC
    far = not heavy and rng.random() < 0.01
    w, h = far_dims(rng, 65535 if jpeg else 65575) if far else dims(rng, 400 if heavy else 1600)
    if far: world.seen("large images")
    if jpeg:
        ext, data = upper(rng, rng.choice(["jpg", "jpeg"])), random_jpeg(rng, w, h)
        px = world.lib.jpeg(data)
        if px is None:
            raise Inconclusive("the JPEG decoder refuses a generated file")
        rgba = px[2]
    else:
        ext = upper(rng, "png")
        png = random_png(rng, w, h, *rng.choice([(6, 8), (6, 8), (6, 8), (2, 8), (4, 8), (None, None)]))
        data, rgba = png.encode(rng, interlace=rng.random() < 0.2), png.rgba()
    rel, arg, stem = place(rng, d, ext, data)
    how, out = output_option(rng, d, stem, "dds", rel)
    existing = out != rel and maybe_existing(rng, d, out, 4000)
    unusual = Unusual(world, rng, d, rel, data, how, out)
    args = ["compress"] + arrange(rng, groups + ([how] if how else []), arg)
    world.seen("%s %s" % (fmt, profile))
    world.seen("jpeg" if jpeg else "png")
    world.seen("default output" if not how else "named output")
    if weights: world.seen("weights given")
    if by_alpha: world.seen("alpha weighting")
    if existing: world.seen("output existed")
    got = unusual.run(world, args, rng)
    judge_dds(got, fmt, w, h, world.lib.compress(fmt, profile, weights, by_alpha, w, h, rgba))
    return "%s %dx%d %s" % (fmt, w, h, " ".join(args))

def random_dds(rng, w, h):
    fmt = rng.choice(FORMATS)
    legacy = fmt in FOURCC and rng.random() < 0.4
    need = payload_size(fmt, w, h)
    kind = rng.random()
    payload = bytes(rng.getrandbits(8) for _ in range(need)) if kind < 0.8 else (bytes(rng.getrandbits(8) for _ in range(BLOCK[fmt])) * (need // BLOCK[fmt]))
    mips = rng.choice([0, 0, 1, 3])
    surplus = rng.choice([0, 0, 0, 1, 7, 8, 64, 1000])
    payload += bytes(rng.getrandbits(8) for _ in range(surplus))
    flags = 0x1007 | rng.choice([0, 0x80000, 8]) | (0x20000 if mips else 0)
    data = dds(fmt, w, h, payload, legacy, flags=flags, linear=rng.choice([need, need, 0, rng.getrandbits(32)]), mips=mips, depth=rng.choice([0, 0, 1]),
               caps=0x1000 | (0x400008 if mips > 1 else 0), alpha=rng.choice([0, 1, 2, 3, 4]), array=rng.choice([1, 1, 1, 2]),
               pf_flags=4 | rng.choice([0, 0, 1]), reserved=rng.choice([bytes(44), bytes(rng.getrandbits(8) for _ in range(44))]))
    return fmt, legacy, surplus, data

def judge_png(data, w, h, rgba):
    try:
        got = read_png(data)
    except (ValueError, zlib.error, struct.error, IndexError) as e:
        raise Bad("the output is no complete PNG: %s" % e)
    if got[:2] != (w, h):
        raise Bad("the PNG is %dx%d instead of %dx%d" % (got[0], got[1], w, h))
    if got[2] != rgba:
        at = next(i for i in range(w * h) if got[2][4 * i:4 * i + 4] != rgba[4 * i:4 * i + 4])
        raise Bad("pixel (%d,%d) is %r instead of %r" % (at % w, at // w, list(got[2][4 * at:4 * at + 4]), list(rgba[4 * at:4 * at + 4])))

def c20(world, rng):
    d = world.fresh()
    far = rng.random() < 0.015
    w, h = far_dims(rng) if far else dims(rng, 9000 if rng.random() < 0.05 else 1600)
    if far: world.seen("large images")
    fmt, legacy, surplus, data = random_dds(rng, w, h)
    rel, arg, stem = place(rng, d, rng.choice(["dds", "dds", "DDS", "bin"]), data)
    how, out = output_option(rng, d, stem, "png", rel)
    existing = out != rel and maybe_existing(rng, d, out, 4000)
    unusual = Unusual(world, rng, d, rel, data, how, out)
    args = ["decompress"] + arrange(rng, [how] if how else [], arg)
    world.seen("%s %s" % (fmt, "legacy" if legacy else "DX10"))
    if surplus: world.seen("further payload")
    if existing: world.seen("output existed")
    world.seen("default output" if not how else "named output")
    got = unusual.run(world, args, rng)
    fmt2, w2, h2, payload = understood_dds(data)
    assert (fmt, w, h) == (fmt2, w2, h2)
    judge_png(got, w, h, world.lib.decompress(fmt, w, h, payload))
    return "%s%s %dx%d +%d %s" % (fmt, " legacy" if legacy else "", w, h, surplus, " ".join(args))

KINDS = [(t, b, lace, key) for t in CHANNELS for b in DEPTHS[t] for lace in (0, 1) for key in (0, 1) if not (key and t in (4, 6))]

def flatten(png):
    """Makes each 4x4 block one colour, so that every value shows in the compressed blocks"""
    n = CHANNELS[png.ctype]
    png.rows = [[v for x in range(png.w) for v in png.rows[y - y % 4][n * (x - x % 4):n * (x - x % 4) + n]] for y in range(png.h)]

def c21(world, rng):
    d = world.fresh()
    jpeg = rng.random() < 0.25
    far = rng.random() < 0.015
    w, h = far_dims(rng, 65535 if jpeg else 65575) if far else dims(rng, 1000)
    if far: world.seen("large images")
    rgba = None
    if jpeg:
        kind = rng.choice(["grey", "444", "420", "422", "440", "rgb"])
        ext = upper(rng, rng.choice(["jpg", "jpeg"]))
        if kind in ("grey", "rgb") and rng.random() < 0.5:
            # flat blocks whose values are known without any decoder: 128 + DC, as the step is 8
            values = {}
            def blocks(c, x, y):
                values[c, x, y] = rng.randint(-128, 127)
                return values[c, x, y], {}
            n = 1 if kind == "grey" else 3
            scans = rng if rng.random() < 0.4 else None
            if scans: world.seen("progressive JPEG with known pixels")
            data = encode_jpeg(w, h, [(1, 1)] * n, blocks, q=8, progressive=scans, restart=rng.choice([0, 2]), adobe=0 if n == 3 else None, jfif=n == 1, ids=b"RGB" if n == 3 else (1,))
            rgba = b"".join(bytes([128 + values[c if n == 3 else 0, x // 8, y // 8] for c in range(3)] + [255]) for y in range(h) for x in range(w))
            world.seen("JPEG with known pixels, " + kind)
        else:
            data = random_jpeg(rng, w, h, kind)
            px = world.lib.jpeg(data)
            if px is None or px[:2] != (w, h):
                raise Inconclusive("the JPEG decoder refuses a generated file")
            rgba = px[2]
            world.seen("JPEG " + kind)
        what = "JPEG " + kind
    else:
        ctype, depth, lace, key = rng.choice(KINDS)
        ext = upper(rng, "png")
        for _ in range(30):
            png = random_png(rng, w, h, ctype, depth)
            if (png.trns is not None) == bool(key):
                break
        if rng.random() < 0.4:
            flatten(png)
        data, rgba = png.encode(rng, interlace=bool(lace)), png.rgba()
        what = "PNG type %d depth %d%s%s" % (ctype, depth, " interlaced" if lace else "", " with tRNS" if png.trns is not None else "")
        world.seen(what)
    rel = "in." + ext
    with open(os.path.join(d, rel), "wb") as f:
        f.write(data)
    for fmt in (rng.choice(["bc1", "bc2"]), "bc3", "bc5"):
        out = os.path.join(d, fmt)
        r = world.texpresso(["compress", "-f", fmt, "-p", "speed", "-o", out, rel], d, rng)
        if r.code != 0:
            raise Bad("%s: exit status %d: %s" % (what, r.code, r.err[:300]))
        try:
            f = read_dds(open(out, "rb").read())
        except ValueError as e:
            raise Bad("%s: no DDS file: %s" % (what, e))
        if (f["width"], f["height"]) != (w, h):
            raise Bad("%s: %dx%d becomes %dx%d" % (what, w, h, f["width"], f["height"]))
        want = world.lib.compress(fmt, "speed", None, False, w, h, rgba)
        if f["payload"] != want:
            i = next((i for i, (a, b) in enumerate(zip(f["payload"], want)) if a != b), 0) // BLOCK[fmt]
            x, y = 4 * (i % -(-w // 4)), 4 * (i // -(-w // 4))
            raise Bad("%s, %dx%d, as %s: the block at (%d,%d), first pixel %r, is not what its pixels compress to" %
                      (what, w, h, fmt, x, y, list(rgba[4 * (y * w + x):4 * (y * w + x) + 4])))
    return "%s %dx%d" % (what, w, h)

# ---------------------------------------------------------------- C22

def sample(rng, kind):
    """A small valid input: (extension, bytes, command)"""
    w, h = rng.randint(1, 12), rng.randint(1, 12)
    if kind == "png":
        t, b = rng.choice([(6, 8), (2, 8), (3, 8), (0, 8), (4, 16), (3, 2), (2, 16)])
        return "png", random_png(rng, w, h, t, b).encode(rng, interlace=rng.random() < 0.2), ["compress", "-f", rng.choice(FORMATS), "-p", "speed"]
    if kind == "jpg":
        return rng.choice(["jpg", "jpeg"]), random_jpeg(rng, w, h), ["compress", "-f", rng.choice(FORMATS), "-p", "speed"]
    return "dds", random_dds(rng, w, h)[3], ["decompress"]

class Refusals:
    """Runs a command on an input in a directory that may hold an older output"""
    def __init__(self, world, rng):
        self.world, self.rng, self.dir = world, rng, world.fresh()
        self.old = rng.choice([None, b"an older output", b"", bytes(5000)])

    def run(self, args, ext, data, what, shim=None, good=None, must_fail=True, out="out"):
        """Either it fails, leaving everything as it was, or (unless it has to fail) it gives `good`"""
        d = self.dir
        for x in os.listdir(d):
            p = os.path.join(d, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        if data is not None:
            with open(os.path.join(d, "in" + ext), "wb") as f:
                f.write(data)
        if out == "full":
            os.symlink("/dev/full", os.path.join(d, out))
        elif self.old is not None:
            with open(os.path.join(d, out), "wb") as f:
                f.write(self.old)
        before = listing(d)
        r = self.world.texpresso(args, d, self.rng, shim)
        after = listing(d)
        o = os.fsencode(out)
        if data is not None and after.get(b"in" + ext.encode()) != data:
            raise Bad("%s: the input was modified" % what)
        if r.code == 0:
            if out == "full" and after.get(o) != b"a device":
                # the link was replaced by a file
                return r
            if must_fail:
                raise Bad("%s: reports success" % what)
            if good is None or after.get(o) != good:
                raise Bad("%s: reports success, but the output is not that of the whole, undisturbed input" % what)
        elif after != before:
            k = next(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            raise Bad("%s: fails (status %d), but %r was %s" % (what, r.code, k, "created" if k not in before else "altered or removed"))
        return r

def baseline(world, rng, ext, data, command):
    """What the command makes of a valid input, judged"""
    d = world.fresh()
    with open(os.path.join(d, "in." + ext), "wb") as f:
        f.write(data)
    r = world.texpresso(command + ["-o", "out", "in." + ext], d, rng)
    if r.code != 0 or not os.path.exists(os.path.join(d, "out")):
        raise Bad("a valid %s input is refused (status %d): %s" % (ext, r.code, r.err[:200]))
    return open(os.path.join(d, "out"), "rb").read()

def judge_output(world, ext, data, command, out):
    if ext == "dds":
        fmt, w, h, payload = understood_dds(data)
        judge_png(out, w, h, world.lib.decompress(fmt, w, h, payload))
    else:
        f = read_dds(out)
        if len(f["payload"]) != payload_size(command[2], f["width"], f["height"]):
            raise Bad("the payload is incomplete")

def png_chunks(data):
    at = 8
    while at < len(data):
        n, = struct.unpack(">I", data[at:at + 4])
        yield data[at + 4:at + 8], data[at + 8:at + 8 + n]
        at += 12 + n

def png_parts(data):
    """(offset, length) of the signature and of each critical chunk"""
    out, at = [(0, 8)], 8
    while at < len(data):
        n, = struct.unpack(">I", data[at:at + 4])
        if not data[at + 4] & 32:
            out.append((at, 12 + n))
        at += 12 + n
    return out

def c22_truncation(world, rng):
    kind = rng.choice(["png", "jpg", "dds"])
    ext, data, command = sample(rng, kind)
    good = baseline(world, rng, ext, data, command)
    judge_output(world, ext, data, command, good)
    z = Refusals(world, rng)
    if kind == "dds":
        need = understood_dds(data)
        end = len(data) - (len(read_dds(data)["payload"]) - len(need[3]))
    if kind == "png":
        whole = len(zlib.decompress(b"".join(b for k, b in png_chunks(data) if k == b"IDAT")))
    points = sorted(set(rng.sample(range(len(data)), min(len(data), 24)) + [0, len(data) - 1, len(data) - rng.randint(1, min(20, len(data)))]))
    for n in points:
        if kind == "dds":
            must = n < end
        else:
            must = n < len(data) // 2 if kind == "jpg" else not png_complete(data[:n], whole)
        z.run(command + ["-o", "out", "in." + ext], "." + ext, data[:n], "%s input cut to %d of %d bytes" % (kind, n, len(data)), good=good, must_fail=must)
        world.seen("truncations of " + kind)
    return "%s of %d bytes cut at %s" % (kind, len(data), points[:8])

def c22_corruption(world, rng):
    kind = rng.choice(["png", "dds", "dds"])
    ext, data, command = sample(rng, kind)
    good = baseline(world, rng, ext, data, command)
    z = Refusals(world, rng)
    for _ in range(16):
        b = bytearray(data)
        if kind == "png":
            at, n = rng.choice(png_parts(data))
            i = at + rng.randrange(n)
            b[i] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, rng.randint(1, 255)])
            # a critical chunk that turns ancillary may be skipped as unknown, which leaves the image incomplete
            z.run(command + ["-o", "out", "in.png"], ".png", bytes(b), "PNG with byte %d of %d damaged" % (i, len(data)), good=good, must_fail=False)
        else:
            head = 148 if b[84:88] == b"DX10" else 128
            i = rng.choice([0, 1, 2, 3, 4, 12, 13, 16, 17, 76, 80, 84, 85, 86, 87, 128, 132, rng.randrange(head)])
            b[min(i, len(b) - 1)] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, rng.randint(1, 255)])
            b = bytes(b)
            u = understood_dds(b)
            if u is not None and u[1] * u[2] > 40000:
                continue
            if u is None:
                z.run(command + ["-o", "out", "in.dds"], ".dds", b, "DDS with byte %d changed to %d" % (i, b[min(i, len(b) - 1)]))
            else:
                d = world.fresh()
                z.dir = d
                with open(os.path.join(d, "in.dds"), "wb") as f:
                    f.write(b)
                r = world.texpresso(["decompress", "-o", "out", "in.dds"], d, rng)
                if r.code == 0:
                    judge_png(open(os.path.join(d, "out"), "rb").read(), u[1], u[2], world.lib.decompress(u[0], u[1], u[2], u[3]))
        world.seen("corruptions of " + kind)
    return "%s of %d bytes" % (kind, len(data))

def c22_unsupported(world, rng):
    z = Refusals(world, rng)
    w, h = rng.randint(1, 9), rng.randint(1, 9)
    _, png, compress = sample(rng, "png")
    _, jpg, _ = sample(rng, "jpg")
    fmt, legacy, surplus, d = random_dds(rng, w, h)
    pad = bytes(w * h * 16 + 64)
    unsupported = [
        ("jpg", random_jpeg(rng, w, h, "cmyk"), "a CMYK JPEG"),
        ("png", jpg, "a JPEG named .png"), ("jpg", png, "a PNG named .jpg"), ("jpeg", d, "a DDS named .jpeg"), ("png", d, "a DDS named .png"),
        ("txt", png, "a PNG named .txt"), ("dds", png, "a PNG named .dds"), ("", png, "a PNG without extension"), ("pngx", png, "a PNG named .pngx"),
        ("png", b"", "an empty PNG"), ("jpg", b"", "an empty JPEG"),
        ("png", SIGNATURE + chunk(b"IHDR", struct.pack(">IIBBBBB", 0, h, 8, 6, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(b"")) + chunk(b"IEND", b""), "a PNG of width 0"),
        ("png", SIGNATURE + chunk(b"IHDR", struct.pack(">IIBBBBB", w, 0, 8, 6, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(b"")) + chunk(b"IEND", b""), "a PNG of height 0"),
    ]
    undds = [
        (dds(fmt, 0, h, pad, legacy), "a DDS of width 0"), (dds(fmt, w, 0, pad, legacy), "a DDS of height 0"), (dds(fmt, 0, 0, pad, legacy), "a DDS of 0x0"),
        (dds(fmt, 1 << 31, 1 << 31, pad, legacy), "a DDS of 2^31 x 2^31"), (dds(fmt, 0xffffffff, 1, pad, legacy), "a DDS of width 2^32-1"),
        (dds(fmt, w + (1 << 28), h, pad, legacy), "a DDS of far too few data"), (dds(fmt, w, h + (1 << 28), pad, legacy), "a DDS of far too few data"),
        (dds("bc1", w, h, pad, dxgi=rng.choice([0, 28, 87, 95, 98, 2, 10])), "a DDS of another DXGI format"),
        (dds("bc1", w, h, pad, dxgi=rng.choice([132, 1000, 0xffffffff])), "a DDS of an unknown DXGI format"),
        (dds("bc1", w, h, pad, dimension=rng.choice([0, 1, 2, 4, 5, 77])), "a DDS that is no 2D texture"),
        (dds("bc1", w, h, pad, fourcc=rng.choice([b"UYVY", b"XXXX", b"\x24\0\0\0", b"\0\0\0\0"])), "a DDS of another FourCC"),
        (dds("bc1", w, h, pad, True, pf_flags=0x41), "a DDS without FourCC flag"),
        (b"", "an empty DDS"), (png, "a PNG"), (b"DDS!" + dds("bc1", w, h, pad)[4:], "a wrong magic number"),
    ]
    if rng.random() < 0.5:
        ext, data, what = rng.choice(unsupported)
        ext = "." + ext if ext else ""
        z.run(compress + ["-o", "out", "in" + ext], ext, data, what)
    else:
        data, what = rng.choice(undds)
        z.run(["decompress", "-o", "out", "in.dds"], ".dds", data, what)
    world.seen("unsupported: " + what)
    return what

def c22_options(world, rng):
    z = Refusals(world, rng)
    _, png, _ = sample(rng, "png")
    f, i, o = ["-f", rng.choice(FORMATS)], ["in.png"], ["-o", "out"]
    cases = [
        (i + o, "no format"), (["-f", rng.choice(["bc6", "bc0", "", "dxt1", "bc11", "rgba"])] + i + o, "an unknown format"), (["-f"] + i, "an option without value"),
        (f + ["-p", rng.choice(["fast", "best", "", "balance"])] + i + o, "an unknown profile"),
        (f + ["-w", "1"] + i + o, "one weight"), (f + ["-w", "1", "-w", "1"] + i + o, "two weights"), (f + ["-w", "1"] * 4 + i + o, "four weights"),
        (f + ["-w", "1", "-w", "2", "-w", rng.choice(["x", "", "1,2"])] + i + o, "a weight that is no number"),
        (f + o, "no input"), (f + o + i + ["other.png"], "two inputs"), (f + o + ["missing.png"], "a missing input"), (f + o + ["."], "a directory as input"),
        (f + f + i + o, "a format given twice"), (f + i + o + ["--unknown"], "an unknown option"), (f + i + ["-o", "nowhere/out"], "an output in a missing directory"),
        (f + i + ["-o", "full"], "an output on a full device"), (f + i + ["-o", "."], "a directory as output"), (f + i + ["-o", ""], "an empty output name"),
    ]
    args, what = rng.choice(cases)
    z.run(["compress"] + args, ".png", png, what, out="full" if "full" in args else "out")
    world.seen("compress with " + what)
    w, h = rng.randint(1, 20), rng.randint(1, 60)
    data = random_dds(rng, w, h)[3]
    i = ["in.dds"]
    cases = [(o, "no input"), (o + ["missing.dds"], "a missing input"), (o + ["."], "a directory as input"), (o + i + ["x.dds"], "two inputs"),
             (o + i + ["-f", "bc1"], "an unknown option"), (i + ["-o", "nowhere/out"], "an output in a missing directory"),
             (i + ["-o", "full"], "an output on a full device"), (i + ["-o", "."], "a directory as output")]
    args, what = rng.choice(cases)
    z.run(["decompress"] + args, ".dds", data, what, out="full" if "full" in args else "out")
    world.seen("decompress with " + what)
    cmd = rng.choice([[], ["recompress"], ["compress"], ["decompress"], ["-f", "bc1"]])
    z.run(cmd, ".dds", data, "the command line %r" % cmd)
    return what

def c22_faults(world, rng):
    """Every read, write and open of one run fails in turn; and all kinds of short and interrupted calls"""
    kind = rng.choice(["png", "jpg", "dds", "dds"])
    if kind == "dds":
        w, h = rng.choice([(rng.randint(1, 30), rng.randint(1, 30)), (rng.randint(80, 140), rng.randint(60, 120))])
        fmt = rng.choice(FORMATS)
        data = dds(fmt, w, h, bytes(rng.getrandbits(8) for _ in range(payload_size(fmt, w, h))), legacy=fmt in FOURCC and rng.random() < 0.3)
        ext, command = "dds", ["decompress"]
    elif kind == "png":
        w, h = rng.choice([(rng.randint(1, 12), rng.randint(1, 12)), (rng.randint(80, 130), rng.randint(80, 130))])
        px = bytes(rng.getrandbits(8) for _ in range(4 * w))
        rows = [[(v + y) & 255 for v in px] for y in range(h)]
        data = Png(w, h, 6, 8, rows).encode(rng, interlace=False, level=0, splits=rng.choice([0, 3]))
        ext, command = "png", ["compress", "-f", rng.choice(FORMATS), "-p", "speed"]
    else:
        ext, data, command = sample(rng, "jpg")
    d = world.fresh()
    log = os.path.join(world.dir, "log")
    name = "in." + ext
    target = "out"
    old = rng.choice([None, bytes(9000)])
    def go(plan):
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
        if old is not None:
            with open(os.path.join(d, target), "wb") as f:
                f.write(old)
        if os.path.exists(log):
            os.remove(log)
        r = world.texpresso(command + ["-o", target, name], d, rng, {"LD_PRELOAD": world.shim, "SHIM_IN": name, "SHIM_PLAN": plan, "SHIM_LOG": log})
        try:
            counts = [int(x) for x in open(log).read().split()]
        except (OSError, ValueError):
            counts = None
        if open(os.path.join(d, name), "rb").read() != data:
            raise Bad("plan %s: the input was modified" % plan)
        out = os.path.join(d, target)
        return r, counts, open(out, "rb").read() if os.path.exists(out) else None
    r, counts, good = go("")
    if r.code != 0 or good is None:
        raise Bad("a valid %s input is refused (status %d): %s" % (kind, r.code, r.err[:200]))
    if counts is None:
        raise Inconclusive("the fault injection is not in effect: " + r.err[:200])
    judge_output(world, ext, data, command, good)
    reads, writes, opens, inopens = counts[:4]
    plans = []
    def points(n, most):
        return range(1, n + 1) if n <= most else sorted(set(list(range(1, most // 3)) + [n, n - 1, n - 2] + [rng.randint(1, n) for _ in range(most // 2)]))
    for k in points(writes, 45):
        plans.append("%s:%d:%d" % (rng.choice("wWp"), k, rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG])))
    for k in points(writes, 8):
        plans.append("p:%d:%d" % (k, errno.ENOSPC))
    for k in points(reads, 30):
        plans.append("%s:%d:%d" % (rng.choice("rR"), k, rng.choice([errno.EIO, errno.EISDIR, errno.ESTALE])))
    for k in range(1, opens + 1):
        plans.append("o:%d:%d" % (k, rng.choice([errno.EACCES, errno.EMFILE, errno.EROFS, errno.ENOSPC])))
    for k in range(1, inopens + 1):
        plans.append("i:%d:%d" % (k, rng.choice([errno.EACCES, errno.EMFILE, errno.ENOENT])))
    for _ in range(6):
        plans.append("s:%d" % rng.randrange(1 << 20))
    for _ in range(3):
        plans.append("e:%d" % rng.randrange(1 << 20))
    injected = 0
    for plan in plans:
        r, counts, out = go(plan)
        hit = counts is not None and counts[4] > 0
        injected += hit
        what = "%s of %d bytes, fault plan %s (%s)" % (kind, len(data), plan, "injected" if hit else "not reached")
        if r.code == 0:
            if out != good:
                raise Bad("%s: reports success, but the output is not complete and correct" % what)
            if hit and plan[0] not in "se":
                raise Bad("%s: the failed call goes unreported" % what)
        elif plan[0] in "se" or not hit:
            raise Bad("%s: fails with status %d: %s" % (what, r.code, r.err[:200]))
        elif plan[0] in "oiRr" and out != old and plan[0] != "o":
            raise Bad("%s: fails (status %d), but the output was %s" % (what, r.code, "created" if old is None else "altered"))
        if hit:
            world.seen("faults: " + {"w": "one write fails", "W": "writes fail from a point on", "p": "a partial write, then failures", "r": "one read fails",
                                     "R": "reads fail from a point on", "o": "opening the output fails", "i": "opening the input fails",
                                     "s": "short reads and writes", "e": "interrupted writes"}[plan[0]])
    return "%s of %d bytes: %d reads, %d writes, %d plans, %d took effect" % (kind, len(data), reads, writes, len(plans), injected)

def c22(world, rng):
    return rng.choice([c22_truncation, c22_corruption, c22_unsupported, c22_unsupported, c22_options, c22_options, c22_faults])(world, rng)

SECONDS = {"C19": 22, "C20": 22, "C21": 24, "C22": 34}

CASES = {"C19": c19, "C20": c20, "C21": c21, "C22": c22}

RULES = {
    "C19": "runs of 'compress' on generated PNG and JPEG files with all kinds of options, paths and older outputs; distinct by command line and image; all are non-trivial",
    "C20": "runs of 'decompress' on generated DDS files of all kinds, paths and older outputs; distinct by command line and file; all are non-trivial",
    "C21": "images of every PNG colour type, depth, interlacing and transparency and of several JPEG kinds, each compressed in three formats; distinct by image; all are non-trivial",
    "C22": "runs of both commands with truncated, corrupt, unsupported inputs, bad options, and injected faults at every read, write and open of a run; distinct by case; all are non-trivial",
}

def room():
    """Whether there is memory and disk space for images of more than 2^32 bytes"""
    try:
        free = int(re.search(r"MemAvailable:\s*(\d+)", open("/proc/meminfo").read()).group(1)) >> 20
    except (OSError, AttributeError):
        return False
    st = os.statvfs(tempfile.gettempdir())
    return free >= 14 and st.f_bavail * st.f_frsize >= 3 << 30

def giant(prop, tier, seed, totals):
    """One image of more than 2^30 pixels and 2^32 bytes through the commands."""
    name = "an image of 32768x32772 pixels"
    if not room():
        totals.add(name, 0, 0, skipped="too little memory or disk space")
        return
    exes, oracle, _ = tools()
    rng = random.Random(seed * 31 + 7)
    w, h, kinds = 32768, 32772, 13
    across = w // 4
    world = World(exes, oracle, None, lambda l: None)
    try:
        d = world.fresh()
        rows = [b"".join(struct.pack("<HHI", rng.getrandbits(16), 0, 0) * 128 for _ in range(across // 128)) for _ in range(kinds)]
        which = [(y * 5 + y // 1000) % kinds for y in range(h // 4)]
        with open(os.path.join(d, "in.dds"), "wb") as f:
            f.write(dds("bc1", w, h, b""))
            f.writelines(rows[k] for k in which)
        def go(args):
            try:
                r = world.texpresso(args, d)
            except Bad as e:
                bad(str(e))
                return False
            if r.code in (-signal.SIGKILL, -signal.SIGABRT) and "panicked" not in r.err:
                totals.add(name, 0, 0, skipped="the process was ended, maybe for its memory: " + r.err[:100])
                return False
            if r.code != 0:
                bad("exit status %d: %s" % (r.code, r.err[:300]))
            return r.code == 0
        judged = prop == "C20"
        def bad(text):
            if not judged:
                # making the input is not what is judged here
                totals.add(name, 0, 0, skipped="making the input: " + text)
                return
            violate(prop, name + ": " + text, cli_case="giant", commands=world.last)
        if not go(["decompress", "-o", "out.png", "in.dds"]):
            return
        pixels = [world.lib.decompress("bc1", w, 4, r) for r in rows]
        lines = [[p[4 * w * y:4 * w * (y + 1)] for y in range(4)] for p in pixels]
        err = giant_png(os.path.join(d, "out.png"), w, h, lines, which)
        if err:
            return bad(err)
        if prop == "C20":
            totals.add(name, 1, 1, ["bc1 32768x32772 decompressed"], pixels=w * h)
            return
        judged = True
        if not go(["compress", "-f", "bc1", "-p", "speed", "-o", "out.dds", "out.png"]):
            return
        want = [world.lib.compress("bc1", "speed", None, False, w, 4, p) for p in pixels]
        with open(os.path.join(d, "out.dds"), "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(0)
            head = read_dds(f.read(148))
            if (head["width"], head["height"]) != (w, h) or size != 148 + payload_size("bc1", w, h):
                bad("the output is %dx%d, %d bytes" % (head["width"], head["height"], size))
            for y, k in enumerate(which):
                if f.read(len(want[k])) != want[k]:
                    bad("block row %d of the payload is not what the library produces" % y)
        totals.add(name, 1, 1, ["PNG of 32768x32772 compressed as bc1"], pixels=w * h)
    finally:
        world.close()

def large(prop, tier, seed, totals):
    """Images of more than 2^24 pixels with every profile and option: mostly flat, some rows of blocks busy"""
    exes, oracle, _ = tools()
    rng = random.Random(seed * 29 + 3)
    world = World(exes, oracle, None, lambda l: None)
    done = []
    try:
        for profile in PROFILES * (1 if tier == "quick" else 4):
            w, h = rng.randint(1025, 1100) * 4, rng.randint(1025, 1100) * 4
            fmt = rng.choice(["bc1", "bc2", "bc3"])
            weights, by_alpha = rng.choice([None, [0.5, 2.0, 0.25], [0.0, 1.0, 4.0]]), rng.random() < 0.5
            kinds = []
            for k in range(6):
                flat = bytes(rng.getrandbits(8) for _ in range(4)) * w
                lines = [bytearray(flat) for _ in range(4)]
                for _ in range(40 if k < 2 else 0):
                    at, spread = 16 * rng.randrange(w // 4), rng.choice([255, 255, 40])
                    for l in lines:
                        l[at:at + 16] = bytes(rng.randint(0, spread) if i % 4 < 3 else rng.choice([255, 255, 130, rng.getrandbits(8)]) for i in range(16))
                kinds.append([bytes(l) for l in lines])
            which = [rng.choice([0, 1]) if rng.random() < 0.04 else rng.randrange(2, 6) for _ in range(h // 4)]
            z = zlib.compressobj(1)
            rows = [b"".join(b"\0" + l for l in k) for k in kinds]
            d = world.fresh()
            with open(os.path.join(d, "in.png"), "wb") as f:
                f.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)))
                for k in which:
                    part = z.compress(rows[k])
                    if part:
                        f.write(chunk(b"IDAT", part))
                f.write(chunk(b"IDAT", z.flush()) + chunk(b"IEND", b""))
            args = ["compress", "-f", fmt, "-p", profile] + (["--weigh-colour-by-alpha"] if by_alpha else []) + ["-w%r" % v for v in weights or []] + ["-o", "out.dds", "in.png"]
            name = "%dx%d %s" % (w, h, " ".join(args))
            try:
                r = world.texpresso(args, d)
            except Bad as e:
                violate(prop, name + ": " + str(e), cli_case="large", commands=world.last)
            if r.code in (-signal.SIGKILL, -signal.SIGABRT) and "panicked" not in r.err:
                totals.add("large images", 0, 0, skipped="the process was ended, maybe for its memory: " + r.err[:100])
                return
            if r.code != 0:
                violate(prop, "%s: exit status %d: %s" % (name, r.code, r.err[:300]), cli_case="large", commands=world.last)
            want = [world.lib.compress(fmt, profile, weights, by_alpha, w, 4, b"".join(k)) for k in kinds]
            with open(os.path.join(d, "out.dds"), "rb") as f:
                got = f.read()
            try:
                judge_dds(got, fmt, w, h, b"".join(want[k] for k in which))
            except Bad as e:
                violate(prop, name + ": " + str(e), cli_case="large", commands=world.last)
            done.append(name)
        totals.add("images of more than 2^24 pixels with every profile", len(done), len(done), done[:3])
    finally:
        world.close()

def large_textures(prop, tier, seed, totals):
    """Textures of millions of pixels and no round sizes, in every format"""
    exes, oracle, _ = tools()
    rng = random.Random(seed * 37 + 5)
    world = World(exes, oracle, None, lambda l: None)
    done = []
    try:
        for fmt in ["bc1", "bc2", "bc3", "bc4", "bc5"] * (1 if tier == "quick" else 4):
            w = rng.randint(900, 5000)
            h = rng.randint(1 << 22, 1 << 25) // w
            size = payload_size(fmt, w, 4)
            rows = [rng.randbytes(size) for _ in range(4)]
            which = [rng.randrange(4) for _ in range(-(-h // 4))]
            d = world.fresh()
            with open(os.path.join(d, "in.dds"), "wb") as f:
                f.write(dds(fmt, w, h, b"".join(rows[k] for k in which)))
            name = "a %s texture of %dx%d" % (fmt, w, h)
            try:
                r = world.texpresso(["decompress", "-o", "out.png", "in.dds"], d)
            except Bad as e:
                violate(prop, name + ": " + str(e), cli_case="large textures", commands=world.last)
            if r.code in (-signal.SIGKILL, -signal.SIGABRT) and "panicked" not in r.err:
                totals.add("large textures", 0, 0, skipped="the process was ended, maybe for its memory: " + r.err[:100])
                return
            if r.code != 0:
                violate(prop, "%s: exit status %d: %s" % (name, r.code, r.err[:300]), cli_case="large textures", commands=world.last)
            pixels = [world.lib.decompress(fmt, w, 4, r) for r in rows]
            lines = [[p[4 * w * y:4 * w * (y + 1)] for y in range(4)] for p in pixels]
            err = giant_png(os.path.join(d, "out.png"), w, h, lines, which)
            if err:
                violate(prop, name + ": " + err, cli_case="large textures", commands=world.last)
            done.append(name)
        totals.add("textures of 2^22 to 2^25 pixels in every format", len(done), len(done), done[:3])
    finally:
        world.close()

def giant_jpeg(prop, seed, totals):
    """A colour JPEG of 2^28 pixels that are known without a decoder"""
    name = "a JPEG of 16384x16384 pixels"
    if not room():
        totals.add(name, 0, 0, skipped="too little memory or disk space")
        return
    exes, oracle, _ = tools()
    rng = random.Random(seed * 17 + 3)
    side, kinds = 16384, 7
    units = side // 8
    world = World(exes, oracle, None, lambda l: None)
    try:
        d = world.fresh()
        colours = [[[rng.randint(-128, 127) for _ in range(3)] for _ in range(units // 16)] for _ in range(kinds)]
        # each row of units by itself, put together with restart markers between
        rows = []
        for k in colours:
            one = encode_jpeg(side, 8, [(1, 1)] * 3, lambda c, x, y: (k[x // 16][c], {}), q=8, restart=units, adobe=0, jfif=False, ids=b"RGB")
            at = one.index(b"\xff\xda")
            at += 2 + struct.unpack(">H", one[at + 2:at + 4])[0]
            head = bytearray(one[:at])
            rows.append(one[at:-2])
        at = head.index(b"\xff\xc0")
        head[at + 5:at + 7] = struct.pack(">H", side)
        which = [(y * 3 + y // 100) % kinds for y in range(units)]
        with open(os.path.join(d, "in.jpg"), "wb") as f:
            f.write(head)
            for y, k in enumerate(which):
                f.write((bytes([0xff, 0xd0 + (y - 1) % 8]) if y else b"") + rows[k])
            f.write(b"\xff\xd9")
        try:
            r = world.texpresso(["compress", "-f", "bc1", "-p", "speed", "-o", "out", "in.jpg"], d)
        except Bad as e:
            violate(prop, name + ": " + str(e), cli_case="giant jpeg", commands=world.last)
        if r.code in (-signal.SIGKILL, -signal.SIGABRT) and "panicked" not in r.err:
            totals.add(name, 0, 0, skipped="the process was ended, maybe for its memory: " + r.err[:100])
            return
        if r.code != 0:
            violate(prop, "%s: exit status %d: %s" % (name, r.code, r.err[:300]), cli_case="giant jpeg", commands=world.last)
        want = []
        for k in colours:
            line = b"".join(bytes([128 + c[0], 128 + c[1], 128 + c[2], 255]) * 128 for c in k)
            want.append(world.lib.compress("bc1", "speed", None, False, side, 8, line * 8))
        with open(os.path.join(d, "out"), "rb") as f:
            head = read_dds(f.read(148))
            if (head["width"], head["height"]) != (side, side):
                violate(prop, "%s becomes %dx%d" % (name, head["width"], head["height"]), cli_case="giant jpeg", commands=world.last)
            for y, k in enumerate(which):
                if f.read(len(want[k])) != want[k]:
                    violate(prop, "%s: block rows %d and %d are not what their pixels compress to" % (name, 2 * y, 2 * y + 1), cli_case="giant jpeg", commands=world.last)
        totals.add(name, 1, 1, ["JPEG of 16384x16384 as bc1"], pixels=side * side)
    finally:
        world.close()

def giant_png(path, w, h, lines, which):
    """What is wrong with an RGBA PNG too large to unfilter here: compares its filtered lines with the expected ones"""
    filtered = {}
    def expected(kind, y):
        here, above = (which[y // 4], y % 4), (which[(y - 1) // 4], (y - 1) % 4) if y and kind > 1 else None
        if kind > 4:
            return None
        if (kind, here, above) not in filtered:
            prev = bytes(4 * w) if above is None else lines[above[0]][above[1]]
            filtered[kind, here, above] = filter_row(kind, lines[here[0]][here[1]], prev, 4)
        return filtered[kind, here, above]
    z, y, buf, ended, n = zlib.decompressobj(), 0, bytearray(), False, 4 * w + 1
    with open(path, "rb") as f:
        if f.read(8) != SIGNATURE:
            return "the output is no PNG"
        while not ended:
            head = f.read(8)
            if len(head) < 8:
                return "the PNG has no end"
            size, = struct.unpack(">I", head[:4])
            body, crc = f.read(size), f.read(4)
            if len(crc) < 4 or struct.unpack(">I", crc)[0] != zlib.crc32(head[4:] + body):
                return "a chunk of the PNG is damaged"
            if head[4:] == b"IHDR" and body != struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0):
                return "the PNG's header is %s" % body.hex()
            ended = head[4:] == b"IEND"
            while head[4:] == b"IDAT" and body:
                buf += z.decompress(body, 1 << 24)
                body = z.unconsumed_tail
                at = 0
                while len(buf) - at >= n:
                    if y >= h:
                        return "the PNG has too many lines"
                    if buf[at:at + n] != expected(buf[at], y):
                        return "line %d of the PNG differs" % y
                    at, y = at + n, y + 1
                del buf[:at]
    return None if y == h and not buf and z.eof else "the PNG's data are incomplete or followed by others"

def worker(prop, exes, oracle, shim, seed, index, deadline, stop, results):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    labels, samples, cases, keys, found, broken = collections.Counter(), [], 0, set(), None, None
    def seen(l, n=1):
        labels[l] += n
    try:
        world = World(exes, oracle, shim, seen)
        try:
            i = 0
            while not stop.is_set() and (time.time() < deadline or i == 0):
                case = seed * 1000003 + index * 100000007 + i
                i += 1
                try:
                    text = CASES[prop](world, random.Random(case))
                except MemoryError:
                    raise Inconclusive("out of memory in case %d, after %r" % (case, world.last[-2:]))
                except Bad as e:
                    found = dict(detail=str(e), case=case, commands=world.last[-3:])
                    stop.set()
                    break
                cases += 1
                keys.add(text)
                if len(samples) < 2:
                    samples.append(text)
            runs = world.runs
        finally:
            world.close()
    except Inconclusive as e:
        broken, runs = str(e), 0
        stop.set()
    except Exception:
        import traceback
        broken, runs = traceback.format_exc(), 0
        stop.set()
    results.put((labels, samples, cases, len(keys), runs, found, broken))

def tools():
    exes = [build("cli"), build("cli-serial")]
    return exes, build("oracle"), build_shim()

def check(prop, tier, seed, totals):
    seconds = SECONDS[prop] * (1 if tier == "quick" else 14)
    exes, oracle, shim = tools()
    results, stop = multiprocessing.Queue(), multiprocessing.Event()
    deadline = time.time() + seconds
    procs = [multiprocessing.Process(target=worker, args=(prop, exes, oracle, shim, seed, i, deadline, stop, results)) for i in range(CPUS)]
    for p in procs:
        p.start()
    got = [results.get(timeout=seconds + 600) for _ in procs]
    for p in procs:
        p.join()
    for g in got:
        if g[5]:
            f = g[5]
            violate(prop, f["detail"], cli_case=f["case"], commands=f["commands"])
    for g in got:
        if g[6]:
            raise Inconclusive(g[6])
    labels = sum((g[0] for g in got), collections.Counter())
    samples = [s for g in got for s in g[1]][:6]
    totals.add("end to end", sum(g[4] for g in got), sum(g[3] for g in got), samples, cases=sum(g[2] for g in got), observed=dict(sorted(labels.items())))
    if prop == "C19":
        large(prop, tier, seed, totals)
    if prop == "C20":
        large_textures(prop, tier, seed, totals)
    if prop in ("C19", "C20"):
        giant(prop, tier, seed, totals)
    if prop == "C21":
        giant_jpeg(prop, seed, totals)
    return RULES[prop], None

def replay(prop, case):
    if case == "giant":
        giant(prop, "quick", 1, Totals())
        print("held")
        return 0
    if case == "large":
        large(prop, "quick", 1, Totals())
        print("held")
        return 0
    if case == "large textures":
        large_textures(prop, "quick", 1, Totals())
        print("held")
        return 0
    if case == "giant jpeg":
        giant_jpeg(prop, 1, Totals())
        print("held")
        return 0
    exes, oracle, shim = tools()
    world = World(exes, oracle, shim, lambda l: None)
    try:
        print(CASES[prop](world, random.Random(case)))
        print("held")
        return 0
    except Bad as e:
        print("violated: %s (%s)" % (e, world.last[-3:]))
        return 1
    finally:
        world.close()
