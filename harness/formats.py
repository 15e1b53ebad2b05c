"""Independent PNG, JPEG and DDS writers and readers, on the standard library only."""
import struct, zlib

SIGNATURE = b"\x89PNG\r\n\x1a\n"
CHANNELS = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
DEPTHS = {0: (1, 2, 4, 8, 16), 2: (8, 16), 3: (1, 2, 4, 8), 4: (8, 16), 6: (8, 16)}
ADAM7 = ((0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2))

def chunk(kind, data):
    return struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data))

def pack_row(samples, depth):
    if depth == 8:
        return bytes(samples)
    if depth == 16:
        return b"".join(struct.pack(">H", s) for s in samples)
    out, acc, n = bytearray(), 0, 0
    for s in samples:
        acc = acc << depth | s
        n += depth
        if n == 8:
            out.append(acc)
            acc = n = 0
    if n:
        out.append(acc << (8 - n))
    return bytes(out)

def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c

def filter_row(kind, row, prev, bpp):
    out = bytearray(len(row))
    for i, x in enumerate(row):
        a = row[i - bpp] if i >= bpp else 0
        b = prev[i]
        c = prev[i - bpp] if i >= bpp else 0
        out[i] = (x - (0, a, b, (a + b) // 2, paeth(a, b, c))[kind]) & 255
    return bytes([kind]) + bytes(out)

def unfilter_row(kind, row, prev, bpp):
    out = bytearray(row)
    if kind == 1:
        for i in range(bpp, len(out)):
            out[i] = (out[i] + out[i - bpp]) & 255
    elif kind == 2:
        for i in range(len(out)):
            out[i] = (out[i] + prev[i]) & 255
    elif kind == 3:
        for i in range(len(out)):
            out[i] = (out[i] + ((out[i - bpp] if i >= bpp else 0) + prev[i]) // 2) & 255
    elif kind == 4:
        for i in range(len(out)):
            a = out[i - bpp] if i >= bpp else 0
            c = prev[i - bpp] if i >= bpp else 0
            out[i] = (out[i] + paeth(a, prev[i], c)) & 255
    elif kind != 0:
        raise ValueError("filter type %d" % kind)
    return out

class Png:
    """An image as a PNG stores it: `rows` of samples, colour type, depth, palette, transparency."""
    def __init__(self, w, h, ctype, depth, rows, palette=None, trns=None):
        self.w, self.h, self.ctype, self.depth, self.rows, self.palette, self.trns = w, h, ctype, depth, rows, palette, trns

    def scan(self, rows, rng):
        bpp = max(1, CHANNELS[self.ctype] * self.depth // 8)
        out, prev = [], None
        for r in rows:
            row = pack_row(r, self.depth)
            prev = prev if prev is not None else bytes(len(row))
            out.append(filter_row(rng.randrange(5), row, prev, bpp))
            prev = row
        return b"".join(out)

    def encode(self, rng, interlace=False, extras=True, level=None, splits=None):
        n = CHANNELS[self.ctype]
        if interlace:
            data = b""
            for x0, y0, dx, dy in ADAM7:
                rows = [[v for x in range(x0, self.w, dx) for v in r[n * x:n * x + n]] for r in self.rows[y0::dy]]
                if rows and rows[0]:
                    data += self.scan(rows, rng)
        else:
            data = self.scan(self.rows, rng)
        z = zlib.compress(data, rng.choice([0, 1, 6, 9]) if level is None else level)
        out = [SIGNATURE, chunk(b"IHDR", struct.pack(">IIBBBBB", self.w, self.h, self.depth, self.ctype, 0, 0, int(interlace)))]
        if extras:
            if rng.random() < 0.3:
                out.append(chunk(b"gAMA", struct.pack(">I", rng.choice([45455, 100000, 22222]))))
            if rng.random() < 0.2:
                out.append(chunk(b"sRGB", b"\0"))
            if rng.random() < 0.2:
                out.append(chunk(b"tEXt", b"Comment\0some text"))
        if self.palette is not None:
            out.append(chunk(b"PLTE", b"".join(bytes(c) for c in self.palette)))
        if self.trns is not None:
            out.append(chunk(b"tRNS", self.trns))
        if extras:
            if rng.random() < 0.2:
                out.append(chunk(b"bKGD", {0: b"\0\1", 4: b"\0\1", 3: b"\0"}.get(self.ctype, b"\0\1\0\1\0\1")))
            if rng.random() < 0.2:
                out.append(chunk(b"pHYs", struct.pack(">IIB", 2835, 1417, 1)))
        # an animation: what a viewer that knows none shows is the default image, as for compressing
        animated = extras and rng.random() < 0.08
        if animated:
            out.append(chunk(b"acTL", struct.pack(">II", 2, 0)))
            inside = rng.random() < 0.5
            if inside:
                out.append(chunk(b"fcTL", struct.pack(">IIIIIHHBB", 0, self.w, self.h, 0, 0, 1, 10, 0, 0)))
        cuts = splits if splits is not None else rng.choice([0, 0, 1, 3])
        at = sorted(rng.randrange(len(z) + 1) for _ in range(cuts))
        for a, b in zip([0] + at, at + [len(z)]):
            out.append(chunk(b"IDAT", z[a:b]))
        if animated:
            number = int(inside)
            for _ in range(2 - inside):
                out.append(chunk(b"fcTL", struct.pack(">IIIIIHHBB", number, 1, 1, self.w - 1, self.h - 1, 1, 10, 0, 0)))
                out.append(chunk(b"fdAT", struct.pack(">I", number + 1) + zlib.compress(self.scan([self.rows[0][:CHANNELS[self.ctype]]], rng))))
                number += 2
        if extras and rng.random() < 0.2:
            out.append(chunk(b"tIME", struct.pack(">HBBBBB", 2020, 2, 3, 4, 5, 6)))
        out.append(chunk(b"IEND", b""))
        return b"".join(out)

    def rgba(self):
        """The pixels as 8-bit RGBA."""
        out = bytearray()
        n, d, top = CHANNELS[self.ctype], self.depth, (1 << self.depth) - 1
        scale = (lambda v: v >> 8) if d == 16 else (lambda v: v * 255 // top)
        key = None
        if self.trns is not None and self.ctype in (0, 2):
            key = list(struct.unpack(">%dH" % n, self.trns))
        for r in self.rows:
            for x in range(self.w):
                px = r[n * x:n * x + n]
                if self.ctype == 3:
                    c = self.palette[px[0]]
                    a = self.trns[px[0]] if self.trns is not None and px[0] < len(self.trns) else 255
                    out += bytes(c) + bytes([a])
                    continue
                v = [scale(s) for s in px]
                if self.ctype in (0, 4):
                    v = [v[0]] * 3 + v[1:]
                if len(v) == 3:
                    v.append(0 if key is not None and px == key else 255)
                out += bytes(v)
        return bytes(out)

def random_png(rng, w, h, ctype=None, depth=None):
    ctype = rng.choice(list(CHANNELS)) if ctype is None else ctype
    depth = rng.choice(DEPTHS[ctype]) if depth is None else depth
    n, top = CHANNELS[ctype], (1 << depth) - 1
    palette = trns = None
    if ctype == 3:
        size = rng.randint(1, top + 1) if rng.random() < 0.7 else top + 1
        palette = [[rng.randrange(256) for _ in range(3)] for _ in range(size)]
        top = size - 1
        if rng.random() < 0.6:
            trns = bytes(rng.choice([0, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.randint(1, size)))
    kind = rng.randrange(4)
    few = [[rng.randint(0, top) for _ in range(n)] for _ in range(rng.randint(1, 5))]
    rows = []
    for y in range(h):
        row = []
        for x in range(w):
            if kind == 0:
                row += [rng.randint(0, top) for _ in range(n)]
            elif kind == 1:
                row += rng.choice(few)
            elif kind == 2:
                row += [(x * (i + 1) * top // max(1, w * (i + 1)) + y * top // (3 * h)) % (top + 1) for i in range(n)]
            else:
                row += few[((x // 4) + (y // 3)) % len(few)]
        rows.append(row)
    if ctype in (0, 2) and rng.random() < 0.6:
        x, y = rng.randrange(w), rng.randrange(h)
        key = rows[y][n * x:n * x + n] if rng.random() < 0.8 else [rng.randint(0, top) for _ in range(n)]
        trns = struct.pack(">%dH" % n, *key)
        if depth == 16 and rng.random() < 0.5:
            # neighbours that differ from the key in the low byte only
            for _ in range(3):
                x, y = rng.randrange(w), rng.randrange(h)
                rows[y][n * x:n * x + n] = [k ^ 1 for k in key]
    return Png(w, h, ctype, depth, rows, palette, trns)

def read_png(data):
    """Width, height and RGBA pixels of a complete, valid 8-bit RGBA PNG; ValueError otherwise."""
    if data[:8] != SIGNATURE:
        raise ValueError("no PNG signature")
    at, z, head, ended = 8, b"", None, False
    while at < len(data):
        if ended:
            raise ValueError("data after IEND")
        if at + 12 > len(data):
            raise ValueError("truncated chunk")
        n, = struct.unpack(">I", data[at:at + 4])
        kind, body, crc = data[at + 4:at + 8], data[at + 8:at + 8 + n], data[at + 8 + n:at + 12 + n]
        if len(crc) < 4 or struct.unpack(">I", crc)[0] != zlib.crc32(kind + body):
            raise ValueError("bad or missing checksum of chunk %r" % kind)
        if kind == b"IHDR":
            head = struct.unpack(">IIBBBBB", body)
        elif kind == b"IDAT":
            z += body
        elif kind == b"IEND":
            ended = True
        at += 12 + n
    if head is None or not ended:
        raise ValueError("no IHDR or IEND")
    w, h, depth, ctype, comp, filt, lace = head
    if (depth, ctype, comp, filt) != (8, 6, 0, 0) or lace not in (0, 1):
        raise ValueError("not an 8-bit RGBA PNG: %r" % (head,))
    d = zlib.decompressobj()
    raw = d.decompress(z)
    if not d.eof or d.unused_data:
        raise ValueError("incomplete image data")
    px = bytearray(4 * w * h)
    pos = 0
    for x0, y0, dx, dy in (ADAM7 if lace else ((0, 0, 1, 1),)):
        cols = len(range(x0, w, dx))
        prev = bytearray(4 * cols)
        for y in range(y0, h, dy) if cols else ():
            if pos + 1 + 4 * cols > len(raw):
                raise ValueError("too little image data")
            prev = unfilter_row(raw[pos], raw[pos + 1:pos + 1 + 4 * cols], prev, 4)
            pos += 1 + 4 * cols
            if dx == 1:
                px[4 * w * y:4 * w * (y + 1)] = prev
            else:
                for i, x in enumerate(range(x0, w, dx)):
                    px[4 * (w * y + x):4 * (w * y + x) + 4] = prev[4 * i:4 * i + 4]
    if pos != len(raw):
        raise ValueError("too much image data")
    return w, h, bytes(px)

# ---------------------------------------------------------------- JPEG (baseline)

def segment(marker, data):
    return bytes([0xff, marker]) + struct.pack(">H", len(data) + 2) + data

class Bits:
    def __init__(self):
        self.out, self.acc, self.n = bytearray(), 0, 0

    def put(self, v, n):
        self.acc = self.acc << n | v & ((1 << n) - 1)
        self.n += n
        while self.n >= 8:
            b = self.acc >> (self.n - 8) & 255
            self.out.append(b)
            if b == 255:
                self.out.append(0)
            self.n -= 8
        self.acc &= (1 << self.n) - 1

    def flush(self):
        if self.n:
            self.put((1 << (8 - self.n)) - 1, 8 - self.n)

ZZ_MAX = 63
# simple tables: 12 DC categories with 4-bit codes, 162 AC symbols with 8-bit codes
AC = [0x00, 0xf0] + [r << 4 | s for r in range(16) for s in range(1, 11)]
AC_CODE = {s: i for i, s in enumerate(AC)}
DHT = (b"\x00" + bytes([0, 0, 0, 12] + [0] * 12) + bytes(range(12)) +
       b"\x10" + bytes([0] * 7 + [len(AC)] + [0] * 8) + bytes(AC))

def magnitude(v):
    n = abs(v).bit_length()
    return n, v if v >= 0 else v + (1 << n) - 1

def put_ac(bits, ac, first, last):
    """The coefficients at zigzag positions first..last, run-length coded"""
    run, end = 0, max((i for i in ac if ac[i] and first <= i <= last), default=0)
    for i in range(first, end + 1):
        a = ac.get(i, 0)
        if a == 0:
            run += 1
            continue
        while run > 15:
            bits.put(AC_CODE[0xf0], 8)
            run -= 16
        k, m = magnitude(a)
        bits.put(AC_CODE[run << 4 | k], 8)
        bits.put(m, k)
        run = 0
    if end < last:
        bits.put(AC_CODE[0], 8)

def encode_jpeg(w, h, sampling, blocks, q=8, restart=0, adobe=None, jfif=True, ids=(1, 2, 3, 4), progressive=None):
    """Baseline or progressive JPEG. `sampling`: (h, v) per component; `blocks(component, bx, by)`: DC and {position: AC}.
    Every quantiser step is q. `progressive`: the random choices of scans, or None."""
    n = len(sampling)
    out = [b"\xff\xd8"]
    if jfif:
        out.append(segment(0xe0, b"JFIF\0\1\1\0\0\1\0\1\0\0"))
    if adobe is not None:
        out.append(segment(0xee, b"Adobe\0\x64\0\0\0\0" + bytes([adobe])))
    out.append(segment(0xdb, b"\0" + bytes([q] * 64)))
    out.append(segment(0xc2 if progressive else 0xc0, struct.pack(">BHHB", 8, h, w, n) + b"".join(bytes([ids[i], s[0] << 4 | s[1], 0]) for i, s in enumerate(sampling))))
    out.append(segment(0xc4, DHT))
    if restart:
        out.append(segment(0xdd, struct.pack(">H", restart)))
    hm, vm = max(s[0] for s in sampling), max(s[1] for s in sampling)
    if n == 1:
        hm = vm = 1
        sampling = [(1, 1)]
    mx, my = -(-w // (8 * hm)), -(-h // (8 * vm))
    have = {}
    def block(c, x, y):
        if (c, x, y) not in have:
            have[c, x, y] = blocks(c, x, y)
        return have[c, x, y]
    def scan(components, first, last, high, low, put):
        out.append(segment(0xda, bytes([len(components)]) + b"".join(bytes([ids[c], 0]) for c in components) + bytes([first, last, high << 4 | low])))
        if len(components) == 1:
            # a scan of one component has no padding blocks
            c = components[0]
            sh, sv = sampling[c]
            units = [[(c, x, y)] for y in range(-(-(-(-h * sv // vm)) // 8)) for x in range(-(-(-(-w * sh // hm)) // 8))]
        else:
            units = [[(c, x * sampling[c][0] + u, y * sampling[c][1] + v) for c in components for v in range(sampling[c][1]) for u in range(sampling[c][0])]
                     for y in range(my) for x in range(mx)]
        bits, pred, rst = Bits(), [0] * n, 0
        for i, unit in enumerate(units):
            if restart and i and i % restart == 0:
                bits.flush()
                bits.out += bytes([0xff, 0xd0 + rst % 8])
                rst, pred = rst + 1, [0] * n
            for c, x, y in unit:
                put(bits, pred, c, block(c, x, y))
        bits.flush()
        out.append(bytes(bits.out))
    def put_dc(bits, pred, c, v):
        k, m = magnitude(v - pred[c])
        pred[c] = v
        bits.put(k, 4)
        bits.put(m, k)
    everything = list(range(n))
    if not progressive:
        def whole(bits, pred, c, b):
            put_dc(bits, pred, c, b[0])
            put_ac(bits, b[1], 1, 63)
        scan(everything, 0, 63, 0, 0, whole)
    else:
        low = progressive.choice([0, 0, 1, 2])
        first = [everything] if progressive.random() < 0.6 else [[c] for c in everything]
        # all blocks have to exist before any scan leaves out the padding
        for y in range(my):
            for x in range(mx):
                for c in everything:
                    for v in range(sampling[c][1]):
                        for u in range(sampling[c][0]):
                            block(c, x * sampling[c][0] + u, y * sampling[c][1] + v)
        for cs in first:
            scan(cs, 0, 0, 0, low, lambda bits, pred, c, b: put_dc(bits, pred, c, b[0] >> low))
        later = []
        for c in everything:
            cut = progressive.choice([1, 5, 20])
            if any(b[1] for k, b in have.items() if k[0] == c):
                later += [(c, 1, cut), (c, cut + 1, 63)]
        progressive.shuffle(later)
        for c, a, z in later:
            scan([c], a, z, 0, 0, lambda bits, pred, c, b: put_ac(bits, b[1], a, z))
        for k in range(low, 0, -1):
            for cs in first:
                scan(cs, 0, 0, k, k - 1, lambda bits, pred, c, b: bits.put(b[0] >> (k - 1) & 1, 1))
    return b"".join(out) + b"\xff\xd9"

# ---------------------------------------------------------------- DDS

BLOCK = {"bc1": 8, "bc2": 16, "bc3": 16, "bc4": 8, "bc5": 16}
DXGI = {"bc1": 72, "bc2": 75, "bc3": 78, "bc4": 80, "bc5": 83}
FOURCC = {"bc1": b"DXT1", "bc2": b"DXT3", "bc3": b"DXT5"}

def png_complete(data, size):
    """Whether the IDAT data in a possibly truncated PNG suffices for `size` bytes of scan lines"""
    z, at = b"", 8
    while at + 8 <= len(data):
        n, = struct.unpack(">I", data[at:at + 4])
        if data[at + 4:at + 8] == b"IDAT":
            z += data[at + 8:at + 8 + n]
        at += 12 + n
    return len(zlib.decompressobj().decompress(z)) >= size

def payload_size(fmt, w, h):
    return -(-w // 4) * -(-h // 4) * BLOCK[fmt]

def dds(fmt, w, h, payload, legacy=False, flags=0x1007, linear=0, depth=0, mips=0, caps=0x1000, caps2=0, dimension=3,
        misc=0, array=1, alpha=0, dxgi=None, fourcc=None, pf_flags=4, reserved=bytes(44)):
    cc = fourcc or (FOURCC[fmt] if legacy else b"DX10")
    head = b"DDS " + struct.pack("<IIIIIII", 124, flags, h, w, linear, depth, mips) + reserved
    head += struct.pack("<II4sIIIII", 32, pf_flags, cc, 0, 0, 0, 0, 0)
    head += struct.pack("<IIIII", caps, caps2, 0, 0, 0)
    if cc == b"DX10":
        head += struct.pack("<IIIII", DXGI[fmt] if dxgi is None else dxgi, dimension, misc, array, alpha)
    return head + payload

def read_dds(data):
    """The fields of a DDS file as a dict; ValueError if it is not one."""
    if len(data) < 128 or data[:4] != b"DDS ":
        raise ValueError("no DDS header")
    f = dict(zip(("size", "flags", "height", "width", "linear", "depth", "mips"), struct.unpack("<7I", data[4:32])))
    f["pf_size"], f["pf_flags"], f["fourcc"] = struct.unpack("<II4s", data[76:88])
    f["caps"], f["caps2"] = struct.unpack("<II", data[108:116])
    if f["size"] != 124 or f["pf_size"] != 32:
        raise ValueError("bad header sizes")
    at = 128
    if f["pf_flags"] & 4 and f["fourcc"] == b"DX10":
        if len(data) < 148:
            raise ValueError("truncated DX10 header")
        f.update(zip(("dxgi", "dimension", "misc", "array", "alpha"), struct.unpack("<5I", data[128:148])))
        at = 148
    f["payload"] = data[at:]
    return f

def understood_dds(data):
    """(format, width, height, payload) of a file the decompress command has to accept, or None."""
    try:
        f = read_dds(data)
    except ValueError:
        return None
    if not f["pf_flags"] & 4:
        return None
    if f["fourcc"] == b"DX10":
        fmt = {v: k for k, v in DXGI.items()}.get(f["dxgi"])
        if f["dimension"] != 3 or f["alpha"] > 4:
            return None
    else:
        fmt = {v: k for k, v in FOURCC.items()}.get(f["fourcc"])
    w, h = f["width"], f["height"]
    if fmt is None or w == 0 or h == 0 or len(f["payload"]) < payload_size(fmt, w, h):
        return None
    return fmt, w, h, f["payload"][:payload_size(fmt, w, h)]
