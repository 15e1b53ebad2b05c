"""Confirms a planted bug in a scratch copy and keeps it under seeded/. Used by hand while developing, by no check."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant/repo"

RUST = '''"""Builds demo.rs against the library in the current directory and runs it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/src")
    shutil.copy(here + "/demo.rs", t + "/src/main.rs")
    shutil.copy(repo + "/Cargo.lock", t + "/Cargo.lock")
    with open(t + "/Cargo.toml", "w") as f:
        f.write(\'[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ntexpresso = { path = "%s/lib", features = [%s] }\\n%s\' % (repo, "@FEATURES@", "@DEPS@"))
    r = subprocess.call(["cargo", @TOOLCHAIN@"run", "-q", "--offline"@FLAGS@, "--target-dir", t + "/target"], cwd=t, env=dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0"@ENV@))
sys.exit(1 if r else 0)
'''
CLI = '''"""Builds the executable of the current directory and watches it at work."""
import os, struct, subprocess, sys, tempfile, zlib
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
def fail(text):
    print("FAILED: " + text)
    sys.exit(1)
def chunk(k, d):
    return struct.pack(">I", len(d)) + k + d + struct.pack(">I", zlib.crc32(k + d))
def png(w, h, px, ctype=6, depth=8, extra=b""):
    n = len(px) // h
    return b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0)) + extra + chunk(b"IDAT", zlib.compress(b"".join(b"\\0" + px[n * y:n * y + n] for y in range(h)))) + chunk(b"IEND", b"")
def dds(w, h, payload, dxgi=None, fourcc=b"DX10", alpha=1):
    d = b"DDS " + struct.pack("<7I", 124, 0x1007, h, w, 0, 0, 0) + bytes(44) + struct.pack("<II4s5I", 32, 4, fourcc, 0, 0, 0, 0, 0) + struct.pack("<5I", 0x1000, 0, 0, 0, 0)
    return d + (struct.pack("<5I", dxgi, 3, 0, 1, alpha) if dxgi else b"") + payload
def pixels(data):
    """Width, height and RGBA of a PNG as the executable writes them (8-bit RGBA, not interlaced)"""
    w, h = struct.unpack(">II", data[16:24])
    z, at = b"", 8
    while at < len(data):
        n, = struct.unpack(">I", data[at:at + 4])
        if data[at + 4:at + 8] == b"IDAT":
            z += data[at + 8:at + 8 + n]
        at += 12 + n
    raw, out, prev = zlib.decompress(z), b"", bytes(4 * w)
    for y in range(h):
        k, row = raw[y * (4 * w + 1)], bytearray(raw[y * (4 * w + 1) + 1:(y + 1) * (4 * w + 1)])
        for i in range(4 * w):
            a, b, c = row[i - 4] if i > 3 else 0, prev[i], prev[i - 4] if i > 3 else 0
            p = a + b - c
            q = min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
            row[i] = (row[i] + (0, a, b, (a + b) // 2, q)[k]) & 255
        prev = bytes(row)
        out += prev
    return w, h, out
with tempfile.TemporaryDirectory() as t:
    if subprocess.call(["cargo", "build", "-q", "--offline", "-p", "texpresso_cli", "--target-dir", t + "/target"], cwd=repo):
        sys.exit(1)
    exe = t + "/target/debug/texpresso"
    os.mkdir(t + "/w")
    os.chdir(t + "/w")
    def run(*args, **k):
        return subprocess.run([exe] + list(args), stderr=subprocess.DEVNULL, timeout=100, **k).returncode
    exec(compile(open(here + "/case.py").read(), "case.py", "exec"))
'''

def sh(cmd, cwd=SCRATCH, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, **k)

def reset():
    sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")

def works():
    """Builds, and passes the existing tests"""
    for c in ("cargo build --workspace --offline", "cargo check -p texpresso --offline", "cargo check -p texpresso_cli --no-default-features --offline"):
        r = sh(c)
        if r.returncode:
            return "does not build: " + r.stdout[-1500:]
    r = sh("cargo test --workspace --no-fail-fast --offline")
    n = len(re.findall(r"^test \S+ \.\.\. ok", r.stdout, re.M))
    if r.returncode or n != 19:
        return "fails tests: " + r.stdout[-1500:]
    return None

def tail(r):
    return " | ".join(l for l in r.stdout.splitlines() if "panicked" not in l and "note:" not in l and l.strip())[-300:]

def bug(name, prop, needs, what, edits, rs=None, cli=None, py=None, features="", deps="", release=True, toolchain="", env="", flags=None):
    if len(sys.argv) > 1 and name not in sys.argv[1:]:
        return
    dest = os.path.join(HERE, "seeded", name)
    if os.path.exists(dest + "/patch.diff") and len(sys.argv) == 1:
        return
    reset()
    for file, old, new in edits:
        p = os.path.join(SCRATCH, file)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: %d matches in %s for %r" % (name, s.count(old), file, old[:60]))
            return
        open(p, "w").write(s.replace(old, new))
    why = works()
    if why:
        print(name, why)
        return
    diff = sh("git diff").stdout
    os.makedirs(dest, exist_ok=True)
    open(dest + "/patch.diff", "w").write(diff)
    if py:
        open(dest + "/demo.py", "w").write(py)
        if rs:
            open(dest + "/demo.rs", "w").write(rs)
    elif rs:
        f = flags if flags is not None else ', "--release"' if release else ""
        open(dest + "/demo.py", "w").write(RUST.replace("@FEATURES@", ", ".join('\\"%s\\"' % x for x in features.split())).replace("@DEPS@", deps).replace("@FLAGS@", f)
                                           .replace("@TOOLCHAIN@", toolchain).replace("@ENV@", env))
        open(dest + "/demo.rs", "w").write(rs)
    else:
        open(dest + "/demo.py", "w").write(CLI)
        open(dest + "/case.py", "w").write(cli)
    open(dest + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(dest + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(dest + "/meta.json", "w"), indent=1)
    bad = sh("bash %s/demo.sh" % dest)
    reset()
    good = sh("bash %s/demo.sh" % dest)
    if bad.returncode == 0 or good.returncode:
        print(name, "DEMO WRONG: patched %d, unpatched %d\n%s\n%s" % (bad.returncode, good.returncode, tail(bad), tail(good)))
        shutil.rmtree(dest)
        return
    print(name, "kept;", tail(bad))
