"""Runs the real code: compiles /repo's crate and the probes natively for a configuration, feeds inputs, and
compares with the contracts read as an executable specification.  Used to confirm counterexamples and as the
bounded stand-in for obligations the verifier leaves undecided; never to discharge one."""
import os, random, re, shutil, struct, subprocess, tempfile
import build, contracts
from build import CONFIGS, must, run, toolchain, VERIF

QEMU = {"x86_64": "qemu-x86_64 -cpu max", "i686": "qemu-i386 -cpu max", "aarch64": "qemu-aarch64 -cpu max", "aarch64_be": "qemu-aarch64_be -cpu max",
        "armv7": "qemu-arm -cpu max", "riscv64gc": "qemu-riscv64 -cpu max", "riscv32imac": "qemu-riscv32 -cpu max"}


def probe_index():
    """position of every probe in the driver's table, from the same source text"""
    src = open(VERIF + "/probe/probe.rs").read()
    names = []
    for m in re.finditer(r'^    b[124] b[124] B[124], \d+ :([^;]*);', src, re.M):
        w = m.group(1).split()
        order = "new arr ref try store and or xor not anda ora xora eq ne isz zero dflt enc dec encl decl che chd rep unrep clone".split()
        pos = "new arr ref try store and or xor not anda ora xora eq ne isz zero dflt enc dec encl decl che chd rep unrep clone".split()
        assert [x.split('_')[0] for x in w] == pos, w
        names += w
    body = src[src.index("mod conv {"):]
    body = body[:body.index("pub const T")]
    names += re.findall(r'^        (\w+)\(i, o, p, n\)', body, re.M)
    for m in re.finditer(r'^cipher!\(\w+ \w+ \w+ \d+ :([^)]*)\);', src, re.M):
        names += m.group(1).split()
    return {n: k for k, n in enumerate(names)}


INDEX = probe_index()
GUARD = 1 << 22         # slice offset that means: right in front of memory that cannot be accessed


def core_rlib(target):
    import hashlib
    rustc, src = toolchain()
    ver = subprocess.run([rustc, "-vV"], stdout=subprocess.PIPE).stdout
    key = hashlib.sha256(ver + b"r2").hexdigest()[:12]
    cache = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
    d = os.path.join(cache, "corelib-%s-%s" % (target, key))
    if os.path.exists(d + "/ok"):
        return d
    os.makedirs(cache, exist_ok=True)
    t = tempfile.mkdtemp(dir=cache)
    try:
        b = ["--target", target, "--emit=link,metadata", "--out-dir", t, "--cap-lints", "allow", "-Cpanic=abort", "-Copt-level=1", "--crate-type", "rlib"]
        must("core for " + target, [rustc, "--edition", "2024", "--crate-name", "core", "-Zforce-unstable-if-unmarked", "-Zalways-encode-mir"] + b + [src + "/core/src/lib.rs"])
        open(t + "/cb.rs", "w").write("#![feature(compiler_builtins,no_core)] #![allow(internal_features)] #![no_core] #![compiler_builtins]\n")
        must("compiler_builtins for " + target, [rustc, "--edition", "2021", "--crate-name", "compiler_builtins", "-Zforce-unstable-if-unmarked", "--sysroot", "/nonexistent"] + b + [t + "/cb.rs"])
        must("cfg-if for " + target, [rustc, "--edition", "2018", "--crate-name", "cfg_if", "--sysroot", "/nonexistent", "-L", t, "--extern", "core=" + t + "/libcore.rlib"] + b + [build.cfg_if_src()])
        open(t + "/ok", "w").close()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True)
        raise
    return d


def build_driver(name, out):
    """native (or emulated) executable of the probes for configuration `name`"""
    target, cfgs, tf, dbg, _ = CONFIGS[name]
    rustc, _ = toolchain()
    cd = core_rlib(target)
    os.makedirs(out, exist_ok=True)
    common = ["--out-dir", out, "--edition", "2021", "--target", target, "-Copt-level=0", "-Cpanic=abort", "-Cdebuginfo=0", "-Coverflow-checks=" + ("yes" if dbg else "no"),
              "-Cdebug-assertions=" + ("yes" if dbg else "no"), "--cap-lints", "allow", "--sysroot", "/nonexistent", "-L", cd, "--extern", "core=" + cd + "/libcore.rlib"]
    if target.startswith("aarch64"):
        tf = (tf + "," if tf else "") + "-outline-atomics"      # the helpers live in the compiler's runtime library
    if tf:
        common.append("-Ctarget-feature=" + tf)
    must("aes_crypto (%s)" % name, [rustc, "--crate-name", "aes_crypto", "--crate-type", "rlib"] + cfgs + common + ["--emit=metadata,link", "--extern", "cfg_if=" + cd + "/libcfg_if.rlib", build.lib_src()])
    lld = os.path.join(os.path.dirname(os.path.dirname(rustc)), "lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld")
    must("driver (%s)" % name, [rustc, "--crate-name", "probe", "--crate-type", "bin", "--cfg", "driver"] + common +
         ["--extern", "aes_crypto=" + out + "/libaes_crypto.rlib", "-L", out, "-Clinker=" + lld, "-Clinker-flavor=ld.lld", "-Crelocation-model=static", "-Cdefault-linker-libraries=no",
          "-Clink-arg=-static", "-Clink-arg=--gc-sections", "-Clink-arg=--entry=_start", VERIF + "/probe/probe.rs"])
    return out + "/probe"


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def runner(name):
    """command prefix that executes the configuration here; None when nothing can"""
    target, _, tf, _, _ = CONFIGS[name]
    arch = target.split("-")[0]
    if arch in ("x86_64", "i686"):
        need = {f.lstrip("+").replace(".", "_") for f in tf.split(",") if f.startswith("+")}
        if need <= cpu_flags() and (arch == "x86_64" or _exec32()):
            return []
        if "avx512f" in need:
            return None
    if arch not in QEMU:
        return None
    q = QEMU[arch].split()
    return q if shutil.which(q[0]) else None


def _exec32():
    return False


class Driver:
    def __init__(self, name, out):
        self.name = name
        self.run = runner(name)
        self.big = False
        self.exe = build_driver(name, out) if self.run is not None else None

    @property
    def usable(self):
        return self.exe is not None

    def calls(self, recs, timeout=120):
        """recs: list of (probe, i, olen, p, poff, n, fill) -> list of ('ok', canaries, ret, emit, o, p) | ('panic',) | ('died', code)"""
        out = []
        k = 0
        while k < len(recs):
            data = b"".join(struct.pack("<6IQ", INDEX[r[0]], len(r[1]), r[2], len(r[3]), r[4], r[6], r[5]) + bytes(r[1]) + bytes(r[3]) for r in recs[k:])
            try:
                q = subprocess.run(self.run + [self.exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                b, rc = q.stdout, q.returncode
            except subprocess.TimeoutExpired as e:
                b, rc = e.stdout or b"", -99
            pos = 0
            while k < len(recs) and pos < len(b):
                if b[pos] == 2:
                    out.append(('panic',))
                    pos += 1
                    k += 1
                    break
                if pos + 14 > len(b):
                    break
                ret, ne = struct.unpack("<QI", b[pos + 2:pos + 14])
                end = pos + 14 + ne + recs[k][2] + len(recs[k][3])
                if end > len(b):
                    break
                e = pos + 14
                out.append(('ok', b[pos + 1], ret, b[e:e + ne], b[e + ne:e + ne + recs[k][2]], b[e + ne + recs[k][2]:end]))
                pos = end
                k += 1
            else:
                if k < len(recs):
                    out.append(('died', rc))
                    k += 1
                continue
        return out


def size_of(probe):
    return 16 * int(probe.rsplit("_", 1)[1])


def expected(probe, i, p, n, perm=None, word=64):
    """contract of the probe on concrete data -> ('ok', ret, emit, o prefix, p) | ('panic',)"""
    k = contracts.TABLE[probe]
    mask = (1 << word) - 1
    if k.kind == 'plain':
        r = k.spec(contracts.IntS, list(i))
        ret = r.ret[1] if r.ret.__class__ is tuple else r.ret
        return 'ok', ret & mask, bytes(r.emit), bytes(r.out), bytes(p)
    if k.kind == 'try':
        N = k.nout
        if n >= N:
            return 'ok', mask, b"", bytes(p[:N]), bytes(p)
        return 'ok', n, b"", b"", bytes(p)
    if k.kind == 'store':
        N = k.nin
        if n >= N:
            return 'ok', 0, b"", b"", bytes(i[:N]) + bytes(p[N:])
        return ('panic',)
    if k.kind == 'chain':
        size = k.nin
        if n == 0:
            return ('panic',)
        keys = []
        for j in range(n):
            m = p[size * j:size * j + size]
            kb = [0] * size
            for b in range(size):
                kb[perm[b]] = m[b]
            keys.append(kb)
        S = contracts.IntS
        f = contracts.per_block(lambda S, a, b: getattr(S.aes, k.spec)(a, b))
        s = [a ^ b for a, b in zip(i[:size], keys[0])]
        for kk in keys[1:]:
            s = f(S, s, kk)
        return 'ok', 0, b"", bytes(s), bytes(p)
    raise KeyError(k.kind)


def judge(probe, got, want, olen, fill):
    """None when the real call did what the contract says, else a description"""
    if got[0] == 'died':
        return "the program was killed (%s)" % got[1]
    if want[0] == 'panic':
        return None if got[0] == 'panic' else "returned normally; the contract requires a panic"
    if got[0] == 'panic':
        return "panicked"
    _, can, ret, em, o, p = got
    _, wret, wem, wo, wp = want
    if not can:
        return "wrote outside the buffers it was given"
    if ret != wret:
        return "returned %d instead of %d" % (ret, wret)
    if em != wem:
        return "printed %r instead of %r" % (em.decode("latin1"), wem.decode("latin1"))
    wo = wo + bytes([fill]) * (olen - len(wo))
    if o != wo:
        return "wrote %s instead of %s" % (o.hex(), wo.hex())
    if p != wp:
        return "slice is %s instead of %s" % (p.hex(), wp.hex())
    return None


def random_input(R, n, mode):
    if mode == 0:
        return bytes(R.getrandbits(8) for _ in range(n))
    if mode == 1:
        b = bytes(R.getrandbits(8) for _ in range(16))
        return (b * (n // 16 + 1))[:n]
    if mode == 2:
        return bytes(R.choice((0, 1, 0x7f, 0x80, 0xff, R.getrandbits(8))) for _ in range(n))
    if mode == 3:           # one bit set
        b = bytearray(n)
        if n:
            b[R.randrange(n)] = 1 << R.randrange(8)
        return bytes(b)
    if mode == 4:           # two equal halves that differ in one bit
        h = n // 2
        b = bytearray(bytes(R.getrandbits(8) for _ in range(h)) * 2 + bytes(n - 2 * h))
        if n:
            b[R.randrange(n)] ^= 1 << R.randrange(8)
        return bytes(b)
    if mode == 5:
        return bytes([R.getrandbits(8)]) * n
    if mode == 6:
        return bytes(n)
    return bytes((R.getrandbits(8) if R.random() < .3 else 0) for _ in range(n))


class Real:
    """replays on one configuration"""

    def __init__(self, name, out):
        self.d = Driver(name, out)
        self.word = 32 if CONFIGS[name][0].split("-")[0] in ("i686", "armv7", "riscv32imac") else 64
        self.perm = {}

    def perm_of(self, size):
        if size not in self.perm:
            r = self.d.calls([("rep_%d" % (size // 16), bytes(range(size)), size, b"", 0, 0, 0xA5)])[0]
            self.perm[size] = list(r[4]) if r[0] == 'ok' and sorted(r[4]) == list(range(size)) else None
        return self.perm[size]

    def record(self, probe, i, p=b"", n=0, poff=0, fill=0xA5):
        k = contracts.TABLE[probe]
        i = bytes(i)[:k.nin] + bytes(max(0, k.nin - len(i)))
        return (probe, i, k.nout, bytes(p), poff, n, fill)

    def check(self, recs):
        """-> list of None | description, parallel to recs"""
        out = []
        for r, g in zip(recs, self.d.calls(recs)):
            k = contracts.TABLE[r[0]]
            perm = self.perm_of(k.nin) if k.kind == 'chain' else None
            if k.kind == 'chain' and perm is None and r[5]:
                out.append(None)
                continue
            out.append(judge(r[0], g, expected(r[0], r[1], r[3], r[5], perm, self.word), r[2], r[6]))
        return out

    def generate(self, R, probe, count):
        k = contracts.TABLE[probe]
        recs = []
        for c in range(count):
            mode = c % 8
            i = random_input(R, k.nin, mode)
            fill = (0xA5, 0x5A, 0, 0xFF)[c // 8 % 4]
            if k.kind == 'plain':
                recs.append(self.record(probe, i, fill=fill))
            elif k.kind in ('try', 'store'):
                N = k.nout or k.nin
                n = R.choice([0, 1, N - 1, N, N + 1, 2 * N, R.randrange(0, N), R.randrange(N, 4 * N), R.randrange(0, 4096)] if c % 16 != 7 else [255, 256, 256 + N, 65535, 65536, 65536 + N, (1 << 17) + R.randrange(0, 2 * N), (1 << 20) + N])
                recs.append(self.record(probe, i, random_input(R, n, (c // 3) % 8), n, GUARD if c % 3 == 1 else R.randrange(0, 16), fill))
            else:
                n = R.choice([0, 1, 2, 3, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257] if c % 4 else [R.randrange(0, 300)] if c % 16 else [600])
                recs.append(self.record(probe, i, random_input(R, k.nin * n, (c // 3) % 8), n, GUARD if c % 3 == 1 else 0, fill))
        return recs
