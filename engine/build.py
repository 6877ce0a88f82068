"""Compiles /repo's current sources, and the probe program against them, to LLVM IR for each configuration.

The IR is what the real compiler produces from the real source (opt-level 0, before any LLVM pass, panic=abort).
core is compiled from the toolchain's own source for every target, because no prebuilt cross core is installed."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

X, A, AB = "x86_64-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "aarch64_be-unknown-linux-gnu"
EC, BR = "arm64ec-pc-windows-msvc", "armebv7r-none-eabihf"
V7, R64, R32, I6 = "armv7-unknown-linux-gnueabihf", "riscv64gc-unknown-linux-gnu", "riscv32imac-unknown-none-elf", "i686-unknown-linux-gnu"
CT, NI = ["--cfg", 'feature="constant-time"'], ["--cfg", 'feature="nightly"']

# name: target, cfgs, target features, debug assertions, what the configuration selects
CONFIGS = {
    "sw":      (X, [], "-aes", True, "table-based software backend, x86_64"),
    "ct":      (X, CT, "-aes", True, "constant-time software backend, x86_64"),
    "aesni":   (X, [], "+sse4.1,+aes", True, "AES-NI"),
    "vaes":    (X, NI, "+sse4.1,+aes,+avx2,+vaes", True, "AES-NI with VAES (256-bit) two- and four-block types"),
    "avx512":  (X, NI, "+sse4.1,+aes,+avx2,+vaes,+avx512f", True, "AES-NI with VAES and AVX-512F"),
    "neon":    (A, [], "+aes,+neon", True, "Arm Cryptography Extension, AArch64"),
    "armv8":   (V7, NI, "+v8,+aes,+neon", True, "Arm Cryptography Extension, 32-bit Armv8"),
    "rv64":    (R64, NI, "+zkne,+zknd", True, "RISC-V scalar cryptography, RV64"),
    "rv32":    (R32, NI, "+zkne,+zknd", True, "RISC-V scalar cryptography, RV32"),
    "sw-be":   (AB, [], "", True, "table-based software backend, big-endian"),
    "ct-be":   (AB, CT, "", True, "constant-time software backend, big-endian"),
    "sw-32":   (R32, [], "", True, "table-based software backend, 32-bit"),
    "ct-32":   (R32, CT, "", True, "constant-time software backend, 32-bit"),
    "be-aes":  (AB, [], "+aes,+neon", True, "big-endian AArch64 with AES instructions (software backend)"),
    "ct-aes":  (X, CT, "+sse4.1,+aes", True, "constant-time feature on a CPU with AES-NI"),
    "sw-rel":  (X, [], "-aes", False, "table-based software backend, no debug assertions"),
    "ct-rel":  (X, CT, "-aes", False, "constant-time software backend, no debug assertions"),
    "aesni-rel": (X, [], "+sse4.1,+aes", False, "AES-NI, no debug assertions"),
    "aesni-32": (I6, [], "+sse2,+sse4.1,+aes", True, "AES-NI, 32-bit x86"),
    "avx512-32": (I6, NI, "+sse2,+sse4.1,+aes,+avx2,+vaes,+avx512f", True, "AES-NI with VAES and AVX-512F, 32-bit x86"),
    "ec":      (EC, [], "+aes,+neon", True, "Arm Cryptography Extension, ARM64EC"),
    "vaes-rel": (X, NI, "+sse4.1,+aes,+avx2,+vaes", False, "AES-NI with VAES, no debug assertions"),
    "neon-rel": (A, [], "+aes,+neon", False, "Arm Cryptography Extension, AArch64, no debug assertions"),
    # the thorough tier and the compile check of C14 only
    "vaes-32": (I6, NI, "+sse2,+sse4.1,+aes,+avx2,+vaes", True, "AES-NI with VAES, 32-bit x86"),
    "avx512-rel": (X, NI, "+sse4.1,+aes,+avx2,+vaes,+avx512f", False, "AES-NI with VAES and AVX-512F, no debug assertions"),
    "armv8-rel": (V7, NI, "+v8,+aes,+neon", False, "Arm Cryptography Extension, 32-bit Armv8, no debug assertions"),
    "rv64-rel": (R64, NI, "+zkne,+zknd", False, "RISC-V scalar cryptography, RV64, no debug assertions"),
    "rv32-rel": (R32, NI, "+zkne,+zknd", False, "RISC-V scalar cryptography, RV32, no debug assertions"),
    "aesni-ni": (X, NI, "+sse4.1,+aes", True, "AES-NI, nightly feature without VAES"),
    "avx512-novaes": (X, NI, "+sse4.1,+aes,+avx512f", True, "AES-NI, nightly feature, AVX-512F without VAES"),
    "sw-ni":   (X, NI, "-aes", True, "table-based software backend with the nightly feature"),
    "sw-armbe": (BR, NI, "+v8,+aes,+neon", True, "big-endian 32-bit Armv8 with AES instructions (software backend)"),
    "sw-armv8": (V7, [], "+v8,+aes,+neon", True, "32-bit Armv8 without the nightly feature (software backend)"),
    "sw-rv64": (R64, [], "+zkne,+zknd", True, "RV64 without the nightly feature (software backend)"),
    "ct-rv32": (R32, NI + CT, "+zkne", True, "constant-time software backend, RV32 with only half of the extension"),
}
EXTRA = list(CONFIGS)[list(CONFIGS).index("vaes-32"):]


class BuildError(Exception):
    def __init__(self, what, out):
        Exception.__init__(self, what)
        self.out = out


def toolchain():
    for p in sorted(glob.glob("/root/.rustup/toolchains/stable-*/bin/rustc")) + [shutil.which("rustc") or ""]:
        if p and os.path.exists(p):
            src = os.path.join(os.path.dirname(os.path.dirname(p)), "lib/rustlib/src/rust/library")
            if os.path.isdir(src):
                return p, src
    raise BuildError("no Rust toolchain with rust-src", "")


def run(cmd, timeout=600):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(RUSTC_BOOTSTRAP="1", CARGO_PKG_VERSION="1", CARGO_PKG_NAME="aes_crypto")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def must(what, cmd):
    rc, out = run(cmd)
    if rc:
        raise BuildError(what, out)


def core_dir(target):
    """core, compiler_builtins (stub) and cfg-if metadata for a target; cached by toolchain version (never depends on /repo)."""
    rustc, src = toolchain()
    ver = subprocess.run([rustc, "-vV"], stdout=subprocess.PIPE).stdout
    key = hashlib.sha256(ver + b"3").hexdigest()[:12]
    cache = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
    d = os.path.join(cache, "core-%s-%s" % (target, key))
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(cache, exist_ok=True)
    t = tempfile.mkdtemp(dir=cache)
    try:
        b = ["--target", target, "--emit=metadata", "--out-dir", t, "--cap-lints", "allow", "-Cpanic=abort", "--crate-type", "rlib"]
        must("core for " + target, [rustc, "--edition", "2024", "--crate-name", "core", "-Zforce-unstable-if-unmarked", "-Zalways-encode-mir"] + b + [src + "/core/src/lib.rs"])
        open(t + "/cb.rs", "w").write("#![feature(compiler_builtins,no_core)] #![allow(internal_features)] #![no_core] #![compiler_builtins]\n")
        must("compiler_builtins for " + target, [rustc, "--edition", "2021", "--crate-name", "compiler_builtins", "-Zforce-unstable-if-unmarked", "--sysroot", "/nonexistent"] + b + [t + "/cb.rs"])
        must("cfg-if for " + target, [rustc, "--edition", "2018", "--crate-name", "cfg_if", "--sysroot", "/nonexistent", "-L", t, "--extern", "core=" + t + "/libcore.rmeta"] + b + [cfg_if_src()])
        open(t + "/ok", "w").close()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True)
        raise
    return d


def cfg_if_src():
    c = sorted(glob.glob("/root/.cargo/registry/src/*/cfg-if-1.*/src/lib.rs"))
    if not c:
        raise BuildError("cfg-if source not in the cargo cache", "")
    return c[0]


def lib_src():
    return os.path.join(REPO, "src/lib.rs")


def build_ir(name, out):
    """-> (aes.ll, probe.ll) for configuration `name` in directory out; BuildError carries the compiler's message"""
    target, cfgs, tf, dbg, _ = CONFIGS[name]
    rustc, _ = toolchain()
    cd = core_dir(target)
    os.makedirs(out, exist_ok=True)
    common = ["--out-dir", out, "--edition", "2021", "--crate-type", "lib", "--target", target, "-Copt-level=0", "-Cpanic=abort", "-Cdebuginfo=0", "-Coverflow-checks=" + ("yes" if dbg else "no"),
              "-Cdebug-assertions=" + ("yes" if dbg else "no"), "-Csymbol-mangling-version=v0", "-C", "no-prepopulate-passes", "-Clink-dead-code",
              "--cap-lints", "allow", "--sysroot", "/nonexistent", "-L", cd, "--extern", "core=" + cd + "/libcore.rmeta"]
    if tf:
        common.append("-Ctarget-feature=" + tf)
    rm = out + "/libaes_crypto.rmeta"
    must("aes_crypto (%s)" % name, [rustc, "--crate-name", "aes_crypto"] + cfgs + common + ["--emit=metadata,llvm-ir", "--extern", "cfg_if=" + cd + "/libcfg_if.rmeta", lib_src()])
    must("probe (%s)" % name, [rustc, "--crate-name", "probe"] + common + ["--emit=llvm-ir", "--extern", "aes_crypto=" + rm, "-L", out, VERIF + "/probe/probe.rs"])
    return out + "/aes_crypto.ll", out + "/probe.ll"


def build_all(names, out):
    """{name: (aes.ll, probe.ll) or BuildError}; targets' cores first, in parallel"""
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        targets = sorted({CONFIGS[n][0] for n in names})
        list(ex.map(core_dir, targets))

        def one(n):
            try:
                return n, build_ir(n, os.path.join(out, n))
            except BuildError as e:
                return n, e
        for n, r in ex.map(one, names):
            res[n] = r
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    out = sys.argv[1]
    r = build_all(sys.argv[2:] or list(CONFIGS), out)
    for n, x in r.items():
        print(n, "ERROR " + str(x) + "\n" + x.out[-1500:] if isinstance(x, BuildError) else "ok")
    print("%.1f s" % (time.time() - t))
