"""Which contracts, obligations and configurations decide which property, and what is done with a failed one."""
import itertools, os, random, re, shutil, subprocess, tempfile, time
import build, contracts, replay

ALL = list(build.CONFIGS)
QUICK = [c for c in ALL if c not in build.EXTRA]
T = contracts.TABLE
TEXT = re.compile(r'[fw]_|f[ed]+[cfa]?_|w[ed]_')
TABLE_BASED = tuple(c for c in ALL if c.startswith("sw")) + ("be-aes",)     # the table-based implementation indexes its tables with secret bytes
HW = ("aesni", "vaes", "avx512", "neon", "armv8", "rv64", "rv32")

TRUSTED = [
    "rustc 1.99.1: the LLVM IR it emits (opt-level 0, no LLVM pass) is what the crate means; optimisation passes and code generation are not covered",
    "the verifier in /verif/engine (IR parser, memory model, normal forms), about 4000 lines of Python, cross-checked by running the real code on random inputs in the thorough tier",
    "models of the CPU instructions named under intrinsic_models_used, written from the vendor manuals",
    "z3 for the obligations the normal form does not settle",
    "the FIPS-197 specification in engine/fips197.py and the contracts in engine/contracts.py",
]
ASSUMPTIONS = [
    "core's formatting, slice and array code is executed symbolically along with the crate, not assumed",
    "objects sit at addresses that have exactly the alignment their type requires and no more",
    "no slice has more than isize::MAX bytes (the language guarantees it)",
    "one thread: the crate has no shared state (any mutable global would be treated as holding arbitrary bytes)",
    "the standard library is compiled from the toolchain's own source for every target",
]


def names(rx):
    r = re.compile(rx)
    return [n for n in T if r.fullmatch(n)]


def cost(p):
    k = p.rsplit("_", 1)[1]
    c = {"16": 1.0, "24": 1.2, "32": 1.4}.get(k, 0.3)
    if re.match(r'f[ed]+[cfa]?_', p):
        return (8 if p[2] == 'a' else 4) * c
    if re.match(r'[ed]4_|rt|tr', p) and k in ("16", "24", "32"):
        return 1.6 * c
    if p.startswith("f_debug_"):
        return 2.0
    if p.startswith("ch"):
        return 1.5
    return c


class Functional:
    level = "proof"
    must_build = False
    cats = frozenset(("post", "frame", "panic", "loop", "safety"))
    counted = ("post", "frame", "panic", "loop", "safety")
    budget = 240
    assumptions = []

    def __init__(self, rx, quick_filter=None, configs=None, assumptions=()):
        self.rx = rx
        self.quick_filter = quick_filter
        self._configs = configs or ALL
        self.assumptions = list(assumptions)

    def configs(self, tier):
        """those that are built; which contracts are discharged in each is `applies`'s choice"""
        return [c for c in self._configs if tier != 'quick' or self.must_build or c in QUICK]

    def probes(self, tier):
        return names(self.rx)

    def applies(self, config, probe, tier):
        return tier != 'quick' or config in QUICK and (self.quick_filter is None or self.quick_filter(config, probe))

    def relevant(self, o):
        return o['cat'] != 'leak'

    # -- counterexamples
    def witness_calls(self, real, probe, o):
        w = o['witness']
        if not w:
            return []
        k = T[probe]
        i = bytes.fromhex(w['i']) if w['i'] else bytes(k.nin)
        n = w['n'] or 0
        plen = n * (k.nin if k.kind == 'chain' else 1) if k.kind != 'plain' else 0
        if plen > 2000000:
            return []
        out = []
        for base in (0, 1, 2) if plen <= 60000 else (0,):
            p = bytearray(plen) if base == 0 else bytearray(random.Random(base).getrandbits(8) for _ in range(plen))
            for off, v in (w.get('p') or {}).items():
                if int(off) < plen:
                    p[int(off)] = v
            for fill, off in ((0xA5, 0), (0x5A, 0), (0xA5, replay.GUARD))[:2 + (plen > 0)]:
                out.append(real.record(probe, i, p, n, off, fill))
        return out

    def report(self, run, r, o, recs, k, what):
        calls = [{"probe": q[0], "i": q[1].hex(), "p": q[3].hex(), "n": q[5], "poff": q[4], "fill": q[6]} for q in recs[:k + 1]]
        if len({tuple(sorted(c.items())) for c in calls}) == 1:
            calls = [dict(calls[0], times=len(calls))]
        elif len(calls) > 1:
            res = run.real_of(r['config']).check(recs[k:k + 1])      # does the last call alone suffice?
            if res[0]:
                calls = calls[-1:]
        run.violation({"kind": "call", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "contract": T[r['probe']].doc, "probe": r['probe'],
                       "obligation": o['name'] if o else "bounded stand-in for %s" % r['probe'], "verifier": o['msg'] if o else (r.get('error') or r.get('bounded') or "undecided"),
                       "calls": calls[-4000:], "observed": what}, True)

    def try_calls(self, run, r, o, real, recs):
        for k, what in enumerate(real.check(recs)):
            if what:
                self.report(run, r, o, recs, k, what)
                return True
        return False

    def confirm(self, run, r, failed):
        real = run.real_of(r['config'])
        if real is None:
            return False
        for o in failed[:4]:
            recs = self.witness_calls(real, r['probe'], o)
            o['replayed'] = bool(recs)
            if recs and self.try_calls(run, r, o, real, recs):
                return True
        o = failed[0]
        run.searched[r['probe']] = run.searched.get(r['probe'], 0) + 1
        if run.searched[r['probe']] > 3 or time.time() > run.deadline - 300:      # the same contract failed elsewhere without a visible effect
            return False
        R = random.Random(replay_seed(r))
        if self.try_calls(run, r, o, real, real.generate(R, r['probe'], 400)):
            return True
        if any(x['witness'] and x['witness'].get('state') for x in failed):
            return self.history(run, r, o, real)
        return False

    def history(self, run, r, o, real, rounds=70000):
        """long sequences of calls in one process"""
        R = random.Random(replay_seed(r))
        one = (self.witness_calls(real, r['probe'], o) or real.generate(R, r['probe'], 1))[:1]
        if self.try_calls(run, r, o, real, one * rounds):
            return True
        plain = [p for p in T if T[p].kind == 'plain' and not TEXT.match(p)]
        rel = [p for p in plain if p.split('_')[-1] == r['probe'].split('_')[-1]]
        mix = []
        for _ in range(40):
            # inputs related to the ones before: equal, sharing a prefix or a suffix, one byte or bit apart, zero in part
            cur = bytearray(R.getrandbits(8) for _ in range(512))
            for _ in range(150):
                x = R.random()
                q = r['probe'] if x < .6 else R.choice(rel) if x < .85 else R.choice(plain)
                mode = R.randrange(8)
                n = T[q].nin or 1
                if mode == 0:
                    cur[R.randrange(n)] ^= 1 << R.randrange(8)
                elif mode == 1:
                    cur[R.randrange(n)] = R.getrandbits(8)
                elif mode in (2, 3):
                    k = R.choice((4, 8, 12, 16, 20, 24, 28, 32, R.randrange(1, n + 1)))
                    new = bytearray(R.getrandbits(8) for _ in range(512))
                    cur = cur[:k] + new[k:] if mode == 2 else new[:k] + cur[k:]
                elif mode == 4:
                    k = R.choice((0, 4, 8, 16, 24, 32))
                    cur[k:k + R.choice((4, 8, 16, 32))] = bytes(1)
                    cur = (cur + bytes(512))[:512]
                elif mode == 5:
                    cur = bytearray(R.getrandbits(8) for _ in range(512))
                mix.append(real.record(q, bytes(cur[:n])))
        if self.try_calls(run, r, o, real, mix):
            return True
        mix = []
        for _ in range(3000):
            mix += real.generate(R, r['probe'] if R.random() < .5 else R.choice(plain), 1)
        return self.try_calls(run, r, o, real, mix)

    def unconfirmed(self, run, r, failed):
        real = run.real_of(r['config'])
        hard = [o for o in failed if o['cat'] != 'safety']
        if not hard:
            return 'undecided'
        if real is not None and all(o['witness'] and o['witness'].get('state') for o in hard):
            run.notes.append("%s on %s: the result depends on mutable global state that no history tried here reaches; left undecided" % (r['probe'], r['config']))
            return 'undecided'
        if real is not None and all(o.get('replayed') for o in hard):
            run.notes.append("%s on %s: the verifier's counterexample is refuted by the real code; left undecided" % (r['probe'], r['config']))
            return 'undecided'
        o = hard[0]
        run.violation({"kind": "obligation", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "contract": T[r['probe']].doc, "probe": r['probe'],
                       "obligation": o['name'], "verifier": o['msg'], "witness": o['witness'], "all_failed": failed[:20],
                       "observed": "not executable here" if real is None else "no failing call found"}, False)
        return 'violation'

    # -- bounded stand-in
    def standin(self, run, und):
        und.sort(key=lambda x: (x[0]['probe'], x[0]['config']))
        for r, rel in und:
            left = run.deadline - 30 - time.time()
            if left < 0:
                run.standins.append("%s on %s: no time left, neither proved nor tested" % (r['probe'], r['config']))
                continue
            real = run.real_of(r['config'])
            if real is None:
                run.standins.append("%s on %s: neither proved nor executable here" % (r['probe'], r['config']))
                continue
            R = random.Random(replay_seed(r))
            n = 300 if r.get('bounded') else 1500
            if T[r['probe']].kind == 'chain':
                n = 120
            recs = real.generate(R, r['probe'], n)
            if self.try_calls(run, r, rel[0] if rel else None, real, recs):
                return True
            if any("mutable global" in o['name'] for o in rel) and self.history(run, r, rel[0], real):
                return True
            run.standins.append("%s on %s: bounded, %d calls of the real code agree with the contract (%s)" % (r['probe'], r['config'], n, r.get('error') or r.get('bounded') or (rel and rel[0]['name'] + " undecided")))


def replay_seed(r):
    return "%s/%s/%s" % (os.environ.get("VERIF_SEED", "1"), r['config'], r['probe'])


class Safety(Functional):
    """every memory access, arithmetic check and panic obligation of every entry point"""
    cats = frozenset(("safety", "panic", "frame"))
    counted = ("safety", "panic")

    def relevant(self, o):
        return o['cat'] in ('safety', 'panic')

    def try_calls(self, run, r, o, real, recs):
        for k, what in enumerate(real.check(recs)):
            if what and re.match(r'the program was killed|panicked|returned normally|wrote outside', what):
                self.report(run, r, o, recs, k, what)
                return True
        return False

    def unconfirmed(self, run, r, failed):
        real = run.real_of(r['config'])
        panics = [o for o in failed if o['cat'] == 'panic']
        if panics and len(panics) == len(failed) and real is not None and all(o.get('replayed') for o in panics):
            run.notes.append("%s on %s: the verifier's counterexample is refuted by the real code; left undecided" % (r['probe'], r['config']))
            return 'undecided'
        o = ([x for x in failed if x['cat'] == 'safety'] or failed)[0]
        run.violation({"kind": "obligation", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "contract": T[r['probe']].doc, "probe": r['probe'],
                       "obligation": o['name'], "verifier": o['msg'], "witness": o['witness'], "all_failed": failed[:20],
                       "observed": "undefined behaviour without a visible effect in the native run" if real else "not executable here"}, False)
        return 'violation'


class Leak(Functional):
    """branches and addresses take the same value for all secrets"""
    cats = frozenset(("leak",))
    counted = ("leak",)

    def relevant(self, o):
        return o['cat'] == 'leak'

    def probes(self, tier):
        return [n for n in names(self.rx) if T[n].secret]

    def traces_differ(self, real, probe, pairs):
        exe = real.d.exe
        for a, b in pairs:
            ts = []
            for i in (a, b):
                k = T[probe]
                n = 3 if k.kind == 'chain' else 64 if k.kind in ('try', 'store') else 0
                rec = real.record(probe, i, bytes(n * (k.nin if k.kind == 'chain' else 1)), n)
                ts.append(trace(real.d, rec))
            if ts[0] is None or ts[1] is None:
                return None
            if ts[0] != ts[1]:
                k = next((j for j, (x, y) in enumerate(zip(*ts)) if x != y), min(len(ts[0]), len(ts[1])))
                return a, b, "instruction and address traces diverge after %d steps: %s / %s" % (k, ts[0][k] if k < len(ts[0]) else "end", ts[1][k] if k < len(ts[1]) else "end")
        return None

    def confirm(self, run, r, failed):
        real = run.real_of(r['config'])
        if real is None:
            return False
        R = random.Random(replay_seed(r))
        k = T[r['probe']]
        pairs = [(bytes.fromhex(o['witness']['i']), bytes.fromhex(o['witness']['i2'])) for o in failed[:3] if o['witness'] and o['witness'].get('i2') is not None]
        pairs += [(replay.random_input(R, k.nin, m), replay.random_input(R, k.nin, m)) for m in (0, 0, 6, 3)]
        d = self.traces_differ(real, r['probe'], pairs)
        if d:
            a, b, what = d
            o = failed[0]
            run.violation({"kind": "trace", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "probe": r['probe'], "obligation": o['name'], "verifier": o['msg'],
                           "inputs": [a.hex(), b.hex()], "observed": what, "all_failed": failed[:20]}, True)
            return True
        return False

    def unconfirmed(self, run, r, failed):
        o = failed[0]
        run.violation({"kind": "obligation", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "probe": r['probe'], "obligation": o['name'], "verifier": o['msg'],
                       "witness": o['witness'], "all_failed": failed[:20], "observed": "no trace difference seen (or no tracer for this target)"}, False)
        return 'violation'

    def standin(self, run, und):
        for r, rel in und:
            if r.get('bounded') and not r.get('error') and not rel:
                run.standins.append("%s on %s: %s" % (r['probe'], r['config'], r['bounded']))
                continue
            if run.deadline - 30 < time.time():
                run.standins.append("%s on %s: no time left" % (r['probe'], r['config']))
                continue
            real = run.real_of(r['config'])
            if real is None:
                run.standins.append("%s on %s: neither proved nor executable here" % (r['probe'], r['config']))
                continue
            R = random.Random(replay_seed(r))
            k = T[r['probe']]
            pairs = [(replay.random_input(R, k.nin, m), replay.random_input(R, k.nin, m)) for m in (0, 6, 3)]
            d = self.traces_differ(real, r['probe'], pairs)
            if d:
                a, b, what = d
                run.violation({"kind": "trace", "config": r['config'], "configuration": build.CONFIGS[r['config']][4], "probe": r['probe'], "obligation": "bounded stand-in for %s" % r['probe'],
                               "verifier": r.get('error') or "undecided", "inputs": [a.hex(), b.hex()], "observed": what}, True)
                return True
            run.standins.append("%s on %s: bounded, traces of %d input pairs agree (%s)" % (r['probe'], r['config'], len(pairs), r.get('error') or "undecided"))


def trace(driver, rec):
    """sequence of executed instructions (and, under valgrind, data addresses) of one call; None when it cannot be had"""
    import struct
    data = struct.pack("<6IQ", replay.INDEX[rec[0]], len(rec[1]), rec[2], len(rec[3]), rec[4], rec[6], rec[5]) + bytes(rec[1]) + bytes(rec[3])
    t = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        arch = build.CONFIGS[driver.name][0].split("-")[0]
        if arch == "x86_64" and shutil.which("valgrind") and not re.search(r'vaes|avx512', build.CONFIGS[driver.name][2]):
            q = subprocess.run(["valgrind", "--tool=lackey", "--trace-mem=yes", "--log-file=" + t + "/log", driver.exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            if q.returncode == 0 and q.stdout[:1] == b"\1":
                return [l for l in open(t + "/log", errors="replace").read().splitlines() if not l.startswith("==")]
        if arch in replay.QEMU and "avx512" not in build.CONFIGS[driver.name][2]:
            cmd = replay.QEMU[arch].split()
            if shutil.which(cmd[0]):
                q = subprocess.run(cmd + ["-one-insn-per-tb", "-d", "exec,nochain", "-D", t + "/log", driver.exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
                if q.returncode == 0 and q.stdout[:1] == b"\1":
                    return re.findall(r'^Trace \d+: 0x[0-9a-f]+ \[[0-9a-f]+/([0-9a-f]+)/', open(t + "/log", errors="replace").read(), re.M)
        return None
    except (subprocess.TimeoutExpired, OSError):
        return None
    finally:
        shutil.rmtree(t, ignore_errors=True)


class All(Functional):
    """every documented configuration compiles and satisfies the same contracts"""
    must_build = True


K = r'_(16|24|32)'
B = r'_(1|2|4)'
TEXTSET = ("sw", "ct", "aesni", "neon", "rv64", "rv32")


def text_quick(config, probe):
    return not TEXT.match(probe) or config in TEXTSET


def format_quick(config, probe):
    return not re.match(r'[fw][ed]', probe) or (config in TEXTSET if probe[2] == '_' and probe[0] == 'f' else config in ("sw", "neon"))


def safety_quick(config, probe):
    """the text contracts execute core's formatter, which is the same code in every configuration"""
    if re.match(r'[fw][ed]', probe):
        return config in TEXTSET and re.fullmatch(r'f[ed]_(16|32)', probe)
    return not TEXT.match(probe) or config in ("sw", "neon", "rv32")


PROPS = {
    "C01": Functional(r'e1' + K),
    "C02": Functional(r'(d1|rt|tr)' + K),
    "C03": Functional(r'[ed][24]' + K),
    "C04": Functional(r'(ed1|de1|ede1|ded1|ee1|dd1|eu|du|fed|fde|fede|fded|fec|fdc|fef|fdf)' + K, text_quick),
    "C05": Functional(r'((enc|dec|encl|decl)' + B + r'|i?mc_1)'),
    "C06": Functional(r'ch[ed]' + B),
    "C07": Functional(r'((new|arr|ref|clone)' + B + r'|to_u128|from_u128|x[24]_.*)'),
    "C08": Functional(r'(try|store)' + B),
    "C09": Functional(r'(and|or|xor|not|anda|ora|xora|eq|ne|isz|zero|dflt)' + B),
    "C10": Functional(r'([fw]_.*|f[ed]a?' + K + '|w[ed]' + K + ')', format_quick),
    "C11": Safety(r'.*', safety_quick),
    "C12": Leak(r'.*', None, [c for c in ALL if c not in TABLE_BASED]),
    "C13": Functional(r'f[ed]' + K),
    "C14": All(r'([ed][14]_(16|24|32)|(enc|dec|encl|decl|xor|eq|isz)_(1|2|4)|i?mc_1|(new|arr)_(1|2|4)|to_u128|from_u128|x[24]_.*|f_lhex_1|f_bin_1)'),
}
