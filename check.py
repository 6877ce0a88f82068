#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's current tree
check.py --replay FILE                     run a recorded counterexample against the real code again

Exit 0: every obligation of the property was discharged (or, where marked, its bounded stand-in found nothing);
exit 1 with a VIOLATION line: an obligation failed; exit 2: the check itself could not run."""
import json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/engine")
os.environ.setdefault("PYTHONHASHSEED", "0")
import build, contracts, props, replay

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


# ---- workers --------------------------------------------------------------------------------
_mods = {}


def _init():
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    lim = int(os.environ.get("VERIF_WORKER_MB", "3500")) << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(20000)


def _task(a):
    import llir, verify
    key, paths, probe, budget, cats = a
    ms = _mods.get(key)
    if ms is None:
        if len(_mods) >= 3:
            _mods.pop(next(iter(_mods)))
        ms = _mods[key] = [llir.Module(p) for p in paths]
    return verify.run_task(ms, key, probe, budget, None, cats)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.P = props.PROPS[prop]
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.real = {}
        self.violations = []
        self.results = []
        self.standins = []
        self.notes = []
        self.searched = {}
        self.deadline = T0 + (740 if tier == 'quick' else 6 * 3600)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- the real code
    def real_of(self, config):
        if config not in self.real:
            try:
                r = replay.Real(config, os.path.join(self.tmp, "drv", config))
                self.real[config] = r if r.d.usable else None
            except build.BuildError as e:
                self.notes.append("replay program for %s does not build: %s" % (config, e.out[-300:]))
                self.real[config] = None
        return self.real[config]

    def violation(self, rec, found):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        rec = dict(rec, property=self.prop, how="python3-vt %s/check.py --replay %s" % (VERIF, path))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(rec)
        for l in ("  obligation: %s" % rec.get("obligation"), "  configuration: %s" % rec.get("config"), "  verifier: %s" % rec.get("verifier"), "  real code: %s" % rec.get("observed")):
            print(l[:600])
        print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if found else " no-failing-input-found"), flush=True)

    # -- main
    def go(self):
        P = self.P
        configs = P.configs(self.tier)
        built = build.build_all(configs, os.path.join(self.tmp, "ir"))
        t_build = time.time() - T0
        ok = []
        for c in configs:
            if isinstance(built[c], build.BuildError):
                e = built[c]
                msg = "\n".join(l for l in e.out.splitlines() if l.startswith("error"))[:500]
                if P.must_build:
                    self.violation({"config": c, "obligation": "%s compiles" % c, "verifier": "the compiler rejects the sources: " + msg, "observed": "does not build", "kind": "build",
                                    "output": e.out[-6000:]}, True)
                else:
                    self.notes.append("configuration %s does not compile and was not explored (see C14)" % c)
            else:
                ok.append(c)
        if not ok:
            print("no configuration compiles")
            self.evidence(configs, ok, t_build, 'nothing to check')
            return 1 if self.violations else 2
        budget = P.budget if self.tier == 'quick' else 3 * P.budget
        jobs = []
        for probe in P.probes(self.tier):
            for c in ok:
                if P.applies(c, probe, self.tier):
                    jobs.append((c, built[c], probe, budget, P.cats))
        # long ones first, one configuration's together where possible
        jobs.sort(key=lambda j: (-props.cost(j[2]), j[2], j[0]))
        by = {}
        for j in jobs:
            by.setdefault(j[0], []).append(j)
        suspects, undecided = [], []
        n = int(os.environ.get("VERIF_JOBS", "8"))
        pool = mp.Pool(n, _init, maxtasksperchild=60)
        pending = set((j[0], j[2]) for j in jobs)
        stop = False
        try:
            it = pool.imap_unordered(_task, jobs, 1)
            while pending and not stop:
                try:
                    r = it.next(timeout=max(1, self.deadline - 120 - time.time()))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                pending.discard((r['config'], r['probe']))
                self.results.append(r)
                rel = [o for o in r['obligations'] if P.relevant(o)]
                if any(o['status'] == 'failed' for o in rel):
                    suspects.append((r, rel))
                    if self.confirm(r, rel):
                        stop = True
                elif r['error'] or rel or r['bounded']:
                    if self.P.standin(self, [(r, rel)]):
                        stop = True
        finally:
            pool.terminate()
            pool.join()
        if not stop:
            for c, p in sorted(pending):
                undecided.append(({'config': c, 'probe': p, 'error': 'not reached within the time limit', 'obligations': [], 'bounded': None}, []))
            self.decide(suspects, undecided)
        self.evidence(configs, ok, t_build, None, pending)
        bad = [r for r in self.results if r['error']]
        if os.environ.get("VERIF_TIMES"):
            with open(os.environ["VERIF_TIMES"], "w") as f:
                f.writelines("%.2f %s %s\n" % (r['time'], r['probe'], r['config']) for r in self.results)
        tot = {}
        for r in self.results:
            for k, v in r['count'].items():
                tot[k] = tot.get(k, 0) + v
        print("%s %s: %d contracts x configurations, %d obligations, %d functions, %.0f s" % (self.prop, self.tier, len(self.results), sum(v for k, v in tot.items() if k in P.counted),
                                                                                             len({f for r in self.results for f in r['functions']}), time.time() - T0))
        for r in bad[:10]:
            print("  not proved: %s on %s: %s" % (r['probe'], r['config'], r['error'][:300]))
        for s in self.standins[:10]:
            print("  bounded stand-in: %s" % s[:300])
        for s in self.notes[:10]:
            print("  note: %s" % s[:300])
        return 1 if self.violations else 0

    # -- counterexamples
    def confirm(self, r, rel):
        """replays the verifier's failing input; True when the real code violates the property on it"""
        return self.P.confirm(self, r, [o for o in rel if o['status'] == 'failed'])

    def decide(self, suspects, undecided):
        """failed obligations that no replay confirmed, and obligations left undecided"""
        for r, rel in suspects:
            v = self.P.unconfirmed(self, r, [o for o in rel if o['status'] == 'failed'])
            if v == 'violation':
                return
            if v == 'undecided':
                undecided.append((r, rel))
        if undecided:
            self.P.standin(self, undecided)

    # -- evidence
    def evidence(self, configs, ok, t_build, why, pending=()):
        P = self.P
        cnt, failed, und = {}, 0, 0
        proved_tasks = 0
        for r in self.results:
            rel = [o for o in r['obligations'] if P.relevant(o)]
            failed += sum(o['status'] == 'failed' for o in rel)
            und += sum(o['status'] != 'failed' for o in rel)
            if r['error'] or r['bounded']:
                continue
            proved_tasks += not rel
            for k, v in r['count'].items():
                if k in P.counted:
                    cnt[k] = cnt.get(k, 0) + v
        total = sum(cnt.values())
        fns = {}
        for r in self.results:
            if not r['error']:
                for f in r['functions']:
                    fns[f] = fns.get(f, 0) + 1
        own = sorted(f for f in fns if 'aes_crypto' in f)
        bounded = [{"contract": r['probe'], "configuration": r['config'], "bound": r['bounded']} for r in self.results if r['bounded']]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": P.level,
            "coverage": {
                "obligations": total + failed + und, "discharged": total,
                "failed": failed, "undecided": und,
                "obligations_by_kind": cnt,
                "checker_cmd": "python3-vt %s/check.py %s %s" % (VERIF, self.prop, self.tier),
                "back_end": "symbolic execution of the compiler's LLVM IR into a canonical form; equality by normal form, truth-table and z3 %s" % _z3(),
                "solver_seconds": round(sum(r['solver_time'] for r in self.results), 2),
                "verifier_cpu_seconds": round(sum(r['time'] for r in self.results), 1),
                "contracts_discharged": proved_tasks,
                "contracts_attempted": len(self.results),
                "configurations": {c: build.CONFIGS[c][4] for c in ok if any(r['config'] == c for r in self.results)},
                "configurations_only_compiled": [c for c in ok if not any(r['config'] == c for r in self.results)],
                "configurations_not_compiling": [c for c in configs if c not in ok],
                "functions_under_contract": own,
                "functions_executed_in_core": len(fns) - len(own),
                "instructions_executed": sum(r['instrs'] for r in self.results),
                "contracts": {p: contracts.TABLE[p].doc for p in sorted({r['probe'] for r in self.results})},
                "callee_contracts_used": sorted({c for r in self.results for c in r['contracts']})[:40],
                "intrinsic_models_used": sorted({i for r in self.results for i in r['intrinsics']}),
                "bounded": bounded[:60], "bounded_count": len(bounded),
                "not_proved": [{"contract": r['probe'], "configuration": r['config'], "why": r['error'][:300]} for r in self.results if r['error']] +
                              [{"contract": p, "configuration": c, "why": "not reached"} for c, p in sorted(pending)][:60],
                "stand_ins": self.standins[:60],
                "trusted_base": props.TRUSTED,
                "samples": [{"contract": r['probe'], "configuration": r['config'], "paths": r['paths'], "obligations": r['count'], "seconds": round(r['time'], 2)} for r in self.results[:6]],
                "build_seconds": round(t_build, 1),
                "notes": self.notes,
            },
            "assumptions": props.ASSUMPTIONS + P.assumptions,
            "wall_s": round(time.time() - T0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)


def _z3():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def do_replay(path):
    d = json.load(open(path))
    if d.get("kind") == "build":
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            r = build.build_all([d["config"]], tmp)[d["config"]]
            if isinstance(r, build.BuildError):
                print(r.out[-2000:])
                return 1
            print("builds")
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if d.get("kind") != "call":
        print(json.dumps(d, indent=1))
        print("no failing input recorded: run %s's check to see the obligation fail again" % d["property"])
        return 1
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        r = replay.Real(d["config"], tmp)
        recs = [r.record(c["probe"], bytes.fromhex(c["i"]), bytes.fromhex(c["p"]), c["n"], c.get("poff", 0), c.get("fill", 0xA5)) for c in d["calls"] for _ in range(c.get("times", 1))]
        res = r.check(recs)
        bad = [(k, b) for k, b in enumerate(res) if b]
        print("call %d of %d: %s" % (bad[0][0] + 1, len(recs), bad[0][1]) if bad else "the real code now does what the contract says")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def do_setup():
    """nothing has to be built ahead: see that the tools are there and compile core's metadata for every target"""
    import z3
    print("z3", z3.get_version_string(), "rustc", build.toolchain()[0])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(build.core_dir, sorted({c[0] for c in build.CONFIGS.values()})))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return do_setup()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    if len(sys.argv) not in (2, 3) or sys.argv[1] not in props.PROPS:
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick")
    run = Run(sys.argv[1], tier)
    try:
        return run.go()
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
