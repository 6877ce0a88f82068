"""Discharges the contracts of contracts.py against the IR of one configuration."""
import os, re, signal, time, traceback
import numpy as np
import forms, llir, sym, intrinsics, contracts, fips197
from forms import *
from forms import _conj, _tt_arr
from sym import Ptr, Lin, LinCond, lin_var, lin_add, lin_mul, PhiV, UNDEF, lit_not

rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1") or 1))


# ---- satisfiability of a set of literals -----------------------------------------------------
def _entities(lits):
    """all entities below the literals, children first"""
    seen, order = set(), []

    def visit(e):
        stack = [(e, 0)]
        while stack:
            x, ph = stack.pop()
            if ph:
                order.append(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            stack.append((x, 1))
            if KIND[x] != BASE:
                for c in COMPS[x]:
                    if c.__class__ is not int:
                        for y in c.t:
                            if y not in seen:
                                stack.append((y, 0))
    for l in lits:
        if l.__class__ is not int:
            for e in l.t:
                visit(e)
    return order


def sample(base, n, mode):
    base = sorted(base)
    if mode == 0:
        a = {b: rng.integers(0, 256, n, dtype=np.uint8) for b in base}
    elif mode == 1:     # few distinct values, equal bytes likely
        pool = rng.choice(np.array([0, 1, 2, 0x7f, 0x80, 0xff, 0x1b, 0x63, 0x52], dtype=np.uint8), (n,))
        a = {b: np.where(rng.random(n) < 0.7, pool, rng.integers(0, 256, n, dtype=np.uint8)) for b in base}
    else:               # constants and one-hot
        a = {b: (np.uint8(1) << rng.integers(0, 8, n, dtype=np.uint8)) * (rng.random(n) < 0.2).astype(np.uint8) for b in base}
    return a


def evaluate(lits, base, a, n, ev=None):
    ev = ev or Eval(a, n)
    ok = np.ones(n, dtype=bool)
    for l in lits:
        ok &= ev.form(l).astype(bool)
        if not ok.any():
            return None
    k = int(np.argmax(ok))
    return {b: int(a[b][k]) for b in base}


def expand(lits):
    """literals with conjunctions opened"""
    out, todo = [], list(lits)
    while todo:
        l = todo.pop()
        if l.__class__ is int:
            if not l:
                return None
            continue
        if isinstance(l, LinCond):
            continue
        if len(l.t) == 1 and not l.c:
            e = next(iter(l.t))
            if KIND[e] == CONJ:
                todo.extend(COMPS[e])
                continue
        out.append(l)
    return out


# ---- affine constraints: solved exactly and substituted -------------------------------------------
def _affine(f):
    """(constant, [(base entity, bit)]) when f is an affine function of input bits, else None"""
    out = []
    for e, tt in f.t.items():
        if KIND[e] != BASE:
            return None
        x = 0
        for j in range(8):
            if tt >> (1 << j) & 1:
                x ^= VAR[8][j]
                out.append((e, j))
        if x != tt:
            return None
    return f.c, out


def _pinned(f):
    """the component bits a literal over one entity fixes: [(component form, value)], or None"""
    e, k = None, None
    for x in f.t:
        if KIND[x] != BASE:
            if e is not None:
                return None
            e, k = x, KIND[x]
    if e is None:
        if len(f.t) != 1:
            return None
        e, k = next(iter(f.t)), BASE
    if k == CONJ:
        return None
    r = RANK[e]
    if len(f.t) == 1:
        tt = f.t[e] ^ FULL[r] if f.c else f.t[e]
    else:
        tt = tt_over(e, f)      # the linear part of a composite's table stands apart
        if tt is None:
            return None
    comps = [Form(0, {e: VAR[8][j]}) for j in range(8)] if k == BASE else COMPS[e]
    out = []
    for j, c in enumerate(comps):
        if not tt & VAR[r][j]:
            out.append(Form(c.c ^ 1, c.t))
        elif not tt & ~VAR[r][j]:
            out.append(c)
    if k == BASE and len(out) == 1 and out[0] == f:
        return None
    return out or None


class Affine:
    """input bits as affine functions of the remaining ones, from literals that must hold"""
    cache = {}

    def __init__(self):
        self.sub = {}
        self.memo = {}
        self.rows = {}      # pivot (e, j) -> (constant, frozenset of other (e, j))

    def add(self, c, vs):
        """c ^ xor(vs) must be 1"""
        acc, k = set(), c ^ 1
        for v in vs:
            r = self.rows.get(v)
            if r is None:
                acc ^= {v}
            else:
                k ^= r[0]
                acc ^= r[1]
        if not acc:
            return k == 0
        p = max(acc)
        rest = frozenset(acc - {p})
        for q, (c2, s2) in list(self.rows.items()):
            if p in s2:
                self.rows[q] = (c2 ^ k, (s2 - {p}) ^ rest)
        self.rows[p] = (k, rest)
        return True

    def seal(self):
        self.memo = {}
        self.sub = {}
        for e in {p[0] for p in self.rows}:
            bits = []
            for j in range(8):
                r = self.rows.get((e, j))
                if r is None:
                    bits.append(Form(0, {e: VAR[8][j]}))
                    continue
                f = r[0]
                for e2, j2 in sorted(r[1]):
                    f = fxor(f, Form(0, {e2: VAR[8][j2]}))
                bits.append(f)
            self.sub[e] = bits

    def apply(self, f):
        if f.__class__ is int or not any(e in self.sub for e in leaves_of(f)):
            return f
        return sym.subst(f, self.sub, self.memo)

    def complete(self, a, n):
        """values of the eliminated bytes from the values of the others (arrays of n)"""
        out = dict(a)
        for bits in self.sub.values():
            for f in bits:
                if f.__class__ is not int:
                    for e in f.t:
                        if e not in out and e not in self.sub:
                            out[e] = np.zeros(n, dtype=np.uint8)
        # a byte may be partly eliminated: its free bits keep the sampled value
        for e in self.sub:
            if e not in out:
                out[e] = rng.integers(0, 256, n, dtype=np.uint8)
        ev = Eval(dict(out), n)
        for e, bits in self.sub.items():
            v = np.zeros(n, dtype=np.uint8)
            for j, b in enumerate(bits):
                v |= (np.full(n, b, dtype=np.uint8) if b.__class__ is int else ev.form(b).astype(np.uint8)) << np.uint8(j)
            out[e] = v
        return out


def eliminate(lits):
    """-> (remaining literals, Affine) or None when contradictory.  A literal that is affine in the inputs, or that fixes
    components that are, is used up or kept and substituted into."""
    eqs, rest = [], []
    for l in lits:
        a = _affine(l)
        if a is not None:
            eqs.append(l)
            continue
        rest.append(l)
        p = _pinned(l)
        if p:
            for q in p:
                if q.__class__ is not int and _affine(q) is not None:
                    eqs.append(q)
    if not eqs:
        return lits, None
    return rest, eqs


def affine_of(eqs):
    key = frozenset(eqs)
    A = Affine.cache.get(key, 0)
    if A == 0:
        A = Affine()
        for q in sorted(key, key=lambda f: (len(f.t), sorted(f.t.items()), f.c)):
            if not A.add(*_affine(q)):
                A = None
                break
        else:
            A.seal()
        if len(Affine.cache) >= 8:
            del Affine.cache[next(iter(Affine.cache))]
        Affine.cache[key] = A
    return A


def substitute(A, lits):
    out = []
    for l in lits:
        g = A.apply(l)
        if g.__class__ is int:
            if not g:
                return None
            continue
        out.append(g)
    return out


_deep = {}


def deep(l):
    """more than a few levels of composites: expensive to substitute into"""
    def height(e):
        h = _deep.get(e)
        if h is None:
            h = 0
            if KIND[e] != BASE:
                h = 1 + max((height(x) for c in COMPS[e] if c.__class__ is not int for x in c.t), default=0)
            _deep[e] = h
        return h
    return l.__class__ is not int and any(height(e) > 6 for e in l.t)


Z3_LIMIT = 600


def solve(lits, timeout=10.0):
    """-> ('sat', {entity: byte}) | ('unsat', None) | ('unknown', None)"""
    return _solve(lits, timeout, 3)


def _solve(lits, timeout, depth, chain=(), late=()):
    """late: deep literals not yet substituted into, with the number of substitutions they have seen"""
    late = list(late)
    lits = list(lits)
    while True:
        lits = expand(lits)
        if lits is None:
            return 'unsat', None
        late += [(l, len(chain)) for l in lits if deep(l)]
        lits = [l for l in lits if not deep(l)]
        r, eqs = eliminate(lits)
        if eqs is None or len(chain) > 6:
            break
        A = affine_of(eqs)
        if A is None:
            return 'unsat', None
        lits = substitute(A, r)
        if lits is None:
            return 'unsat', None
        chain += (A,)
    # a negated conjunction of few members: one of them is false
    if depth:
        for k, l in enumerate(lits):
            if l.c and len(l.t) == 1 and KIND[next(iter(l.t))] == CONJ and len(COMPS[next(iter(l.t))]) <= 4:
                mem = COMPS[next(iter(l.t))]
                if all(m.__class__ is not int and len(m.t) == 1 and KIND[next(iter(m.t))] != CONJ for m in mem):
                    continue
                res = 'unsat'
                for m in mem:
                    r, w = _solve(lits[:k] + lits[k + 1:] + [fnot(m)], timeout, depth - 1, chain, late)
                    if r == 'sat':
                        return r, w
                    if r == 'unknown':
                        res = 'unknown'
                return res, None
    r, w = _random(lits, chain, late)
    if r != 'unknown':
        return r, w
    if late:
        moved = False
        for l, k in late:
            for A in chain[k:]:
                if l.__class__ is not int:
                    g = A.apply(l)
                    moved |= g is not l
                    l = g
            if l.__class__ is int:
                if not l:
                    return 'unsat', None
                continue
            lits.append(l)
    # an identity between composites: by normal forms
    for l in lits:
        if l.__class__ is not int and any(KIND[e] != BASE for e in l.t):
            try:
                if prove_zero(l):
                    return 'unsat', None
            except Unsupported:
                pass
    r, w = _search(lits, timeout)
    if r == 'sat':
        a = {e: np.array([v], dtype=np.uint8) for e, v in w.items()}
        for A in reversed(chain):
            a = A.complete(a, 1)
        w = {e: int(v[0]) for e, v in a.items()}
    return r, w


def _random(lits, chain, late):
    lits = lits + [l for l, k in late]
    base = set(all_leaves(lits))
    for A in chain:
        base.update(A.sub)
    if not lits:
        n, modes = 1, (2,)
    else:
        n, modes = (512 if len(base) > 64 else 4096), (0, 1, 2, 0)
    allowed = {}
    for l in lits:
        if len(l.t) == 1:
            e, tt = next(iter(l.t.items()))
            if KIND[e] == BASE:
                allowed[e] = allowed.get(e, FULL[8]) & (tt ^ FULL[8] if l.c else tt)
                if not allowed[e]:
                    return 'unsat', None
    pick = {e: np.flatnonzero(_tt_arr(tt, 8)).astype(np.uint8) for e, tt in allowed.items()}
    pick_key = allowed.items()
    if late and chain:
        n, modes = 256, (0, 2)
    for mode in modes:
        key = (mode, n, tuple(chain), frozenset(pick_key))
        got = _samples.get(key)
        if got is None or not base <= got[0]:
            a = sample(base, n, mode)
            for e, vals in pick.items():
                bad = ~np.isin(a[e], vals)
                a[e] = np.where(bad, rng.choice(vals, n), a[e])
            for A in reversed(chain):
                a = A.complete(a, n)
            if len(_samples) >= 16:
                del _samples[next(iter(_samples))]
            _samples[key] = got = (set(a), a, Eval(dict(a), n))
        w = evaluate(lits, sorted(base), got[1], n, got[2])
        if w is not None:
            return 'sat', w
    return 'unknown', None


_samples = {}      # sampled inputs are shared by the bits compared on one path
forms.on_reset += [_samples.clear, _deep.clear, Affine.cache.clear]


def _search(lits, timeout):
    base = sorted(all_leaves(lits))
    if len(base) <= 2:
        n = 256 ** len(base)
        ar = np.arange(n)
        a = {b: ((ar >> (8 * i)) & 255).astype(np.uint8) for i, b in enumerate(base)}
        w = evaluate(lits, base, a, n)
        return ('sat', w) if w is not None else ('unsat', None)
    if sum(.1 if KIND[e] == CONJ else 1 for e in _entities(lits)) > Z3_LIMIT:
        return 'unknown', None
    try:
        return _z3(lits, timeout)
    except Unsupported:
        raise
    except Exception:
        return 'unknown', None       # the solver ran out of memory


def _z3(lits, timeout):
    import z3
    ctx = z3.Context()
    ents = _entities(lits)
    if len(ents) > 6000:
        return 'unknown', None
    vs, base = {}, []

    def lit(f):
        acc = None
        for e, tt in f.t.items():
            r = RANK[e]
            v = vs[e]
            if KIND[e] == CONJ:
                b = v
            else:
                w = 1 << r
                ixw = max(w, 8)
                b = None
                for j in range(r):           # single component?
                    if tt == VAR[r][j]:
                        b = z3.Extract(j, j, v)
                        break
                if b is None:
                    sh = z3.LShR(z3.BitVecVal(tt, ixw, ctx), z3.ZeroExt(ixw - v.size(), v) if v.size() < ixw else v)
                    b = z3.Extract(0, 0, sh)
            acc = b if acc is None else acc ^ b
        return ~acc if f.c else acc
    s = z3.Solver(ctx=ctx)
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", 1)
    for e in ents:
        if KIND[e] == BASE:
            vs[e] = z3.BitVec("b%d" % e, 8, ctx)
            base.append(e)
        elif KIND[e] == COMP:
            bits = [lit(c) for c in COMPS[e]]
            x = bits[0] if len(bits) == 1 else z3.Concat(*reversed(bits))
            v = z3.BitVec("c%d" % e, len(bits), ctx)
            s.add(v == x)
            vs[e] = v
        else:
            acc = z3.BitVecVal(1, 1, ctx)
            for c in COMPS[e]:
                acc = acc & (lit(c) if c.__class__ is not int else z3.BitVecVal(c, 1, ctx))
            vs[e] = acc
    for l in lits:
        s.add(lit(l) == 1)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        w = {}
        for b in base:
            x = m.eval(vs[b], model_completion=True)
            w[b] = x.as_long()
        ok = evaluate(lits, base, {b: np.array([w[b]], dtype=np.uint8) for b in base}, 1)
        if ok is None:
            raise Unsupported("solver model does not satisfy the literals")
        return 'sat', w
    return 'unknown', None


# ---- one contract ---------------------------------------------------------------------------
class TimeBudget(Exception):
    pass


SRC_RE = re.compile(r'aes_crypto')


class Check:
    """Runs one entry point for all inputs and compares every path with the contract."""

    def __init__(self, mods, config, probe, overrides=None, cats=None):
        self.cats = cats        # categories of obligations to discharge; None: all
        self.mods = mods
        self.config = config
        self.k = contracts.TABLE[probe]
        self.probe = probe
        self.obligs = []        # failed or undecided obligations
        self.count = {'post': 0, 'frame': 0, 'panic': 0, 'safety': 0, 'leak': 0, 'loop': 0}
        self.solver_time = 0.0
        self.npaths = 0
        self.bounded = None
        self.overrides = overrides
        self.used_contracts = set()
        self.E = None
        self.pbase = {}
        self.ibase = []
        self.vacuous = True

    def engine(self):
        E = sym.Engine(self.mods, intrinsics.Intrinsics(), self.config)
        E.leak_on = True
        E.externs['verif_emit'] = emit
        if self.overrides:
            self.overrides.install(E, self)
        self.E = E
        return E

    def note(self, cat, name, status, msg, w=None, n=None, alt=None):
        """w: values of input bytes (base entity -> byte), or None when the verifier has no failing input"""
        wit = None
        if w is not None:
            wit = {'i': self.to_input(w).hex(), 'n': n, 'p': self.to_slice(w, n), 'state': any(e in w for e in self.E.gbases)}
            if alt is not None:
                wit['i2'] = self.to_input(alt).hex()
        elif n is not None:
            wit = {'i': None, 'n': n, 'p': None, 'state': False}
        self.obligs.append({'cat': cat, 'name': '%s: %s' % (self.probe, name), 'status': status, 'msg': msg, 'witness': wit})

    def want(self, cat):
        return self.cats is None or cat in self.cats

    # -- inputs
    def inputs(self, E, st):
        k = self.k
        self.ibase = [new_base('i%d' % j) for j in range(k.nin)]
        self.icells = [tuple(Form(0, {e: VAR[8][j]}) for j in range(8)) for e in self.ibase]
        i = E.add_obj(st, k.nin, 1, 'in', 'i', list(self.icells), False)
        o = E.add_obj(st, k.nout, 1, 'out', 'o', [None] * k.nout)
        return i, o

    def to_input(self, w):
        return bytes(w.get(b, 0) for b in self.ibase)

    def to_slice(self, w, n):
        """contents of the slice argument, as {offset: byte}"""
        return {str(off): w[e] for off, e in self.pbase.items() if off.__class__ is int and e in w}

    def solve(self, lits):
        t = time.time()
        try:
            return solve(lits)
        except Unsupported:
            return 'unknown', None
        finally:
            self.solver_time += time.time() - t

    def under(self, st, d):
        """is bit form d zero on the path of st?  -> ('proved'|'failed'|'undecided', witness)"""
        if d.__class__ is int:
            if d == 0:
                return 'proved', None
        else:
            if self.E.implied(st, d) == 0:
                return 'proved', None
        r, w = self.solve([d] + [l for l in st.pc])
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            return 'failed', w
        return 'undecided', None

    def compare(self, cat, label, st, got, want, n=None):
        """byte against byte on the path of st; one obligation"""
        if not self.want(cat):
            return True
        self.count[cat] += 1
        E = self.E
        if got is want:
            return True
        g = E.materialise(st, got)
        if g is None:
            r, w = self.solve(list(st.pc))
            if r == 'unsat':
                return True
            self.note(cat, label, 'failed', "byte is not initialised (or holds part of a pointer)", w, n)
            return False
        x, y = bits_of(g, 8), bits_of(want, 8)
        if tuple(x) == tuple(y):
            return True
        for p, q in zip(x, y):
            d = fxor(p, q)
            r, w = self.under(st, d)
            if r != 'proved':
                self.note(cat, label, r, "differs from the specification", w, n)
                return False
        return True

    def reachable(self, st):
        """vacuity guard: some path that the contract speaks about can be taken"""
        if self.vacuous:
            r, w = self.solve(list(st.pc))
            if r == 'sat':
                self.vacuous = False

    def compare_all(self, cat, label, st, got, want, n=None):
        if not self.want(cat):
            return
        self.reachable(st)
        if len(got) != len(want):
            self.count[cat] += 1
            r, w = self.solve(list(st.pc))
            if r != 'unsat':
                self.note(cat, label, 'failed' if r == 'sat' else 'undecided', "%d bytes instead of %d" % (len(got), len(want)), w, n)
            return
        bad = 0
        for j, (g, w) in enumerate(zip(got, want)):
            if not self.compare(cat, "%s[%d]" % (label, j), st, g, w, n):
                bad += 1
                if bad >= 1:
                    return

    def compare_ret(self, st, ret, want, n=None):
        E = self.E
        if not self.want('post'):
            return
        self.reachable(st)
        self.count['post'] += 1
        try:
            ret = E.force(st, ret)
        except sym.NeedFork as nf:
            for c in (nf.cond, lit_not(nf.cond)):
                s2 = st.fork()
                if E.assume(s2, c):
                    self.compare_ret(s2, ret, want, n)
            return
        if want.__class__ is tuple and want and want[0] == 'bit':
            w = [want[1]] + [0] * (E.pb - 1)
        elif want.__class__ is int:
            w = bits_of(want & E.pmask, E.pb)
        else:
            w = want
        if w.__class__ is Lin or ret.__class__ is Lin:
            if ret == w:
                return
            d = lin_add(ret, w, -1) if ret.__class__ in (Lin, int) and w.__class__ in (Lin, int) else None
            if d is not None and d.__class__ is not int and E.implied(st, LinCond('eq', d)) == 1:
                return
            if d == 0:
                return
            self.note('post', 'return value', 'failed', "%r instead of %r" % (ret, w), None, n)
            return
        if ret.__class__ not in (int, tuple):
            self.note('post', 'return value', 'failed', "%r" % (ret,), None, n)
            return
        for p, q in zip(bits_of(ret, E.pb), w):
            r, ww = self.under(st, fxor(p, q))
            if r != 'proved':
                self.note('post', 'return value', r, "differs from the specification", ww, n)
                return

    # -- obligations collected by the engine
    def collect(self, panic_ok=None, n=None):
        E = self.E
        self.count['safety'] += E.obl
        seen = set()
        for f in E.failures:
            key = (f.kind, f.msg, f.fn)
            if key in seen:
                continue
            seen.add(key)
            r, w = self.solve([l for l in f.pc])
            if r == 'unsat':
                continue
            self.note('safety', "%s in %s" % (f.kind, f.fn), 'failed' if r == 'sat' else 'undecided', f.msg + " [" + " > ".join(f.stack[-4:]) + "]", w, n)
        self.count['panic'] += 1
        for st, what, stack in E.panics:
            if panic_ok is not None and panic_ok(st):
                continue
            key = ('panic', what, stack[-1] if stack else '')
            if key in seen:
                continue
            seen.add(key)
            r, w = self.solve([l for l in st.pc])
            if r == 'unsat':
                continue
            self.note('panic', "panics: " + what, 'failed' if r == 'sat' else 'undecided', "panic reachable [" + " > ".join(stack[-4:]) + "]", w, n)
        self.count['leak'] += E.nbranch + E.obl
        if self.want('leak'):
            self.collect_leaks()
        self.count['frame'] += 1
        for g in sorted(E.state_opaque):
            self.note('frame', "mutable global %s" % g, 'undecided', "assumed to hold its initial value; the result may depend on call history")

    def collect_leaks(self):
        """control flow and addresses take one value only, whatever the input bytes"""
        E = self.E
        seen = set()
        tries = {}
        for what, fn, stack, pc, bits in E.leaks:
            key = (what, fn)
            if key in seen:
                continue
            if tries.get(key, 0) >= 8:
                continue
            tries[key] = tries.get(key, 0) + 1
            pc = [l for l in pc]
            for b in bits:
                if b.__class__ is int or not (leaves_of(b) - E.gbases):
                    continue
                r1, w1 = self.solve(pc + [b])
                if r1 == 'unsat':
                    continue
                r2, w2 = self.solve(pc + [fnot(b)])
                if r2 == 'unsat':
                    continue
                st = 'failed' if r1 == r2 == 'sat' else 'undecided'
                seen.add(key)
                self.note('leak', "%s in %s" % (what, fn), st, what + " [" + " > ".join(stack[-4:]) + "]", w1, None, w2)
                break

    # -- kinds
    def run(self):
        kind = self.k.kind
        getattr(self, 'run_' + kind)()

    def run_plain(self):
        m = re.fullmatch(r'(?:[ed][124]|ed1|de1|ede1|ded1|ee1|dd1|eu|du|rt|tr)_(16|24|32)', self.probe)
        if m and self.cut_on:
            E = self.engine()
            st = sym.State()
            i, o = self.inputs(E, st)
            k = int(m.group(1))
            S = self.make_cut(E, k)
            self.plain_body(E, st, i, o, S)
            if E.ncut and not self.obligs:
                self.used_contracts.add("key setup: %d bytes of expanded key proved equal to the FIPS-197 key schedule (or its InvMixColumns), then used by name" % E.ncut)
                return
            # the proof through the key schedule did not go through: decide without it
            self.obligs = []
            for c in self.count:
                self.count[c] = 0
        E = self.engine()
        st = sym.State()
        i, o = self.inputs(E, st)
        self.plain_body(E, st, i, o, contracts.SymS)

    cut_on = True

    def make_cut(self, E, k):
        """Names for the bytes of the key schedule.  Once a constructor or conversion has returned, a byte of
        memory whose value is (as a function of the key bytes, for all keys) a byte of the FIPS-197 key schedule or
        of its InvMixColumns image is known only by that name; the cipher is then proved for all values of the
        names, which implies it for the values they stand for."""
        key = self.icells[:k]
        aes = contracts.SymS.aes
        rks = aes.key_expansion(list(key))
        cut, named = {}, []
        names = {}
        for r in rks:
            row = []
            for b in r:
                if len(b[0].t) == 1 and b in self.iset():
                    row.append(b)
                    continue
                nb = names.get(b)
                if nb is None:
                    e = new_base('w%d' % len(names))
                    nb = names[b] = tuple(Form(0, {e: VAR[8][j]}) for j in range(8))
                row.append(nb)
                cut[b] = nb
            named.append(row)
        for r, nr in list(zip(rks, named))[1:-1]:
            for x, y in zip(aes.inv_mix_columns(r), aes.inv_mix_columns(nr)):
                cut.setdefault(x, y)
        E.cut = cut

        class CutAes(fips197.Aes):
            def key_expansion(s, kb):
                if list(kb) == list(key):
                    return [list(r) for r in named]
                return fips197.Aes.key_expansion(s, kb)

        class S(contracts.SymS):
            pass
        S.aes = CutAes(fips197.FormOps)
        return S

    def iset(self):
        return set(self.icells)

    def plain_body(self, E, st, i, o, S):
        paths = E.call_fn(st, self.probe, [i, o, 0, 0])
        self.npaths = len(paths)
        if not self.want('post'):
            self.collect()
            return
        res = self.k.spec(S, self.icells)
        for st, ret in paths:
            cells = E.obj(st, o.obj).cells
            self.compare_all('post', 'o', st, cells[:len(res.out)], res.out)
            for j in range(len(res.out), len(cells)):
                self.count['frame'] += 1
                if cells[j] is not None:
                    self.note('frame', 'o[%d] untouched' % j, 'failed', "written")
            self.compare_ret(st, ret, res.ret)
            if res.emit or st.out:
                self.compare_all('post', 'text', st, list(st.out), res.emit)
        self.collect()

    def slice_obj(self, E, st, unit, align, writable, gen=None):
        n = lin_var('n')
        def byte(off):
            e = self.pbase.get(off)
            if e is None:
                e = self.pbase[off] = new_base('p%r' % (off,))
            return tuple(Form(0, {e: VAR[8][j]}) for j in range(8))
        g = gen or byte
        size = lin_mul(n, unit)
        p = E.add_obj(st, size, align, 'slice', 'p', {}, writable, g)
        E.assume(st, LinCond('ge', lin_add((E.pmask >> 1), size, -1)))      # no object exceeds isize::MAX bytes
        return p, n, g

    def split_n(self, st, N):
        """(state, 1 if n >= N else 0) for each possibility left on the path"""
        E = self.E
        c = LinCond('ge', lin_add(lin_var('n'), -N))
        v = E.implied(st, c)
        if v is not None:
            return [(st, v)]
        s2 = st.fork()
        out = []
        if E.assume(st, c):
            out.append((st, 1))
        if E.assume(s2, lit_not(c)):
            out.append((s2, 0))
        return out

    def run_try(self):
        N = self.k.nout
        E = self.engine()
        st = sym.State()
        i, o = self.inputs(E, st)
        p, n, g = self.slice_obj(E, st, 1, 1, False)
        # a slice has at most isize::MAX bytes
        paths = E.call_fn(st, self.probe, [i, o, p, n])
        self.npaths = len(paths)
        kinds = set()
        for st0, ret in paths:
            for st, long in self.split_n(st0, N):
                kinds.add(long)
                cells = E.obj(st, o.obj).cells
                if long:
                    self.compare_all('post', 'o', st, cells, [g(j) for j in range(N)], N)
                    self.compare_ret(st, ret, E.pmask, N)
                else:
                    self.count['frame'] += 1
                    if any(E.resolve_cell(st, c) is not None for c in cells):
                        self.note('frame', 'o untouched on error', 'failed', "written", None, 0)
                    self.compare_ret(st, ret, n, N - 1)
        self.count['post'] += 1
        if kinds != {0, 1} and not E.panics and not E.failures:
            self.note('post', 'both outcomes reachable', 'failed', "outcomes %s" % kinds)
        self.collect(None, N)

    def run_store(self):
        N = self.k.nin
        E = self.engine()
        st = sym.State()
        i, o = self.inputs(E, st)
        p, n, g = self.slice_obj(E, st, 1, 1, True)
        paths = E.call_fn(st, self.probe, [i, o, p, n])
        self.npaths = len(paths)
        for st0, ret in paths:
            for st, long in self.split_n(st0, N):
                self.count['panic'] += 1
                if not long:
                    self.note('panic', 'panics when the slice is too short', 'failed', "returns normally with n < %d" % N, None, N - 1)
                    continue
                self.compare_ret(st, ret, 0, N)
                ob = E.obj(st, p.obj)
                self.compare_all('post', 'p', st, [E.lazy_cell(st, ob, j) for j in range(N)], self.icells, N)
                for off, c in list(ob.cells.items()):
                    if off.__class__ is int and off < N:
                        continue
                    self.compare('frame', 'p[%r] unchanged' % (off,), st, c, g(off), 2 * N)
        self.count['panic'] += 1

        def ok(st):
            return E.implied(st, LinCond('ge', lin_add(lin_var('n'), -N))) == 0
        for st, what, stack in E.panics:
            # nothing was written before the panic
            ob = E.obj(st, p.obj)
            for off, c in list(ob.cells.items()):
                self.count['frame'] += 1
                if E.materialise(st, c) != g(off):
                    self.note('frame', 'p[%r] unchanged when panicking' % (off,), 'failed', "written before the panic", None, N - 1)
        if not E.panics:
            self.note('panic', 'panics when the slice is too short', 'failed', "no panic", None, N - 1)
        self.collect(ok, N)

    # -- folds over a slice of round keys
    def rep(self, size):
        """memory image of a block value, as a function of its bytes: list of byte indices (a permutation)"""
        E = self.engine()
        st = sym.State()
        es = [new_base('r%d' % j) for j in range(size)]
        cells = [tuple(Form(0, {e: VAR[8][j]}) for j in range(8)) for e in es]
        i = E.add_obj(st, size, 1, 'in', 'i', list(cells), False)
        o = E.add_obj(st, size, 1, 'out', 'o', [None] * size)
        ps = E.call_fn(st, 'rep_%d' % (size // 16), [i, o, 0, 0])
        if len(ps) != 1 or ps[0][1] != size or E.failures or E.panics:
            raise Unsupported("block type is not %d plain bytes" % size)
        out = E.obj(ps[0][0], o.obj).cells
        ix = {c: j for j, c in enumerate(cells)}
        perm = [ix.get(c if c.__class__ is tuple else None) for c in out]
        if None in perm or sorted(perm) != list(range(size)):
            raise Unsupported("block type is not a permutation of its bytes")
        return perm

    def fold(self, S, op, s, keys):
        f = contracts.per_block(lambda S, a, b: getattr(S.aes, op)(a, b))
        s = [S.bxor(a, b) for a, b in zip(s, keys[0])]
        for k in keys[1:]:
            s = f(S, s, k)
        return s

    def run_chain(self):
        import induct
        size = self.k.nin
        perm = self.rep(size)
        self.suspects = {}
        try:
            induct.chain(self, size, perm)
            return
        except Unsupported as u:
            self.bounded = "fold over any number of keys: induction not established (%s); unrolled for 0..%d keys" % (u, self.unroll)
            self.obligs = []
        for c in self.count:
            self.count[c] = 0
        for n in sorted(self.suspects)[:6] + list(range(0, self.unroll + 1)):
            if n <= 1200 and not self.obligs:
                self.chain_concrete(size, perm, n)

    unroll = 15

    def chain_concrete(self, size, perm, n):
        E = self.engine()
        st = sym.State()
        i, o = self.inputs(E, st)
        keys, mem = [], []
        self.pbase = {}
        for j in range(n):
            es = [new_base('k%d_%d' % (j, b)) for b in range(size)]
            kb = [tuple(Form(0, {e: VAR[8][b]}) for b in range(8)) for e in es]
            keys.append(kb)
            mem += [kb[perm[b]] for b in range(size)]
            for b in range(size):
                self.pbase[j * size + b] = es[perm[b]]
        p = E.add_obj(st, size * n, 64, 'in', 'p', mem, False)
        paths = E.call_fn(st, self.probe, [i, o, p, n])
        self.npaths += len(paths)
        self.count['panic'] += 1
        if n == 0:
            if paths or not E.panics:
                self.note('panic', 'panics on an empty slice', 'failed', "returns normally", None, 0)
            self.collect(lambda st: True, 0)
            return
        want = self.fold(contracts.SymS, self.k.spec, self.icells, keys)
        for st, ret in paths:
            self.compare_all('post', 'o (n=%d)' % n, st, E.obj(st, o.obj).cells, want, n)
            self.compare_ret(st, ret, 0, n)
        self.collect(None, n)


def emit(E, st, args):
    p = E.force(st, args[0])
    n = E.intr.conc(E, st, args[1])
    st.out = st.out + tuple(E.read(st, p, n, 1) if n else ())
    return [(st, None)]


def _alarm(sig, frm):
    raise TimeBudget()


def run_task(mods, config, probe, budget=240, overrides=None, cats=None):
    """-> result dictionary of one (configuration, entry point)"""
    t = time.time()
    forms.reset()
    c = Check(mods, config, probe, overrides, cats)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    try:
        c.run()
    except Unsupported as u:
        err = "outside the verifier's reach: %s [%s]" % (u, " > ".join((getattr(u, 'loc', None) or [])[-4:]))
    except TimeBudget:
        err = "time budget of %d s exhausted" % budget
    except MemoryError:
        err = "memory budget exhausted"
    except Exception:
        tb = traceback.format_exc()
        err = "verifier error: " + tb.strip().splitlines()[-1][:200] + " ... " + tb[-int(os.environ.get("VERIF_TB", "400")):]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if err is None and c.vacuous and c.want('post') and not c.obligs:
        err = "no reachable path satisfies the precondition (vacuous contract)"
    E = c.E
    fns = sorted({E.demangle.get(f, f) or f for f in E.fn_seen}) if E else []
    return {'config': config, 'probe': probe, 'error': err, 'obligations': c.obligs, 'count': dict(c.count), 'paths': c.npaths, 'time': time.time() - t,
            'solver_time': c.solver_time, 'functions': fns, 'intrinsics': sorted(E.intr.used) if E else [], 'instrs': E.instrs if E else 0, 'bounded': c.bounded,
            'contracts': sorted(c.used_contracts)}
