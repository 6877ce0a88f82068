"""Normal-form domain for bits.

A bit is 0, 1 or a Form.  A Form is  c  XOR  sum_e tt_e(entity e)  where an entity is
  base : an input byte (8 free bits),
  comp : an interned tuple of r <= 8 linearly independent forms (a "byte computed from others"),
  conj : an n-ary AND of forms (one value bit).
tt_e is a truth table over the entity's 2^r values held in a Python int, with tt(0)=0; the linear
part of a comp truth table is always expanded into its components, which makes the form of an AES
round state canonical: S-boxes are truth tables on composites, everything linear is XOR.  "Linear part"
is relative to a fixed complement of the linear functions (LINFUN); for 8-bit composites the complement
contains the S-box and its inverse (with and without the constants 0x63 and 0x52 on the input), so those
expand to nothing.

All operations are exact; two bits with equal forms are equal functions of the inputs.  The converse
(different forms may be equal functions) is settled by `prove_zero` / z3 / evaluation in `decide`.
"""
import itertools, random
import numpy as np

BASE, COMP, CONJ = 0, 1, 2

VAR = {}
for _r in range(0, 9):
    VAR[_r] = [sum(1 << v for v in range(1 << _r) if v >> k & 1) for k in range(_r)]
FULL = [(1 << (1 << r)) - 1 for r in range(9)]


class Unsupported(Exception):
    """The engine cannot express this; never an alarm by itself."""


class Form:
    __slots__ = ("c", "t", "_k")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = (self.c, frozenset(self.t.items()))
        return k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Form):
            return False
        return self.c == o.c and self.t == o.t

    def __repr__(self):
        return "F(%d;%s)" % (self.c, ",".join("%s%d:%x" % ("bcj"[KIND[e]], e, v & 0xffff) for e, v in self.t.items()))


# ---- entities -------------------------------------------------------------
KIND = []      # kind
RANK = []      # number of input bits
COMPS = []     # comp: tuple of Forms (c == 0); conj: tuple of literals; base: None
PIV = []       # comp: list of (eid, mask) pivots, one per component
NAME = []      # base: name
LEAVES = []    # frozenset of base entity ids reachable
_comp_ix = {}
_conj_ix = {}


def reset():
    for l in (KIND, RANK, COMPS, PIV, NAME, LEAVES):
        l.clear()
    _comp_ix.clear()
    _conj_ix.clear()
    _join_cache.clear()
    _rep_cache.clear()
    for f in on_reset:
        f()


on_reset = []      # caches elsewhere that are keyed by entities


def new_base(name):
    e = len(KIND)
    KIND.append(BASE); RANK.append(8); COMPS.append(None); PIV.append(None); NAME.append(name)
    LEAVES.append(frozenset((e,)))
    return e


def base_byte(name):
    """A fresh symbolic byte: list of 8 bits, LSB first."""
    e = new_base(name)
    return [Form(0, {e: VAR[8][k]}) for k in range(8)]


def leaves_of(f):
    s = frozenset()
    for e in f.t:
        s |= LEAVES[e]
    return s


# ---- basic operations -----------------------------------------------------
def fxor(a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        return Form(b.c ^ 1, b.t) if a else b
    if b.__class__ is int:
        return Form(a.c ^ 1, a.t) if b else a
    ta, tb = a.t, b.t
    if len(tb) > len(ta):
        ta, tb = tb, ta
    t = dict(ta)
    for e, v in tb.items():
        o = t.get(e)
        if o is None:
            t[e] = v
        elif o == v:
            del t[e]
        else:
            t[e] = o ^ v
    c = a.c ^ b.c
    if not t:
        return c
    return Form(c, t)


def fnot(a):
    if a.__class__ is int:
        return a ^ 1
    return Form(a.c ^ 1, a.t)


def _dxor(ta, tb):
    t = dict(ta)
    for e, v in tb.items():
        o = t.get(e)
        if o is None:
            t[e] = v
        elif o == v:
            del t[e]
        else:
            t[e] = o ^ v
    return t


def _linfun():
    """Functionals reading off the linear and the constant part of a truth table, as sets of points to sum over.
    Up to rank 7: value at 0 and at the unit points.  Rank 8: chosen to vanish on the S-box and its inverse."""
    lf = {r: [1 << (1 << k) | 1 for k in range(r)] for r in range(0, 9)}
    cf = [1] * 9
    import aesbox
    fns = list(VAR[8]) + [FULL[8]]
    for box, sh in ((aesbox.SBOX, (0, 0x63)), (aesbox.INV, (0, 0x52))):
        for c in sh:
            for j in range(8):
                fns.append(sum(1 << x for x in range(256) if box[x ^ c] >> j & 1))
    # each pivot: a point, and the combination of the given functions that is 1 there and 0 at the other pivots
    basis = []
    for n, f in enumerate(fns):
        comb = 1 << n
        for p, g, cb in basis:
            if f >> p & 1:
                f ^= g
                comb ^= cb
        assert f
        p = (f & -f).bit_length() - 1
        basis = [(q, g ^ f, cb ^ comb) if g >> p & 1 else (q, g, cb) for q, g, cb in basis]
        basis.append((p, f, comb))
    lf[8] = [sum(1 << p for p, g, cb in basis if cb >> k & 1) for k in range(8)]
    cf[8] = sum(1 << p for p, g, cb in basis if cb >> 8 & 1)
    for k, m in enumerate(lf[8] + [cf[8]]):
        for n, f in enumerate(fns):
            assert (f & m).bit_count() & 1 == (1 if n == k else 0)
    return lf, cf


_lin_cache = {}


def from_tt(e, tt):
    """Bit with truth table tt over entity e (tt may have tt(0)=1), normalised."""
    r = RANK[e]
    if KIND[e] != COMP:
        c = tt & 1
        if c:
            tt ^= FULL[r]
        return Form(c, {e: tt}) if tt else c
    d = _lin_cache.get((r, tt))
    if d is None:
        c = (tt & CONFUN[r]).bit_count() & 1
        ks = tuple(k for k in range(r) if (tt & LINFUN[r][k]).bit_count() & 1)
        t = tt ^ FULL[r] if c else tt
        for k in ks:
            t ^= VAR[r][k]
        d = _lin_cache[(r, tt)] = (c, ks, t)
    c, ks, tt = d
    lin = None
    comps = COMPS[e]
    for k in ks:
        lin = comps[k].t if lin is None else _dxor(lin, comps[k].t)
    if lin is None:
        return Form(c, {e: tt}) if tt else c
    if tt:
        # comps never mention e itself
        t = dict(lin)
        t[e] = tt
    else:
        t = lin
    if not t:
        return c
    return Form(c, t)


def _lowbit(x):
    return x & -x


def rref(forms):
    """Canonical reduced basis of the span of the forms' non-constant parts.
    Returns list of (pivot_eid, pivot_mask, dict)."""
    rows = []
    for f in forms:
        d = f.t if isinstance(f, Form) else {}
        for (pe, pm, pd) in rows:
            v = d.get(pe)
            if v is not None and v & pm:
                d = _dxor(d, pd)
        if not d:
            continue
        e = min(d)
        m = _lowbit(d[e])
        for i, (pe, pm, pd) in enumerate(rows):
            v = pd.get(e)
            if v is not None and v & m:
                rows[i] = (pe, pm, _dxor(pd, d))
        rows.append((e, m, d))
    # Full reduction with a canonical pivot choice: the pivot of each row must be its lowest
    # coordinate and no other row may contain it.  Incremental insertion above can leave a row whose
    # lowest coordinate changed; iterate to the fixed point (ranks are tiny).
    changed = True
    while changed:
        changed = False
        rows2 = []
        todo = sorted((r[2] for r in rows), key=lambda d: (min(d), _lowbit(d[min(d)])))
        for d in todo:
            for (pe, pm, pd) in rows2:
                v = d.get(pe)
                if v is not None and v & pm:
                    d = _dxor(d, pd)
            if not d:
                continue
            e = min(d)
            m = _lowbit(d[e])
            for i, (pe, pm, pd) in enumerate(rows2):
                v = pd.get(e)
                if v is not None and v & m:
                    rows2[i] = (pe, pm, _dxor(pd, d))
                    changed = True
            rows2.append((e, m, d))
        rows = rows2
        # verify lowest-coordinate property
        for (e, m, d) in rows:
            e2 = min(d)
            if e2 != e or _lowbit(d[e2]) != m:
                changed = True
    rows.sort(key=lambda r: (r[0], r[1]))
    return rows


def intern_comp(rows, gens=None):
    """The composite of a span (given by its canonical basis); its components are `gens` if those are a basis too and
    the composite is new."""
    comps = tuple(Form(0, r[2]) for r in rows)
    key = tuple(c.key() for c in comps)
    e = _comp_ix.get(key)
    if e is None:
        e = len(KIND)
        r = len(comps)
        piv = [(row[0], row[1], row[2], VAR[r][k]) for k, row in enumerate(rows)]
        if gens is not None and len(gens) == r:
            # rows in terms of gens: invert the matrix of gens in terms of rows
            m = []
            for n, g in enumerate(gens):
                a = 0
                for k, row in enumerate(rows):
                    v = g.t.get(row[0])
                    if v is not None and v & row[1]:
                        a |= 1 << k
                m.append([a, 1 << n])
            inv = [0] * r
            for k in range(r):
                j = next(j for j in range(k, r) if m[j][0] >> k & 1)
                m[k], m[j] = m[j], m[k]
                for j in range(r):
                    if j != k and m[j][0] >> k & 1:
                        m[j][0] ^= m[k][0]
                        m[j][1] ^= m[k][1]
            piv = []
            for k, row in enumerate(rows):
                tt = 0
                for n in range(r):
                    if m[k][1] >> n & 1:
                        tt ^= VAR[r][n]
                piv.append((row[0], row[1], row[2], tt))
            comps = tuple(Form(0, g.t) for g in gens)
        KIND.append(COMP); RANK.append(r); COMPS.append(comps)
        PIV.append(piv); NAME.append(None)
        s = frozenset()
        for c in comps:
            s |= leaves_of(c)
        LEAVES.append(s)
        _comp_ix[key] = e
    return e


def _reduce_on(e, f):
    """If f is a function of comp e's inputs: its truth table (with constant), else None."""
    t = f.t
    tt = t.get(e, 0)
    r = RANK[e]
    if len(t) == 1 and tt:
        return tt ^ FULL[r] if f.c else tt
    d = t
    if tt:
        d = dict(t)
        del d[e]
    for pe, pm, row, rtt in PIV[e]:
        v = d.get(pe)
        if v is not None and v & pm:
            d = _dxor(d, row)
            tt ^= rtt
    if d:
        return None
    return tt ^ FULL[r] if f.c else tt


def common_entity(forms):
    """Entity e such that every form is a function of e alone, with their truth tables, or None."""
    es = set()
    for f in forms:
        es.update(f.t)
    if len(es) == 1:
        e = next(iter(es))
        r = RANK[e]
        return e, [f.t[e] ^ FULL[r] if f.c else f.t[e] for f in forms]
    n = 0
    for e in sorted(es, reverse=True):
        if KIND[e] != COMP:
            continue
        cols = []
        for f in forms:
            c = _reduce_on(e, f)
            if c is None:
                break
            cols.append(c)
        else:
            return e, cols
        n += 1
        if n >= 4:
            break
    return None


_join_cache = {}


def join_entities(forms, maxrank=8):
    """Smallest composite containing the inputs of all the forms' entities (one level of composites
    opened, conjunctions opened down to their literals), or None when its rank exceeds maxrank."""
    gens = []
    seen = set()

    def addform(f, depth):
        rest = {}
        for e, tt in f.t.items():
            if KIND[e] == COMP:
                if e not in seen:
                    seen.add(e)
                    gens.extend(COMPS[e])
            elif KIND[e] == CONJ:
                if e not in seen:
                    seen.add(e)
                    for l in COMPS[e]:
                        addform(l, depth + 1)
            else:
                rest[e] = tt
        # The part on base entities: a nonlinear table on a base byte stays one generator.
        if rest:
            gens.append(Form(0, rest))
    for f in forms:
        addform(f, 0)
    rows = []
    rows = rref(gens)
    if len(rows) > maxrank:
        return None
    return rows


def tt_over(e, f, memo=None):
    """Truth table of f over comp e, opening nested composites/conjunctions; None if not a function."""
    if f.__class__ is int:
        return FULL[RANK[e]] if f else 0
    r = RANK[e]
    t0 = _reduce_on(e, f) if KIND[e] == COMP else None
    if t0 is not None:
        return t0
    if memo is None:
        memo = {}
    acc = FULL[r] if f.c else 0
    rest = {}
    for g, tt in f.t.items():
        if g == e:
            acc ^= tt
            continue
        if KIND[g] == BASE:
            rest[g] = tt
            continue
        m = memo.get(g)
        if m is None:
            if KIND[g] == COMP:
                cols = [tt_over(e, c, memo) for c in COMPS[g]]
                m = None if any(c is None for c in cols) else cols
            else:
                m = FULL[r]
                for l in COMPS[g]:
                    v = tt_over(e, l, memo)
                    if v is None:
                        m = None
                        break
                    m &= v
                if m is not None:
                    m = [m]
            memo[g] = m if m is not None else False
        if not m:
            return None
        acc ^= compose_tt(tt, RANK[g], m, r)
    if rest:
        t = _reduce_on(e, Form(0, rest))
        if t is None:
            return None
        acc ^= t
    return acc


def compose_tt(tt, rin, cols, r):
    """Truth table over r variables of tt(cols...)."""
    if rin == 1:
        acc = 0
        if tt >> 1 & 1:
            acc = cols[0]
        if tt & 1:
            acc ^= FULL[r] ^ cols[0]
        return acc
    ix = _index(r, cols, range(rin), 0)
    return _arr_tt(_tt_arr(tt, rin)[ix])


_rep_cache = {}


def represent(forms, maxrank=8):
    """(entity, truth tables) such that each form is that function of the entity; raises Unsupported."""
    if len(forms) < 4:
        return _represent(forms, maxrank)
    k = tuple([f.key() for f in forms])
    r = _rep_cache.get(k)
    if r is None:
        r = _rep_cache[k] = _represent(forms, maxrank)
    return r


def _represent(forms, maxrank):
    r = common_entity(forms)
    if r is not None:
        return r
    rows = rref(forms)
    if len(rows) <= maxrank:
        # Prefer opening nested composites when they overlap (gate-level S-boxes on composite bytes)
        e = intern_comp(rows, forms)
        cols = [_reduce_on(e, f) for f in forms]
        return e, cols
    raise Unsupported("function of more than %d independent bits" % maxrank)


def _conj(lits):
    """AND of literal forms, flattened and merged.  Literals over one entity are merged."""
    work = list(lits)
    parts = {}          # (entity) -> tt   for literals over a single entity
    multi = []
    while work:
        f = work.pop()
        if f.__class__ is int:
            if not f:
                return 0
            continue
        if len(f.t) == 1:
            e, tt = next(iter(f.t.items()))
            if KIND[e] == CONJ:
                if not f.c:
                    work.extend(COMPS[e])
                    continue
            r = RANK[e]
            tt = tt ^ FULL[r] if f.c else tt
            o = parts.get(e)
            tt = tt if o is None else tt & o
            if not tt:
                return 0
            parts[e] = tt
            continue
        multi.append(f)
    if len(parts) + len(multi) > 1:
        # a single point of a composite is the conjunction of its components' values
        pts = [e for e, tt in parts.items() if KIND[e] == COMP and not tt & (tt - 1)]
        if pts:
            lits = []
            for e, tt in parts.items():
                if e in pts:
                    v = tt.bit_length() - 1
                    lits += [Form(c.c ^ 1 ^ (v >> k & 1), c.t) for k, c in enumerate(COMPS[e])]
                else:
                    f = from_tt(e, tt)
                    if f.__class__ is int:
                        if not f:
                            return 0
                        continue
                    lits.append(f)
            return _conj(lits + multi)
    out = set()
    for e, tt in parts.items():
        g = from_tt(e, tt)
        if g.__class__ is int:
            if not g:
                return 0
            continue
        out.add(g)
    for f in multi:
        out.add(f)
    for f in multi:
        if Form(f.c ^ 1, f.t) in out:
            return 0
    # a negated conjunction is true when a literal refutes one of its members, and loses members that hold
    for f in [f for f in out if f.c and len(f.t) == 1 and KIND[next(iter(f.t))] == CONJ]:
        mem = COMPS[next(iter(f.t))]
        if any(Form(l.c ^ 1, l.t) in out for l in mem):
            out.discard(f)
        else:
            rest = [l for l in mem if l not in out]
            if len(rest) < len(mem):
                out.discard(f)
                return _conj(list(out) + [fnot(_conj(rest))])
    if not out:
        return 1
    if len(out) == 1:
        return next(iter(out))
    key = frozenset(out)
    e = _conj_ix.get(key)
    if e is None:
        e = len(KIND)
        KIND.append(CONJ); RANK.append(1)
        lits = tuple(sorted(out, key=lambda f: (len(f.t), sorted(f.t.items()), f.c)))
        COMPS.append(lits); PIV.append(None); NAME.append(None)
        s = frozenset()
        for c in lits:
            s |= leaves_of(c)
        LEAVES.append(s)
        _conj_ix[key] = e
    return Form(0, {e: 2})


def fand(a, b):
    if a.__class__ is int:
        return b if a else 0
    if b.__class__ is int:
        return a if b else 0
    if a.t == b.t:
        return a if a.c == b.c else 0
    r = common_entity((a, b))
    if r is not None:
        e, (x, y) = r
        return from_tt(e, x & y)
    if a.c and b.c and _is_conj(a) and _is_conj(b):
        # not(p and q) and not(not p and not q)  =  p xor q
        x, y = COMPS[next(iter(a.t))], COMPS[next(iter(b.t))]
        if len(x) == 2 and len(y) == 2 and {fnot(l) for l in x} == set(y):
            return fxor(x[0], x[1])
    if leaves_of(a) & leaves_of(b) and not (_is_conj(a) or _is_conj(b)):
        rows = join_entities((a, b))
        if rows is not None:
            e = intern_comp(rows)
            x, y = tt_over(e, a), tt_over(e, b)
            if x is not None and y is not None:
                return from_tt(e, x & y)
    return _conj((a, b))


def _is_conj(f):
    return len(f.t) == 1 and KIND[next(iter(f.t))] == CONJ


def for_(a, b):
    if a.__class__ is int:
        return 1 if a else b
    if b.__class__ is int:
        return 1 if b else a
    return fnot(fand(fnot(a), fnot(b)))


def fite(c, a, b):
    if c.__class__ is int:
        return a if c else b
    if a is b or a == b:
        return a
    if a.__class__ is int:
        if b.__class__ is int:
            return c if a else fnot(c)
        return for_(c, b) if a else fand(fnot(c), b)
    if b.__class__ is int:
        return for_(fnot(c), a) if b else fand(c, a)
    r = common_entity((c, a, b))
    if r is not None:
        e, (x, y, z) = r
        return from_tt(e, (x & y) | (z & ~x))
    return fxor(b, fand(c, fxor(a, b)))


_lift_cache = {}
_ix_cache = {}
_tt_np = {}
_tab_np = {}


def _tt_arr(tt, r):
    a = _tt_np.get((tt, r))
    if a is None:
        n = 1 << r
        if r >= 3:
            a = np.unpackbits(np.frombuffer(tt.to_bytes(n // 8, 'little'), dtype=np.uint8), bitorder='little')
        else:
            a = np.array([tt >> v & 1 for v in range(n)], dtype=np.uint8)
        _tt_np[(tt, r)] = a
    return a


def _arr_tt(a):
    return int.from_bytes(np.packbits(a, bitorder='little').tobytes(), 'little')


def _index(r, cols, pos, const):
    """index[v] = const | sum over k of cols[k](v) << pos[k]"""
    k = (r, tuple(cols), tuple(pos), const)
    ix = _ix_cache.get(k)
    if ix is None:
        ix = np.full(1 << r, const, dtype=object if const >> 40 or (pos and max(pos) > 40) else np.int64)
        for c, p in zip(cols, pos):
            ix = ix | (_tt_arr(c, r).astype(ix.dtype) << p)
        _ix_cache[k] = ix
    return ix


def lift(bits, table, nout, tkey=None):
    """Apply a function given as a Python sequence/callable idx -> int (nout bits) to index bits
    (LSB first), at most 8 independent non-constant ones.  Returns list of nout bits."""
    const = 0
    pos = []
    forms = []
    for i, b in enumerate(bits):
        if b.__class__ is int:
            const |= b << i
        else:
            pos.append(i)
            forms.append(b)
    get = table if callable(table) else table.__getitem__
    if not forms:
        v = get(const)
        return [v >> k & 1 for k in range(nout)]
    e, cols = represent(forms)
    r = RANK[e]
    ck = outs = None
    if tkey is not None:
        ck = (tkey, const, tuple(pos), tuple(cols), r, nout)
        outs = _lift_cache.get(ck)
    if outs is None:
        ix = _index(r, cols, pos, const)
        vals = [get(int(i)) for i in ix]
        outs = [_arr_tt(np.array([v >> k & 1 for v in vals], dtype=np.uint8)) for k in range(nout)]
        if ck is not None:
            _lift_cache[ck] = outs
    return [from_tt(e, t) for t in outs]


def lift_tt(bits, tt):
    """Function of at most 8 index bits given by its truth table."""
    const = 0
    pos = []
    forms = []
    for i, b in enumerate(bits):
        if b.__class__ is int:
            const |= b << i
        else:
            pos.append(i)
            forms.append(b)
    if not forms:
        return tt >> const & 1
    e, cols = represent(forms)
    r = RANK[e]
    ix = _index(r, cols, pos, const)
    return from_tt(e, _arr_tt(_tt_arr(tt, max(len(bits), 0))[ix]))


# ---- evaluation -----------------------------------------------------------
class Eval:
    """Vectorised evaluation: assign[eid] = uint8 array for base entities (missing ones read 0)."""

    def __init__(self, assign, n):
        self.assign = assign
        self.n = n
        self.memo = {}

    def entity(self, e):
        v = self.memo.get(e)
        if v is not None:
            return v
        # iterative deepening through recursion limits: composites nest at most a few dozen deep
        if KIND[e] == BASE:
            v = self.assign.get(e)
            if v is None:
                v = np.zeros(self.n, dtype=np.uint8)
        elif KIND[e] == COMP:
            v = np.zeros(self.n, dtype=np.uint8)
            for k, c in enumerate(COMPS[e]):
                v |= (self.form(c) << k).astype(np.uint8)
        else:
            v = np.ones(self.n, dtype=np.uint8)
            for c in COMPS[e]:
                v &= self.form(c)
        self.memo[e] = v
        return v

    def form(self, f):
        if f.__class__ is int:
            return np.full(self.n, f, dtype=np.uint8)
        acc = np.full(self.n, f.c, dtype=np.uint8)
        for e, tt in f.t.items():
            acc ^= _tt_arr(tt, RANK[e])[self.entity(e)]
        return acc


def all_leaves(forms):
    s = set()
    for f in forms:
        if isinstance(f, Form):
            s |= leaves_of(f)
    return s


def prove_zero(f, maxrank=10):
    """True when f is identically 0 by re-normalising over joined composites (sound, incomplete)."""
    if f.__class__ is int:
        return f == 0
    # Base-only nonlinear parts are independent per byte; try to join everything.
    ents = [e for e in f.t if KIND[e] != BASE]
    if not ents:
        return False          # canonical ANF on distinct bytes: nonzero
    rows = join_entities((f,), 8)
    if rows is not None:
        e = intern_comp(rows)
        t = tt_over(e, f)
        if t is not None:
            return t == 0
    # exhaustive over few input bytes
    lv = leaves_of(f)
    if len(lv) <= 2:
        lv = sorted(lv)
        n = 256 ** len(lv)
        ar = np.arange(n)
        ev = Eval({b: ((ar >> (8 * i)) & 255).astype(np.uint8) for i, b in enumerate(lv)}, n)
        return not ev.form(f).any()
    return False


# ---- words ----------------------------------------------------------------
def word_const(bits):
    """int when all bits are constant, else None"""
    v = 0
    i = 0
    for b in bits:
        if b.__class__ is not int:
            return None
        if b:
            v |= 1 << i
        i += 1
    return v


def word(bits):
    v = word_const(bits)
    return tuple(bits) if v is None else v


def bits_of(v, n):
    if v.__class__ is int:
        return [v >> i & 1 for i in range(n)]
    return v


LINFUN, CONFUN = _linfun()
