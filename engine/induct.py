"""Folds over a slice of any length, by induction on the loop that walks it.

The function is executed with a symbolic length n.  The loop whose trip count depends on n is recognised by its path
condition: the facts about n grow from one arrival at its head to the next.  Arrivals 1 and 2 are compared cell by
cell: a cell is constant, moves by a constant stride (pointers, lengths), or holds a byte of a round key or of the
specification's running value, s_m = fold of the first m+1 keys or u_m = s_m xor K_m.  That reading is the candidate
invariant at iteration j >= 1 for every n >= stride*j + c.  It holds at j = 1 by construction.  The third arrival is
replaced by the invariant itself, with j and the running value unknown, and execution goes on: each path either leaves
the loop, and its result is compared with the fold, or comes back to the head, where every cell is compared with the
invariant at j + 1.  Anything that does not fit raises Unsupported; nothing is concluded from it."""
import sym
from forms import *
from forms import Unsupported
from sym import Ptr, Lin, LinCond, lin_var, lin_add, lin_mul
import contracts

J = 'j'
MAX_STRIDE = 8


def fresh(name):
    e = new_base(name)
    return tuple(Form(0, {e: VAR[8][k]}) for k in range(8))


class Chain:
    def __init__(self, c, size, perm):
        self.c, self.size, self.perm = c, size, perm
        self.inv = {q: k for k, q in enumerate(perm)}       # byte index -> memory position
        self.arr = {}           # loop head -> [snapshot]
        self.head = self.cand = None
        self.stay = 0
        self.others = {}
        self.checked = 0
        self.step = contracts.per_block(lambda S, a, b: getattr(S.aes, c.k.spec)(a, b))

    # -- the specification's values
    def key(self, m):
        """bytes of round key number m (int or Lin)"""
        off = lin_mul(m, self.size) if m.__class__ is Lin else m * self.size
        return [self.g(lin_add(off, self.inv[b])) for b in range(self.size)]

    def xor(self, a, b):
        return [contracts.SymS.bxor(x, y) for x, y in zip(a, b)]

    def concrete(self, m):
        """s_m from the function's arguments"""
        while len(self.s) <= m:
            k = len(self.s)
            self.s.append(self.xor(self.c.icells, self.key(0)) if k == 0 else self.step(contracts.SymS, self.s[-1], self.key(k)))
        return self.s[m]

    def general(self, d):
        """s_{stride*j + d} from the unknown running value"""
        ds, S = self.base
        while ds + len(self.gs) <= d:
            self.gs.append(self.step(contracts.SymS, self.gs[-1], self.key(self.at(ds + len(self.gs)))))
        if d < ds:
            raise Unsupported("running value before the loop invariant")
        return self.gs[d - ds]

    def at(self, d):
        return Lin(((J, self.stride),), d)

    def term(self, kind, d, general=True):
        m = self.at(d) if general else d
        if kind == 'k':
            return self.key(m)
        s = self.general(d) if general else self.concrete(d)
        return s if kind == 's' else self.xor(s, self.key(m))

    # -- arrivals at a loop head
    def hook(self, E, f, b, st, env):
        key = (tuple(E.stack), f.name, b)
        if self.head is not None:
            if key == self.head and self.back(E, f, b, st, env):
                return True
            k = self.others[key] = self.others.get(key, 0) + 1
            if k > 3000:
                raise Unsupported("a second loop over the slice")
            return False
        if key in self.skip:
            k = self.others[key] = self.others.get(key, 0) + 1
            if k > 60:
                raise Unsupported("the loop that walks the slice is not inductive")
            return False
        a = self.arr.setdefault(key, [])
        s = self.snapshot(E, f, b, st, env)
        up = [x for x in a if len(x[0].lin) < len(st.lin) and st.lin[:len(x[0].lin)] == x[0].lin]     # earlier on the same path
        if up and self.bound(E, s[0]) == self.bound(E, up[-1][0]):
            self.stay = self.stay + 1
            if self.stay > 300:
                raise Unsupported("the loop does not use up the slice")
            return False                # the pass that ends the loop
        a.append(s)
        del a[:-12]
        if len(up) < 2:
            return False
        a = up[-2:] + [s]
        m = [self.bound(E, x[0]) for x in a]
        if m[1] - m[0] != m[2] - m[1]:
            self.stay += 1
            if self.stay > 300:
                raise Unsupported("no constant number of keys per iteration")
            return False                # the first passes may differ
        self.generalise(E, key, f, b, st, env, a)
        return False

    def snapshot(self, E, f, b, st, env):
        v = st.view()
        mem = {oid: (o.size, list(o.cells)) for oid, o in st.mem.items() if o.cells.__class__ is list}
        return v, mem, {r: env[r] for r in f.live[b] if r in env}

    def bound(self, E, v):
        """largest m with n >= m on the path"""
        m = 0
        while m < 4 * MAX_STRIDE and E.implied(v, LinCond('ge', lin_add(lin_var('n'), -(m + 1)))) == 1:
            m += 1
        return m

    def names(self, E):
        """value of a byte -> its readings (kind, m, byte) at concrete m"""
        out = {}
        for m in range(0, self.c0 + 2 * self.stride + 2):
            for kind in 'suk':
                for b, x in enumerate(self.term(kind, m, False)):
                    out.setdefault(x, []).append((kind, m, b))
        return out

    def generalise(self, E, key, f, b, st, env, a):
        self.cand = key
        (v0, _, _), (v1, mem1, env1), (v2, mem2, env2) = a
        m0, m1, m2 = self.bound(E, v0), self.bound(E, v1), self.bound(E, v2)
        self.stride = m2 - m1
        if not 0 < self.stride <= MAX_STRIDE or m1 - m0 != self.stride:
            raise Unsupported("no constant number of keys per iteration")
        self.c0 = m1 - self.stride      # n >= stride*j + c0
        if any(not isinstance(l, LinCond) for l in v2.pc[len(v0.pc):]):
            raise Unsupported("data-dependent control flow in the loop")
        if set(mem1) != set(mem2):
            raise Unsupported("objects come and go in the loop")
        if E.gbases or E.state_writes:
            raise Unsupported("mutable global state")
        names = self.names(E)
        pb = E.pbytes

        def cell(x, y):
            if x == y and x.__class__ is y.__class__:
                return ('same', x)
            if x.__class__ is tuple and x[0] == 'f' and y.__class__ is tuple and y[0] == 'f' and x[2:] == y[2:]:
                t = value(x[1], y[1])
                return ('part', t, x[2], x[3]) if t else ('junk',)
            r = reading(x, y)
            if r:
                return r
            if self.bytes_count and x.__class__ is int and y.__class__ is int:
                return ('part', value(x, y), 0, 1)
            if data(x) and data(y):
                return ('any',)
            return ('junk',)

        def data(x):
            return x.__class__ is int or (x.__class__ is tuple and x[0] not in ('f', '?'))

        def reading(x, y):
            if not (data(x) and data(y)):
                return None
            for kind, m, bt in names.get(x, ()):
                if (kind, m + self.stride, bt) in names.get(y, ()):
                    return ('term', kind, m - self.stride, bt)

        def value(x, y):
            """word or pointer"""
            if x == y and x.__class__ is y.__class__:
                return ('const', x)
            if x.__class__ is Ptr and y.__class__ is Ptr and x.obj == y.obj:
                d = lin_add(y.off, x.off, -1) if not (x.off.__class__ is tuple or y.off.__class__ is tuple) else None
                if d.__class__ is int:
                    return ('ptr', x.obj, lin_add(x.off, -d), d)
            if x.__class__ in (int, Lin) and y.__class__ in (int, Lin):
                d = lin_add(y, x, -1)
                if d.__class__ is int:
                    return ('lin', lin_add(x, -d), d)
            return None

        self.tmpl = {}
        for oid, (size, c1) in mem1.items():
            c2 = mem2[oid][1]
            out = [None] * len(c1)
            k = 0
            while k < len(c1):
                # a word that counts
                w1, w2 = c1[k:k + pb], c2[k:k + pb]
                if k % pb == 0 and len(w1) == pb and w1 != w2:
                    i1, i2 = word_of(E, w1), word_of(E, w2)
                    if i1 is not None and i2 is not None and (i1.__class__ is Lin or i2.__class__ is Lin or (i1.__class__ is int and i2.__class__ is int)):
                        t = value(i1, i2)
                        if t:
                            for q in range(pb):
                                out[k + q] = ('part', t, q, pb)
                            k += pb
                            continue
                out[k] = cell(c1[k], c2[k])
                k += 1
            if any(t[0] != 'same' for t in out):
                self.tmpl[oid] = out
        self.all = {oid: c1 for oid, (size, c1) in mem1.items()}
        self.regs = {}
        for r, x in env1.items():
            y = env2.get(r)
            t = value(x, y)
            if t is None:
                raise Unsupported("register changes in the loop")
            self.regs[r] = t
        used = sorted({t[2] for ts in self.tmpl.values() for t in ts if t[0] == 'term' and t[1] != 'k'})
        if not used:
            raise Unsupported("no running value found at the loop head")
        self.base = (used[0], [fresh('s%d' % q) for q in range(self.size)])
        self.gs = [self.base[1]]
        # the invariant in place of this arrival
        self.head = key
        st.pc, st.pcset, st.ent, st.lin = v0.pc, v0.pcset, v0.ent, v0.lin
        ok = E.assume(st, LinCond('ge', lin_add(lin_var(J), -1)))
        ok = ok and E.assume(st, LinCond('ge', lin_add(lin_add(lin_var('n'), lin_var(J), -self.stride), -self.c0)))
        if not ok:
            raise Unsupported("invariant is contradictory")
        # it holds at the first two arrivals
        for v, mem, j in ((v1, mem1, 1), (v2, mem2, 2)):
            for oid, ts in self.tmpl.items():
                for t, x in zip(ts, mem[oid][1]):
                    if not self.fits_concrete(E, t, x, j):
                        raise Unsupported("reading of a cell")
        for oid, ts in self.tmpl.items():
            w = E.wobj(st, oid)
            for k, t in enumerate(ts):
                if t[0] != 'same':
                    w.cells[k] = self.instance(E, t)
        for r, t in self.regs.items():
            env[r] = self.val(t)

    def val(self, t, j=None):
        j = lin_var(J) if j is None else j
        mul = lambda d: lin_mul(j, d) if j.__class__ is Lin else j * d
        if t[0] == 'const':
            return t[1]
        if t[0] == 'ptr':
            return Ptr(t[1], lin_add(t[2], mul(t[3])))
        return lin_add(t[1], mul(t[2]))

    def part(self, E, t, j=None):
        return E.to_cells(self.val(t[1], j), ('i', 8 * t[3]))[t[2]]

    def instance(self, E, t):
        if t[0] == 'part':
            return self.part(E, t)
        if t[0] == 'term':
            return self.term(t[1], t[2])[t[3]]
        if t[0] == 'any':
            return fresh('any')
        return None

    def fits_concrete(self, E, t, x, j):
        if t[0] == 'same':
            return x == t[1]
        if t[0] == 'part':
            return x == self.part(E, t, j)
        if t[0] == 'term':
            return x == self.term(t[1], t[2] + self.stride * j, False)[t[3]]
        return True

    def back(self, E, f, b, st, env):
        """True when the invariant is re-established; otherwise (the pass that ends the loop) execution goes on as it is"""
        why = self.mismatch(E, st, env)
        if why is None:
            self.checked += 1
            return True
        k = self.others[self.head] = self.others.get(self.head, 0) + 1
        if k > 10:
            self.suspect(E, st)
            raise Unsupported(why)
        return False

    def mismatch(self, E, st, env):
        j1 = lin_add(lin_var(J), 1)
        if not any(x == J for c in st.lin for x, _ in c.l.t):
            return "an earlier pass"
        if E.implied(st, LinCond('ge', lin_add(lin_add(lin_var('n'), j1, -self.stride), -self.c0))) != 1:
            return "bound of the loop not preserved"
        if {o for o, x in st.mem.items() if x.cells.__class__ is list} != set(self.all):
            return "objects come and go in the loop"
        for r, t in self.regs.items():
            if not self.equal(E, st, env.get(r), self.val(t, j1)):
                return "register %s not preserved" % r
        for oid, c0 in self.all.items():
            cells = st.mem[oid].cells
            ts = self.tmpl.get(oid)
            for k, x in enumerate(cells):
                t = ts[k] if ts else ('same', c0[k])
                x = E.resolve_cell(st, x)
                if t[0] == 'same':
                    ok = x == t[1]
                elif t[0] == 'part':
                    y = self.part(E, t, j1)
                    ok = x == y
                    if not ok and x.__class__ is tuple and y.__class__ is tuple and x[0] == 'f' and y[0] == 'f':
                        ok = x[2:] == y[2:] and self.equal(E, st, x[1], y[1])
                elif t[0] == 'term':
                    m = E.materialise(st, x)
                    ok = m is not None and self.same_byte(E, st, m, self.term(t[1], t[2] + self.stride)[t[3]])
                elif t[0] == 'any':
                    ok = E.materialise(st, x) is not None
                else:
                    ok = True
                if not ok:
                    return "cell %s+%d is not preserved by the loop" % (st.mem[oid].name, k)
        return None

    def equal(self, E, st, x, y):
        if x == y:
            return True
        if x.__class__ is Ptr and y.__class__ is Ptr:
            if x.obj != y.obj or x.off.__class__ is tuple or y.off.__class__ is tuple:
                return False
            x, y = x.off, y.off
        if x.__class__ in (int, Lin) and y.__class__ in (int, Lin):
            d = lin_add(x, y, -1)
            return d == 0 if d.__class__ is int else E.implied(st, LinCond('eq', d)) == 1
        return False

    def same_byte(self, E, st, x, y):
        x, y = bits_of(x, 8), bits_of(y, 8)
        return all(p == q or self.c.under(st, fxor(p, q))[0] == 'proved' for p, q in zip(x, y))

    # -- the whole function
    def pin(self, E, st, v='n'):
        """the unknown length v on this path: int, or Lin in j; None when the path does not fix it"""
        key = (v, st.lin)
        if key in self.pins:
            return self.pins[key]
        m = E.lin_model(st)
        r = None
        if m is not None and v in m:
            cands = [m[v]]
            if J in m:
                for d in (1, 2):        # two points fix the line
                    fix = LinCond('eq', lin_add(lin_var(J), -(m[J] + d)))
                    m2 = E.lin_model(st, (fix,))
                    if m2 is not None and m2[v] != m[v] and (m2[v] - m[v]) % d == 0:
                        k = (m2[v] - m[v]) // d
                        cands.append(Lin(((J, k),), m[v] - k * m[J]))
            for c in cands:
                if E.implied(st, LinCond('eq', lin_add(lin_var(v), c, -1))) == 1:
                    r = c
                    break
        self.pins[key] = r
        return r

    def cases(self, E, st, ret):
        """the path split by the value of n - stride*j when that takes a few values"""
        if self.pin(E, st) is not None:
            return [(st, ret)]
        out, rest = [], ()
        for k in range(6):
            m = E.lin_model(st, rest)
            if m is None:
                return out
            v = lin_add(lin_var('n'), Lin(((J, self.stride),), m['n'] - self.stride * m[J]) if J in m else m['n'], -1)
            s = st.fork()
            self.suspect(E, s, rest)
            if E.assume(s, LinCond('eq', v)):
                out.append((s, ret))
            rest += (LinCond('eq', v, True),)
        raise Unsupported("a path that returns does not fix the length")

    def suspect(self, E, st, rest=()):
        """a small length that takes this path, for a run with that very length"""
        for hi in (40, 300, 1200):
            m = E.lin_model(st, rest + (LinCond('ge', lin_add(hi, lin_var('n'), -1)),))
            if m is not None and 'n' in m:
                self.c.suspects[m['n']] = None
                return

    def norm(self, E, st, off):
        """a position in the slice, with the lengths known"""
        if off.__class__ is Lin:
            r = off.c
            for v, k in off.t:
                x = lin_var(v) if v == J else self.pin(E, st, v)
                if x is None:
                    x = lin_var(v)
                r = lin_add(r, lin_mul(x, k) if x.__class__ is Lin else x * k)
            return r
        return off

    def run(self):
        c = self.c
        E = c.engine()
        E.no_lin_merge = True
        st = sym.State()
        i, o = c.inputs(E, st)
        c.pbase = {}
        ents = {}

        def g(off):
            e = c.pbase.get(off)
            if e is None:
                e = c.pbase[off] = new_base('k%r' % (off,))
                ents[e] = off
            return tuple(Form(0, {e: VAR[8][k]}) for k in range(8))
        self.g = g
        self.s = []
        self.pins = {}
        p, n, _ = c.slice_obj(E, st, self.size, 64, False, g)
        E.loop_hook = self.hook
        paths = E.call_fn(st, c.probe, [i, o, p, n])
        E.loop_hook = None
        c.npaths = len(paths)
        if self.head is None or not self.checked:
            raise Unsupported("no loop over the slice found")
        c.count['loop'] += self.checked * sum(len(x) for x in self.all.values())
        seen_general = False
        for st, ret in [x for st, ret in paths for x in self.cases(E, st, ret)]:
            n = self.pin(E, st)
            if n is None:
                raise Unsupported("a path that returns does not fix the length")
            if n.__class__ is Lin:
                seen_general = True
                want = self.general(n.c - 1)
            else:
                if n == 0:
                    raise Unsupported("returns on an empty slice")
                want = self.concrete(n - 1)
            sub = {}
            for e, off in list(ents.items()):
                q = self.norm(E, st, off)
                if q != off:
                    sub[e] = list(g(q))
            memo = {}
            got = []
            for x in E.obj(st, o.obj).cells:
                m = E.materialise(st, x)
                if m is None:
                    raise Unsupported("result not written")
                got.append(tuple(sym.subst(t, sub, memo) for t in bits_of(m, 8)) if sub and m.__class__ is tuple else m)
            c.compare_all('post', 'o', st, got, want)
            c.compare_ret(st, ret, 0)
        if not seen_general:
            raise Unsupported("the generalised loop never ends")
        if not E.panics:
            raise Unsupported("no panic on an empty slice")
        c.collect(lambda st: self.pin(E, st) == 0)
        if c.obligs:
            for st, _ in paths:
                self.suspect(E, st)
            raise Unsupported("%s: %s" % (c.obligs[0]['name'], c.obligs[0]['msg']))
        c.used_contracts.add("induction over the loop in %s, %d key(s) per iteration" % (self.head[0][-1], self.stride))


def word_of(E, cells):
    if all(x.__class__ is int for x in cells):
        v = 0
        for k, x in enumerate(cells if not E.big else cells[::-1]):
            v |= x << (8 * k)
        return v
    x = cells[0]
    if x.__class__ is tuple and x[0] == 'f' and x[2] == 0 and x[3] == len(cells) and all(y.__class__ is tuple and y[0] == 'f' and y[1] == x[1] and y[2] == q for q, y in enumerate(cells)):
        return x[1]
    return None


def chain(c, size, perm):
    skip, first, mode = set(), None, False
    for k in range(9):
        h = Chain(c, size, perm)
        h.skip, h.bytes_count = skip, mode
        try:
            h.run()
            return
        except Unsupported as u:
            first = first or u
            if h.cand is None or h.cand in skip:
                raise first
            if mode:        # a loop that runs a bounded number of times before it ends can look like the one that walks the slice
                skip = skip | {h.cand}
            mode = not mode
            c.obligs = []
            for x in c.count:
                c.count[x] = 0
    raise first
