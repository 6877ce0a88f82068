"""Symbolic executor / verification-condition generator for LLVM IR over the normal-form domain.

Every function reachable from an entry point is executed for all inputs at once: data are forms over
the input bytes, branches on data fork and re-merge under guards.  Each memory access, arithmetic flag,
`unreachable`, and panic is an obligation; the callers in checks add postconditions and frames."""
import heapq, sys, re
from forms import *
from forms import _conj
import llir
from llir import P, tokenize, ity, PTR, VOID

sys.setrecursionlimit(100000)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "Ptr(%d+%r)" % (self.obj, self.off)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class PhiV:
    """a if cond else b, kept lazily for values that steer control (pointers, lengths)."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond; self.a = a; self.b = b

    def __eq__(self, o):
        return isinstance(o, PhiV) and self.cond == o.cond and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.cond, self.a, self.b))


class Lin:
    """Integer linear expression over named non-negative unknowns (slice lengths, loop counters)."""
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t = t; self.c = c

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        return "Lin(%s%+d)" % ("".join("%+d*%s" % (k, v) for v, k in self.t), self.c)


def lin_var(n):
    return Lin(((n, 1),), 0)


def lin_add(a, b, k=1):
    """a + k*b for int/Lin"""
    if isinstance(a, int):
        a = Lin((), a)
    if isinstance(b, int):
        b = Lin((), b)
    d = dict(a.t)
    for v, c in b.t:
        n = d.get(v, 0) + k * c
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    c = a.c + k * b.c
    if not d:
        return c
    return Lin(tuple(sorted(d.items())), c)


def lin_mul(a, k):
    if k == 0:
        return 0
    return Lin(tuple((v, c * k) for v, c in a.t), a.c * k)


class LinCond:
    """lin >= 0  ('ge')  or  lin == 0  ('eq'), possibly negated for eq"""
    __slots__ = ("k", "l", "neg")

    def __init__(self, k, l, neg=False):
        if k == 'ge' and neg:      # not(l >= 0)  ==  -l-1 >= 0
            l = lin_add(-1, l, -1)
            neg = False
        self.k = k; self.l = l; self.neg = neg

    def __eq__(self, o):
        return isinstance(o, LinCond) and self.k == o.k and self.l == o.l and self.neg == o.neg

    def __hash__(self):
        return hash((self.k, self.l, self.neg))

    def __repr__(self):
        return "%s%s%r" % ("!" if self.neg else "", self.k, self.l)


def lit_not(l):
    if isinstance(l, LinCond):
        return LinCond(l.k, l.l, True) if not l.neg else LinCond(l.k, l.l, False)
    return fnot(l)


def canon_lit(l):
    """(canonical literal, polarity)"""
    if isinstance(l, LinCond):
        if l.k == 'eq':
            return (LinCond('eq', l.l, False), not l.neg)
        n = lit_not(l)
        if l.l.c < n.l.c or (l.l.c == n.l.c and l.l.t < n.l.t):
            return (l, True)
        return (n, False)
    if l.c:
        return (Form(0, l.t), False)
    return (l, True)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


class Obj:
    __slots__ = ("id", "size", "base", "align", "cells", "kind", "tok", "name", "writable", "extra")

    def clone(self, tok):
        o = Obj()
        o.id = self.id; o.size = self.size; o.base = self.base; o.align = self.align
        o.cells = dict(self.cells) if isinstance(self.cells, dict) else list(self.cells)
        o.kind = self.kind; o.tok = tok; o.name = self.name; o.writable = self.writable; o.extra = self.extra
        return o


class State:
    __slots__ = ("mem", "pc", "pcset", "ent", "out", "tok", "lin")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.pcset = frozenset()
        self.ent = {}
        self.out = ()
        self.lin = ()
        self.tok = object()

    def view(self):
        """the path condition alone"""
        s = State()
        s.pc = self.pc; s.pcset = self.pcset; s.ent = self.ent; s.lin = self.lin
        return s

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc; s.pcset = self.pcset; s.ent = self.ent; s.out = self.out; s.lin = self.lin
        self.tok = object()      # both sides copy on write from now on
        return s


class Failure:
    def __init__(self, kind, msg, fn, pc, stack):
        self.kind = kind; self.msg = msg; self.fn = fn; self.pc = pc; self.stack = stack

    def __repr__(self):
        return "%s: %s in %s" % (self.kind, self.msg, self.fn)


NOWRAP = frozenset()
PANIC_RE = re.compile(r'^(<.*>::)?(core|core\[[0-9a-f]+\])::(panicking::|result::unwrap_failed|option::(unwrap_failed|expect_failed)|slice::index::slice_|slice::copy_from_slice_impl::len_mismatch_fail|cell::panic|str::slice_error_fail)')


RAW_RE = re.compile(r'core::slice::raw::from_raw_parts(_mut)?::precondition_check$')


class Engine:
    def __init__(self, mods, intrinsics, name=""):
        self.mods = mods
        self.name = name
        m0 = mods[0]
        self.big = m0.endian == 'big'
        self.pb = m0.ptrbits
        self.pbytes = self.pb // 8
        self.pmask = (1 << self.pb) - 1
        self.intr = intrinsics
        self.funcs = {}
        self.demangle = {}
        for m in mods:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
            self.demangle.update({k: v for k, v in m.demangle.items() if v})
        self.gobjs = {}          # name -> obj id
        self.mem0 = {}           # immutable objects: globals, functions
        self.fnof = {}           # obj id -> function name
        self.next_id = 1
        self.next_base = 0x10000
        self.externs = {}        # name -> handler(engine, st, args) -> list[(st, ret)]
        self.overrides = {}      # function name -> handler
        self.obl = 0             # obligations generated
        self.failures = []
        self.panics = []         # (state, function name, message)
        self.leaks = []
        self.leak_on = False
        self.instrs = 0
        self.max_instrs = 60_000_000
        self.fn_seen = set()
        self.stack = []
        self.summaries = {}
        self.derived = set()
        self.lin_cache = {}
        self.loop_hook = None
        self.deriving = None        # branches seen while a contract is being derived
        self.no_lin_merge = False   # keep paths that differ in facts about lengths apart
        self.state_writes = set()
        self.state_opaque = set()   # mutable globals assumed to hold their initial value
        self.gbases = set()         # bytes of mutable globals
        self.nbranch = 0
        self.lin_divs, self.lin_ivs = {}, {}
        self.max_pending = 600
        self.peak = 0
        self.cut = None          # value -> the name it is known by once a constructor has returned it
        self.ncut = 0

    # ---- objects ---------------------------------------------------------
    def new_obj(self, size, align, kind, name, cells=None, writable=True, extra=None):
        o = Obj()
        o.id = self.next_id
        self.next_id += 1
        a = max(align, 1)
        # least-aligned address the type permits: base = a (mod 2a)
        b = (self.next_base + 2 * a - 1) // (2 * a) * (2 * a) + a
        o.base = b
        sz = size if isinstance(size, int) else 1 << 20
        self.next_base = b + sz + 64
        if self.next_base > self.pmask - (1 << 16):
            self.next_base = 0x10000       # addresses may repeat for dead objects; provenance keeps them apart
        o.size = size; o.align = align; o.kind = kind; o.name = name
        o.cells = cells if cells is not None else [None] * size
        o.writable = writable
        o.tok = None
        o.extra = extra
        return o

    def add_obj(self, st, *a, **k):
        o = self.new_obj(*a, **k)
        o.tok = st.tok
        st.mem[o.id] = o
        return Ptr(o.id, 0)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.mem0.get(oid)
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.mem0.get(oid)
            if o is None:
                return None
            if o.kind == 'global':
                self.state_writes.add(o.name)
            o = o.clone(st.tok)
            st.mem[oid] = o
            return o
        if o.tok is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def global_ptr(self, name):
        oid = self.gobjs.get(name)
        if oid is not None:
            return Ptr(oid, 0)
        for m in self.mods:
            if name in m.globals and not m.globals[name].startswith('external'):
                return self._make_global(m, name)
        # function
        o = self.new_obj(1, 4, 'fn', name, [None], False)
        self.mem0[o.id] = o
        self.gobjs[name] = o.id
        self.fnof[o.id] = name
        return Ptr(o.id, 0)

    def _make_global(self, m, name):
        text = m.globals[name]
        toks = tokenize(text)
        p = P(m, toks)
        const = False
        al = 1
        while True:
            w = p.peek()
            if w == 'constant' or w == 'global':
                const = w == 'constant'
                p.next()
                break
            p.next()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        ty = p.type()
        v = p.value(ty)
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
        if al == 1:
            al = m.align(ty) if ty[0] != 's' or not ty[2] else 1
        size = m.size(ty)
        o = self.new_obj(size, al, 'const' if const else 'global', name, [None] * size, not const)
        self.mem0[o.id] = o
        self.gobjs[name] = o.id
        o.cells = self.const_cells(m, ty, v)
        if not const:
            # mutable state: a call may find anything in it
            if all(c is None or c.__class__ is int for c in o.cells) and size <= 4096:
                def fresh(j):
                    e = new_base('state %s[%d]' % (name[-30:], j))
                    self.gbases.add(e)
                    return tuple(Form(0, {e: VAR[8][k]}) for k in range(8))
                o.cells = [fresh(j) for j in range(size)]
            else:
                self.state_opaque.add(name)
        return Ptr(o.id, 0)

    def const_cells(self, m, ty, v):
        k = ty[0]
        if v[0] == 'z':
            return [0] * m.size(ty)
        if v[0] == 'u':
            return [None] * m.size(ty)
        if k in ('i', 'p'):
            return self.to_cells(self.cval(v, ty), ty)
        if k in ('a', 'v'):
            out = []
            for t, x in zip(v[2], v[1]):
                c = self.const_cells(m, t, x)
                out += c
                if k == 'a':
                    out += [None] * (m.stride(t) - len(c))
            return out
        offs, size = m.struct(ty)
        out = [None] * size
        for o, t, x in zip(offs, v[2], v[1]):
            c = self.const_cells(m, t, x)
            out[o:o + len(c)] = c
        return out

    # ---- values ----------------------------------------------------------
    def cval(self, v, ty, env=None):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'r':
            return env[v[1]]
        if k == 'g':
            return self.global_ptr(v[1])
        if k == 'u':
            if ty[0] in ('v', 'a', 's'):
                return self.undef_agg(ty)
            return UNDEF
        if k == 'z':
            return self.zero(ty)
        if k == 'agg':
            return [self.cval(x, t, env) for x, t in zip(v[1], v[2])]
        if k == 'cast':
            _, op, t, x, t2 = v
            a = self.cval(x, t, env)
            if op in ('inttoptr', 'ptrtoint', 'bitcast', 'ptrtoaddr'):
                return a
            return self.cast(None, op, a, t, t2, NOWRAP)
        if k == 'gep':
            return self.gep(None, v[1], self.cval(v[2], PTR, env), [(t, self.cval(x, t, env)) for t, x in v[3]])
        if k == 'bin':
            return self.binop(None, v[1], v[2], self.cval(v[3], v[2], env), self.cval(v[4], v[2], env), NOWRAP)
        raise Unsupported("constant " + k)

    def zero(self, ty):
        if ty[0] in ('v', 'a'):
            return [self.zero(ty[2])] * ty[1]
        if ty[0] == 's':
            return [self.zero(t) for t in ty[1]]
        return 0

    def undef_agg(self, ty):
        if ty[0] in ('v', 'a'):
            return [self.undef_agg(ty[2])] * ty[1]
        if ty[0] == 's':
            return [self.undef_agg(t) for t in ty[1]]
        return UNDEF

    def to_cells(self, v, ty):
        k = ty[0]
        m = self.mods[0]
        if k in ('v', 'a'):
            if k == 'v' and ty[2] == ('i', 1):
                raise Unsupported("store of <n x i1>")
            out = []
            for x in v:
                out += self.to_cells(x, ty[2])
            return out
        if k == 's':
            offs, size = m.struct(ty)
            out = [None] * size
            for o, t, x in zip(offs, ty[1], v):
                c = self.to_cells(x, t)
                out[o:o + len(c)] = c
            return out
        n = self.pbytes if k == 'p' else (ty[1] + 7) // 8
        c = v.__class__
        if c is int:
            b = [v >> (8 * i) & 255 for i in range(n)]
            if self.big:
                b.reverse()
            return b
        if c is tuple:
            w = ty[1] if k == 'i' else self.pb
            bits = v + (0,) * (8 * n - w)
            out = []
            for i in range(n):
                x = bits[8 * i:8 * i + 8]
                y = word_const(x)
                out.append(x if y is None else y)
            if self.big:
                out.reverse()
            return out
        if v is UNDEF:
            return [None] * n
        if c is Ptr or c is Lin:
            return [('f', v, i, n) for i in range(n)]
        if c is PhiV:
            a = self.to_cells(v.a, ty)
            b = self.to_cells(v.b, ty)
            return [x if x is y or x == y else ('?', v.cond, x, y) for x, y in zip(a, b)]
        if c is LinCond:
            raise NeedFork(v)
        raise Unsupported("store of %s" % c.__name__)

    def from_cells(self, st, cells, ty):
        k = ty[0]
        if k in ('v', 'a'):
            n = self.mods[0].size(ty[2])
            return [self.from_cells(st, cells[i * n:(i + 1) * n], ty[2]) for i in range(ty[1])]
        if k == 's':
            offs, _ = self.mods[0].struct(ty)
            return [self.from_cells(st, cells[o:o + self.mods[0].size(t)], t) for o, t in zip(offs, ty[1])]
        w = self.pb if k == 'p' else ty[1]
        sym = False
        for i, c in enumerate(cells):
            cc = c.__class__
            if cc is int:
                continue
            if cc is tuple:
                if c[0] == 'f':
                    v, idx, n = c[1], c[2], c[3]
                    if n == len(cells) and idx == 0 and all(x.__class__ is tuple and x[0] == 'f' and x[1] == v and x[2] == j for j, x in enumerate(cells)):
                        return v
                    # bytes of a pointer read as data: use the concrete address
                    if all(x.__class__ is int or (x.__class__ is tuple and x[0] == 'f' and isinstance(x[1], Ptr) and isinstance(x[1].off, int)) for x in cells):
                        out = []
                        for x in cells:
                            if x.__class__ is int:
                                out.append(x)
                            else:
                                a = self.addr(st, x[1])
                                j = x[2] if not self.big else x[3] - 1 - x[2]
                                out.append(a >> (8 * j) & 255)
                        return self.from_cells(st, out, ty)
                    if any(x.__class__ is tuple and x[0] == '?' for x in cells):
                        return self.phi_cells(st, cells, ty)
                    return self.lin_cells(st, cells, w)
                if c[0] == '?':
                    return self.phi_cells(st, cells, ty)
                sym = True
                continue
            if c is None:
                if all(x is None for x in cells):
                    return UNDEF
                raise Unsupported("partially uninitialised read")
        if self.big:
            cells = cells[::-1]
        if not sym:
            v = 0
            for i, c in enumerate(cells):
                v |= c << (8 * i)
            return v & ((1 << w) - 1)
        bits = []
        for c in cells:
            if c.__class__ is int:
                bits += [c >> j & 1 for j in range(8)]
            else:
                bits += c
        return tuple(bits[:w])

    def resolve_cell(self, st, c):
        while c.__class__ is tuple and c[0] == '?':
            r = self.implied(st, c[1])
            if r is None:
                return c
            c = c[2] if r else c[3]
        return c

    def materialise(self, st, c):
        """data byte of a possibly lazily merged cell; None when it is uninitialised or part of a pointer"""
        c = self.resolve_cell(st, c)
        if c.__class__ is tuple:
            if c[0] == '?':
                if not isinstance(c[1], Form):
                    return None
                s1, s2 = st.view(), st.view()
                if not self.assume(s1, c[1]):
                    return self.materialise(s2, c[3])
                if not self.assume(s2, lit_not(c[1])):
                    return self.materialise(s1, c[2])
                a, b = self.materialise(s1, c[2]), self.materialise(s2, c[3])
                if a is None or b is None:
                    return None
                return self.cell_ite(c[1], a, b)
            if c[0] == 'f':
                return None
        return c

    def lin_cells(self, st, cells, w):
        """integer made of constant bytes and of (pieces of) stored lengths"""
        if self.big:
            cells = cells[::-1]
        out, k = 0, 0
        while k < len(cells):
            x = cells[k]
            if x.__class__ is int:
                out, k = (lin_add(x << (8 * k), out) if out.__class__ is Lin else out + (x << (8 * k))), k + 1
                continue
            if x.__class__ is not tuple or x[0] != 'f' or x[1].__class__ is not Lin:
                raise Unsupported("partial read of a pointer or length")
            v, n = x[1], x[3]
            lo = x[2] if not self.big else n - 1 - x[2]
            e = k + 1
            while e < len(cells) and cells[e].__class__ is tuple and cells[e][0] == 'f' and cells[e][1] == v and cells[e][3] == n and \
                    (cells[e][2] if not self.big else n - 1 - cells[e][2]) == lo + e - k:
                e += 1
            if lo:
                v = self.lin_divrem(st, v, 1 << (8 * lo))[0]
            if lo + e - k < n and v.__class__ is Lin and self.implied(st, LinCond('ge', lin_add((1 << 8 * (e - k)) - 1, v, -1))) != 1:
                v = self.lin_divrem(st, v, 1 << (8 * (e - k)))[1]
            elif v.__class__ is int:
                v &= (1 << 8 * (e - k)) - 1
            out = lin_add(out, v, 1 << (8 * k)) if v.__class__ is Lin or out.__class__ is Lin else out + (v << (8 * k))
            k = e
        if w < 8 * len(cells):
            raise Unsupported("partial read of a pointer or length")
        return out

    def phi_cells(self, st, cells, ty):
        """Read over lazily merged cells."""
        cells = [self.resolve_cell(st, c) for c in cells]
        ph = [c for c in cells if c.__class__ is tuple and c[0] == '?']
        if not ph:
            return self.from_cells(st, cells, ty)
        if len(cells) == 1 or (ty[0] == 'i' and ty[1] != self.pb) :
            ms = [self.materialise(st, c) for c in cells]
            if all(m is not None for m in ms):
                return self.from_cells(st, ms, ty)
        raise NeedFork(ph[0][1])

    @staticmethod
    def cell_ite(cond, a, b):
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        x = bits_of(a, 8)
        y = bits_of(b, 8)
        r = tuple(fite(cond, p, q) for p, q in zip(x, y))
        v = word_const(r)
        return r if v is None else v

    def addr(self, st, p):
        if p.__class__ is int:
            return p
        o = self.obj(st, p.obj) if st is not None else self.mem0.get(p.obj)
        if o is None:
            o = self.mem0.get(p.obj)
        if o is None:
            raise Unsupported("address of a dead object")
        if isinstance(p.off, Lin) and st is not None:
            return self.lin_fit(st, lin_add(p.off, o.base), self.pb)
        if not isinstance(p.off, int):
            raise Unsupported("address of a symbolic offset")
        return (o.base + p.off) & self.pmask

    # ---- path conditions -------------------------------------------------
    def implied(self, st, f):
        """1/0 when the path condition decides literal f, else None"""
        if f.__class__ is int:
            return f
        if isinstance(f, LinCond):
            if f in st.pcset:
                return 1
            return self.lin_decide(st, f)
        s = st.pcset
        if f in s:
            return 1
        if Form(f.c ^ 1, f.t) in s:
            return 0
        if len(f.t) == 1:
            e, tt = next(iter(f.t.items()))
            known = st.ent.get(e)
            if known is not None:
                r = RANK[e]
                if f.c:
                    tt ^= FULL[r]
                if not known & tt:
                    return 0
                if not known & ~tt:
                    return 1
            if KIND[e] == CONJ:
                # conj implied / refuted by its literals
                allin = True
                for l in COMPS[e]:
                    v = self.implied(st, l)
                    if v == 0:
                        return f.c
                    if v is None:
                        allin = False
                if allin:
                    return 1 ^ f.c
        elif st.ent:
            r = common_entity((f,))
            if r is not None and r[0] in st.ent:
                e, (tt,) = r
                known = st.ent[e]
                if not known & tt:
                    return 0
                if not known & ~tt:
                    return 1
        return None

    def assume(self, st, f):
        """Adds literal f to the path condition (in place); False when infeasible."""
        v = self.implied(st, f)
        if v == 1:
            return True
        if v == 0:
            return False
        if self.deriving is not None:
            self.deriving += 1
            if self.deriving > 4000 or len(st.pc) > 12:
                raise Unsupported("too many paths for a contract without conditions")
        st.pc = st.pc + (f,)
        st.pcset = st.pcset | {f}
        if isinstance(f, LinCond):
            st.lin = st.lin + (f,)
            return True
        self._learn(st, f)
        return True

    def _learn(self, st, f):
        todo = [f]
        ent = dict(st.ent)
        extra = set()
        while todo:
            g = todo.pop()
            if g.__class__ is int:
                continue
            r = common_entity((g,))
            if r is not None:
                e, (tt,) = r
                if KIND[e] == CONJ:
                    if tt == 2:
                        todo.extend(COMPS[e])
                        extra.update(COMPS[e])
                    continue
                ent[e] = ent.get(e, FULL[RANK[e]]) & tt
        st.ent = ent
        if extra:
            st.pcset = st.pcset | extra

    def lin_quick(self, st, f):
        """by the bounds of the single unknowns"""
        iv = self.lin_ivs.get(st.lin)
        if iv is None:
            iv = {}
            for c in st.lin:
                if len(c.l.t) == 1 and not c.neg:
                    (v, k), b = c.l.t[0], c.l.c
                    lo, hi = iv.get(v, (0, None))
                    # k*v + b >= 0
                    if k > 0:
                        lo = max(lo, -(b // k))
                    if k < 0:
                        h = b // -k
                        hi = h if hi is None else min(hi, h)
                    if c.k == 'eq' and b % k == 0:
                        lo = hi = -b // k
                    elif c.k == 'eq':
                        continue
                    iv[v] = (lo, hi)
            self.lin_ivs[st.lin] = iv
        lo = hi = f.l.c
        for v, k in f.l.t:
            a, b = iv.get(v, (0, None))
            x, y = (a, b) if k > 0 else (b, a)
            lo = None if lo is None or x is None else lo + k * x
            hi = None if hi is None or y is None else hi + k * y
        if f.k == 'ge':
            return 1 if lo is not None and lo >= 0 else 0 if hi is not None and hi < 0 else None
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return 1 if f.neg else 0
        if lo == 0 and hi == 0:
            return 0 if f.neg else 1
        return None

    def lin_decide(self, st, f):
        key = (f, st.lin)
        v = self.lin_cache.get(key, 0)
        if v != 0 or key in self.lin_cache:
            return v
        r = self.lin_quick(st, f)
        if r is not None:
            self.lin_cache[key] = r
            return r
        import z3
        vs = {}

        def ex(l):
            e = z3.IntVal(l.c)
            for n, k in l.t:
                x = vs.get(n)
                if x is None:
                    x = vs[n] = z3.Int(n)
                e = e + k * x
            return e

        def cond(c):
            e = ex(c.l)
            if c.k == 'ge':
                return e >= 0
            return e != 0 if c.neg else e == 0
        fs = [cond(c) for c in st.lin]
        g = cond(f)
        s = z3.Solver()
        s.add(*fs)
        s.add(*[x >= 0 for x in vs.values()])
        r = None
        s.push(); s.add(z3.Not(g))
        if s.check() == z3.unsat:
            r = 1
        s.pop()
        if r is None:
            s.add(g)
            if s.check() == z3.unsat:
                r = 0
        self.lin_cache[key] = r
        return r

    def lin_fit(self, st, r, n, fl=(), op=''):
        """the n-bit value of an arithmetic result on lengths; forks where it may wrap"""
        m = (1 << n) - 1
        if r.__class__ is int:
            if 'nuw' in fl and not 0 <= r <= m:
                self.fail(st, 'ub', "%s nuw on lengths" % op)
            return r & m
        for k in range(3):
            lo, hi = LinCond('ge', r), LinCond('ge', lin_add(m, r, -1))
            v = self.implied(st, lo)
            if v is None:
                raise NeedFork(lo)
            w = self.implied(st, hi)
            if w is None:
                raise NeedFork(hi)
            if v and w:
                return r
            if 'nuw' in fl:
                self.fail(st, 'ub', "%s nuw on lengths" % op)
            r = lin_add(r, 1 << n, -1 if v else 1)
        raise Unsupported("wrapping length arithmetic")

    def lin_divrem(self, st, a, k):
        """quotient and remainder of a non-negative length by a constant"""
        if k == 1:
            return a, 0
        if all(c % k == 0 for _, c in a.t):
            q = Lin(tuple((v, c // k) for v, c in a.t), a.c // k)
            return q, a.c % k
        b = Lin(tuple((v, c % k) for v, c in a.t if c % k), a.c % k)
        if b.t and self.implied(st, LinCond('ge', lin_add(k - 1, b, -1))) == 1:      # the other terms are multiples of k
            q = lin_add(a, b, -1)
            return (Lin(tuple((v, c // k) for v, c in q.t), q.c // k) if q.__class__ is Lin else q // k), b
        key = (a, k)
        d = self.lin_divs.get(key)
        if d is None:
            i = len(self.lin_divs)
            d = self.lin_divs[key] = (lin_var('q%d' % i), lin_var('r%d' % i))
        q, r = d
        self.assume(st, LinCond('eq', lin_add(lin_add(a, q, -k), r, -1)))
        self.assume(st, LinCond('ge', lin_add(k - 1, r, -1)))
        return d

    def lin_model(self, st, fix=()):
        """values of the unknown lengths on this path, or None"""
        import z3
        vs = {}

        def ex(l):
            e = z3.IntVal(l.c)
            for n, k in l.t:
                e = e + k * vs.setdefault(n, z3.Int(n))
            return e
        s = z3.Solver()
        for c in st.lin + tuple(fix):
            e = ex(c.l)
            s.add(e >= 0 if c.k == 'ge' else e != 0 if c.neg else e == 0)
        s.add(*[x >= 0 for x in vs.values()])
        if s.check() != z3.sat:
            return None
        m = s.model()
        return {n: m.eval(x, model_completion=True).as_long() for n, x in vs.items()}

    def fail(self, st, kind, msg):
        self.failures.append(Failure(kind, msg, self.stack[-1] if self.stack else '?', st.pc if st else (), list(self.stack)))
        raise PathEnd()

    # ---- memory ----------------------------------------------------------
    def access(self, st, p, n, align, write):
        """Checks an access and returns (obj, int offset)."""
        self.obl += 1
        if p.__class__ is PhiV:
            raise NeedFork(p.cond)
        if p.__class__ is not Ptr:
            if p.__class__ is tuple:
                raise Unsupported("access through a computed integer")
            if n == 0:
                return None, 0
            self.fail(st, 'mem', "access of %d bytes through %s pointer" % (n, 'null/invalid' if p.__class__ is int else 'undefined'))
        o = st.mem.get(p.obj)
        if o is None:
            o = self.mem0.get(p.obj)
            if o is None:
                self.fail(st, 'mem', "access to a dead object")
        off = p.off
        if off.__class__ is int and o.size.__class__ is int:
            if off < 0 or off + n > o.size:
                self.fail(st, 'mem', "%s of %d bytes at offset %d of %s (%d bytes)" % ("write" if write else "read", n, off, o.name, o.size))
            if align > 1 and (o.base + off) % align:
                self.fail(st, 'mem', "%s at alignment %d of %s+%d" % ("write" if write else "read", align, o.name, off))
        else:
            if off.__class__ is tuple:
                return o, off
            hi = lin_add(lin_add(o.size, off, -1), -n)
            lo = off if isinstance(off, Lin) else None
            ok = True
            for l in (hi, lo):
                if l is None:
                    continue
                if isinstance(l, int):
                    ok = ok and l >= 0
                else:
                    if self.implied(st, LinCond('ge', l)) != 1:
                        ok = False
            if isinstance(off, int) and off < 0:
                ok = False
            if not ok:
                self.fail(st, 'mem', "%s of %d bytes at offset %r of %s (%r bytes) not within bounds" % ("write" if write else "read", n, off, o.name, o.size))
            if align > 1:
                c = off if isinstance(off, int) else off.c
                ks = [] if isinstance(off, int) else [k for _, k in off.t]
                if (o.base + c) % align or any(k % align for k in ks):
                    self.fail(st, 'mem', "alignment %d of %s+%r" % (align, o.name, off))
        if write and not o.writable:
            self.fail(st, 'mem', "write to read-only %s" % o.name)
        if o.kind == 'fn':
            self.fail(st, 'mem', "data access to function")
        return o, off

    def read(self, st, p, n, align):
        o, off = self.access(st, p, n, align, False)
        if o is None:
            return []
        if off.__class__ is int:
            cs = o.cells
            if cs.__class__ is list:
                return cs[off:off + n]
            return [self.lazy_cell(st, o, off + i) for i in range(n)]
        if off.__class__ is tuple:
            return self.read_sym(st, o, off, n, align)
        return [self.lazy_cell(st, o, lin_add(off, i)) for i in range(n)]

    def lazy_cell(self, st, o, off):
        c = o.cells.get(off)
        if c is None:
            gen = o.extra
            c = gen(off)
            # contents are a function of the position, shared by all states
            o.cells[off] = c
            base = self.mem0.get(('lazy', o.id))
            if base is not None:
                base[off] = c
        return c

    def read_sym(self, st, o, off, n, align):
        """Load at a data-dependent offset: a multiplexer over the (<= 2^8) possible offsets."""
        if self.leak_on:
            self.leak(st, "data-dependent address into %s" % o.name, tuple(off))
        forms = [b for b in off if b.__class__ is not int]
        e, cols = represent(forms)
        pos = [i for i, b in enumerate(off) if b.__class__ is not int]
        const = sum(b << i for i, b in enumerate(off) if b.__class__ is int)
        known = st.ent.get(e, FULL[RANK[e]])
        offs = {}
        for v in range(1 << RANK[e]):
            ix = const
            for p_, c in zip(pos, cols):
                if c >> v & 1:
                    ix |= 1 << p_
            if ix >> (self.pb - 1):
                ix -= 1 << self.pb
            offs[v] = ix
        bad = 0
        for v, ix in offs.items():
            if known >> v & 1 and (ix < 0 or ix + n > o.size or (align > 1 and (o.base + ix) % align)):
                bad |= 1 << v
        if bad:
            cond = from_tt(e, bad)
            if self.implied(st, cond) != 0:
                s2 = st.fork()
                self.assume(s2, cond)
                try:
                    self.fail(s2, 'mem', "read of %d bytes out of bounds of %s (%d bytes) at a data-dependent offset" % (n, o.name, o.size))
                except PathEnd:
                    pass
                if not self.assume(st, fnot(cond)):
                    raise PathEnd()
                known = st.ent.get(e, known)
        cells = o.cells
        out = []
        for k in range(n):
            vals = {}
            allint = True
            for v, ix in offs.items():
                if ix < 0 or ix + n > o.size:
                    vals[v] = 0
                    continue
                c = cells[ix + k]
                if c.__class__ is not int:
                    if c is None:
                        if known >> v & 1:
                            raise Unsupported("uninitialised table entry")
                        c = 0
                    else:
                        allint = False
                vals[v] = c
            if allint:
                acc = [0] * 8
                for v, c in vals.items():
                    b = 1 << v
                    j = 0
                    while c:
                        if c & 1:
                            acc[j] |= b
                        c >>= 1
                        j += 1
                r = [from_tt(e, t) for t in acc]
            else:
                r = [0] * 8
                groups = {}
                for v, c in vals.items():
                    if c.__class__ is tuple and c[0] in ('f', '?'):
                        raise Unsupported("symbolic index into pointers")
                    groups.setdefault(c, 0)
                    groups[c] |= 1 << v
                for c, tt in groups.items():
                    g = from_tt(e, tt)
                    b = bits_of(c, 8)
                    r = [fxor(x, fand(g, y)) for x, y in zip(r, b)]
            w = word_const(r)
            out.append(tuple(r) if w is None else w)
        return out

    def write(self, st, p, cells, align):
        o, off = self.access(st, p, len(cells), align, True)
        if o is None:
            return
        if off.__class__ is not int:
            if off.__class__ is tuple:
                # split on the address
                for b in off:
                    if b.__class__ is not int:
                        if self.leak_on:
                            self.leak(st, "data-dependent write address into %s" % o.name, tuple(off))
                        raise NeedFork(b)
            raise Unsupported("write at a symbolic offset")
        if o.tok is not st.tok:
            o = self.wobj(st, p.obj)
        if o.cells.__class__ is list:
            o.cells[off:off + len(cells)] = cells
        else:
            for i, c in enumerate(cells):
                o.cells[off + i] = c

    def leak(self, st, what, bits=()):
        self.leaks.append((what, self.stack[-1] if self.stack else '?', list(self.stack), st.pc, bits))

    # ---- arithmetic ------------------------------------------------------
    def force(self, st, v):
        """Resolve lazily merged values; int/tuple/Ptr/Lin/UNDEF/LinCond remain."""
        while v.__class__ is PhiV:
            r = self.implied(st, v.cond)
            if r is None:
                raise NeedFork(v.cond)
            v = v.a if r else v.b
        if v.__class__ is LinCond:
            r = self.implied(st, v)
            if r is not None:
                return r
        return v

    def elementwise(self, fn, a, b):
        return [fn(x, y) for x, y in zip(a, b)]

    def binop(self, st, op, ty, a, b, fl):
        if ty[0] == 'v':
            return [self.binop(st, op, ty[2], x, y, fl) for x, y in zip(a, b)]
        n = ty[1]
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            return self.binop_int(st, op, n, a, b, fl)
        if ca is PhiV or ca is LinCond:
            a = self.force(st, a); ca = a.__class__
        if cb is PhiV or cb is LinCond:
            b = self.force(st, b); cb = b.__class__
        if ca is LinCond or cb is LinCond:
            if op == 'xor' and b == 1:
                return lit_not(a)
            if op == 'xor' and a == 1:
                return lit_not(b)
            raise NeedFork(a if ca is LinCond else b)
        if ca is int and cb is int:
            return self.binop_int(st, op, n, a, b, fl)
        if ca is Undef or cb is Undef:
            if op == 'and' and (a == 0 or b == 0):
                return 0
            return UNDEF
        if ca is Ptr or cb is Ptr or ca is Lin or cb is Lin:
            return self.binop_ptr(st, op, n, a, b, fl)
        x = bits_of(a, n)
        y = bits_of(b, n)
        if op == 'xor':
            return word([fxor(p, q) for p, q in zip(x, y)])
        if op == 'and':
            return word(self.and_word(x, y))
        if op == 'or':
            return word([fnot(z) if z.__class__ is not int else z ^ 1 for z in self.and_word([fnot(p) for p in x], [fnot(q) for q in y])]) if not _disjoint(x, y) else word([q if p == 0 and p.__class__ is int else p for p, q in zip(x, y)])
        if op in ('shl', 'lshr', 'ashr'):
            if cb is int:
                if b >= n:
                    if st is not None:
                        self.obl += 1
                        self.fail(st, 'ub', "shift by %d of a %d-bit value" % (b, n))
                    return UNDEF
                if op == 'shl':
                    if fl and ('nuw' in fl and any(z != 0 for z in x[n - b:])):
                        self.check_false(st, [z for z in x[n - b:]], "shl nuw overflows")
                    return word([0] * b + list(x[:n - b]))
                fill = 0 if op == 'lshr' else x[n - 1]
                return word(list(x[b:]) + [fill] * b)
            return self.shift_sym(st, op, n, x, y)
        if op in ('add', 'sub'):
            if op == 'add' and _disjoint(x, y):
                return word([q if p.__class__ is int and p == 0 else p for p, q in zip(x, y)])
            small = self.small(op, n, x, y, fl, st)
            if small is not None:
                return small
            c = 0
            out = []
            if op == 'sub':
                y = [fnot(q) for q in y]
                c = 1
            for p, q in zip(x, y):
                s = fxor(p, q)
                out.append(fxor(s, c))
                c = fite(s, c, p) if s.__class__ is not int else (c if s else p)
            if fl and 'nuw' in fl:
                self.check_false(st, [c if op == 'add' else fnot(c)], "%s nuw overflows" % op)
            return word(out)
        if op == 'mul':
            k, w = (a, y) if ca is int else (b, x) if cb is int else (None, None)
            if k is not None:
                if k & (k - 1) == 0:
                    if k == 0:
                        return 0
                    return self.binop(st, 'shl', ty, word(w), k.bit_length() - 1, fl)
                small = self.small(op, n, x, y, fl, st)
                if small is not None:
                    return small
                acc = 0
                i = 0
                while k >> i:
                    if k >> i & 1:
                        acc = self.binop(st, 'add', ty, acc, word([0] * i + list(w[:n - i])), NOWRAP)
                    i += 1
                if fl and 'nuw' in fl:
                    # bits of w that would be shifted out
                    hb = k.bit_length() - 1
                    if any(z != 0 for z in w[n - hb:]) if hb else False:
                        raise Unsupported("mul nuw")
                return acc
        small = self.small(op, n, x, y, fl, st)
        if small is not None:
            return small
        if op == 'mul':
            acc = 0
            for i in range(n):
                if y[i].__class__ is int and y[i] == 0:
                    continue
                acc = self.binop(st, 'add', ty, acc, word([0] * i + self.and_word(list(x[:n - i]), [y[i]] * (n - i))), NOWRAP)
            return acc
        if op in ('udiv', 'urem') and cb is int and b & (b - 1) == 0 and b:
            k = b.bit_length() - 1
            return word(list(x[k:]) + [0] * k) if op == 'udiv' else word(list(x[:k]) + [0] * (n - k))
        raise Unsupported("symbolic %s i%d" % (op, n))

    def and_word(self, x, y):
        out = []
        hard = None
        for i, (p, q) in enumerate(zip(x, y)):
            if p.__class__ is int:
                out.append(q if p else 0)
            elif q.__class__ is int:
                out.append(p if q else 0)
            else:
                out.append(fand(p, q))
        return out

    def check_false(self, st, bits, msg):
        """obligation: all bits are 0 on this path"""
        self.obl += 1
        if st is None:
            return
        for b in bits:
            v = self.implied(st, b)
            if v == 0:
                continue
            if v is None and b.__class__ is not int and prove_zero(b):
                continue
            s2 = st.fork()
            if v is None:
                self.assume(s2, b)
            try:
                self.fail(s2, 'ub', msg)
            except PathEnd:
                pass
            if v == 1:
                raise PathEnd()
            if not self.assume(st, fnot(b)):
                raise PathEnd()

    def small(self, op, n, x, y, fl, st):
        forms = [z for z in list(x) + list(y) if z.__class__ is not int]
        if len(forms) > 24:
            r = common_entity(forms)
            if r is None:
                return None
        else:
            r = common_entity(forms)
            if r is None:
                if op in ('add', 'sub'):
                    return None
                try:
                    r = represent(forms)
                except Unsupported:
                    return None
        e, cols = r
        it = iter(cols)
        cx = [None if z.__class__ is int else next(it) for z in x]
        cy = [None if z.__class__ is int else next(it) for z in y]
        ax = sum(z << i for i, z in enumerate(x) if z.__class__ is int)
        ay = sum(z << i for i, z in enumerate(y) if z.__class__ is int)
        px = [(i, c) for i, c in enumerate(cx) if c is not None]
        py = [(i, c) for i, c in enumerate(cy) if c is not None]
        acc = [0] * n
        known = st.ent.get(e) if st is not None else None
        bad = 0
        for v in range(1 << RANK[e]):
            if known is not None and not known >> v & 1:
                continue
            a, b = ax, ay
            for i, c in px:
                if c >> v & 1:
                    a |= 1 << i
            for i, c in py:
                if c >> v & 1:
                    b |= 1 << i
            r, ok = arith(op, n, a, b, fl)
            if not ok:
                bad |= 1 << v
                continue
            j = 0
            while r:
                if r & 1:
                    acc[j] |= 1 << v
                r >>= 1
                j += 1
        if bad:
            if st is None:
                raise Unsupported("overflow in constant")
            self.check_false(st, [from_tt(e, bad)], "%s %s overflows or is undefined" % (op, ' '.join(fl)))
        return word([from_tt(e, t) for t in acc])

    def binop_int(self, st, op, n, a, b, fl):
        m = (1 << n) - 1
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'and':
            return a & b
        elif op == 'or':
            return a | b
        elif op == 'xor':
            return a ^ b
        elif op == 'mul':
            r = a * b
        else:
            r, ok = arith(op, n, a, b, fl)
            if not ok:
                if st is None:
                    raise Unsupported("const ub")
                self.fail(st, 'ub', "%s i%d %d, %d (%s)" % (op, n, a, b, ' '.join(fl)))
            self.obl += 1 if fl else 0
            return r
        if fl:
            self.obl += 1
            if 'nuw' in fl and not 0 <= r <= m:
                self.fail(st, 'ub', "%s nuw i%d %d, %d" % (op, n, a, b))
            if 'nsw' in fl:
                h = 1 << (n - 1)
                sa, sb = (a ^ h) - h, (b ^ h) - h
                s = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                if not -h <= s < h:
                    self.fail(st, 'ub', "%s nsw i%d %d, %d" % (op, n, a, b))
        return r & m

    def binop_ptr(self, st, op, n, a, b, fl):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == 'sub' and a.obj == b.obj:
                r = off_add(a.off, b.off, -1)
                return r & self.pmask if isinstance(r, int) else r
            return self.binop_int(st, op, n, self.addr(st, a), self.addr(st, b), fl)
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unsupported("length mixed with data")
            if isinstance(a, Ptr):
                if op == 'add':
                    return Ptr(a.obj, off_add(a.off, b))
                if op == 'sub':
                    return Ptr(a.obj, off_add(a.off, b, -1))
                raise Unsupported("pointer %s length" % op)
            if op == 'add':
                return self.lin_fit(st, lin_add(a, b), n, fl, op)
            if op == 'sub':
                return self.lin_fit(st, lin_add(a, b, -1), n, fl, op)
            if op in ('mul', 'shl') and isinstance(a, Lin) and isinstance(b, int):
                return self.lin_fit(st, lin_mul(a, b if op == 'mul' else 1 << b), n, fl, op)
            if op == 'mul' and isinstance(a, int):
                return self.lin_fit(st, lin_mul(b, a), n, fl, op)
            if op in ('udiv', 'lshr', 'urem', 'and') and isinstance(a, int):
                a, b = (b, a) if op == 'and' else (a, b)
            if isinstance(a, Lin) and isinstance(b, int) and b > 0:
                if op in ('udiv', 'lshr'):
                    return self.lin_divrem(st, a, b if op == 'udiv' else 1 << b)[0]
                if op == 'urem' or (op == 'and' and b & (b + 1) == 0):
                    return self.lin_divrem(st, a, b if op == 'urem' else b + 1)[1]
                if op == 'and':
                    k = (b ^ ((1 << n) - 1)) + 1
                    if k & (k - 1) == 0 and k < 1 << n:
                        return lin_add(a, self.lin_divrem(st, a, k)[1], -1)
            if op == 'and' and b == 0:
                return 0
            raise Unsupported("%s on a symbolic length" % op)
        p, c, left = (a, b, True) if isinstance(a, Ptr) else (b, a, False)
        if isinstance(c, tuple) or not isinstance(p.off, int):
            if op == 'add':
                return self.ptr_add(p, c)
            if isinstance(p.off, Lin) and isinstance(c, int) and st is not None and op in ('and', 'urem', 'udiv', 'lshr'):
                ad = self.addr(st, p)
                return self.binop_ptr(st, op, n, ad if left else c, c if left else ad, fl)
            raise Unsupported("pointer arithmetic %s" % op)
        if op == 'add':
            return Ptr(p.obj, p.off + signed(c, self.pb))
        if op == 'sub' and left:
            return Ptr(p.obj, p.off - signed(c, self.pb))
        ad = self.addr(st, p)
        r = self.binop_int(st, op, n, ad if left else c, c if left else ad, fl)
        if op in ('or', 'and', 'xor') and abs(r - ad) <= 64:
            return Ptr(p.obj, p.off + r - ad)
        return r

    def ptr_add(self, p, c):
        """pointer + byte offset (int already signed / tuple / Lin)"""
        if p.__class__ is int:
            if c.__class__ is int:
                return (p + c) & self.pmask
            if isinstance(c, Lin):
                return lin_add(p, c)
            raise Unsupported("integer pointer + symbolic")
        off = p.off
        if off.__class__ is int and c.__class__ is int:
            return Ptr(p.obj, off + c)
        if isinstance(off, Lin) or isinstance(c, Lin):
            if isinstance(off, tuple) or isinstance(c, tuple):
                raise Unsupported("length and data in an offset")
            return Ptr(p.obj, lin_add(off, c))
        ow = off if off.__class__ is tuple else off & self.pmask
        cw = c if c.__class__ is tuple else c & self.pmask
        r = self.binop(None, 'add', ity(self.pb), ow, cw, NOWRAP)
        if r.__class__ is int:
            r = signed(r, self.pb)
        return Ptr(p.obj, r)

    def shift_sym(self, st, op, n, x, y):
        forms = [z for z in list(x) + list(y) if z.__class__ is not int]
        r = common_entity(forms)
        if r is not None:
            s = self.small(op, n, x, y, NOWRAP, st)
            if s is not None:
                return s
        # barrel shifter on the shift amount bits
        fill = x[n - 1] if op == 'ashr' else 0
        k = (n - 1).bit_length()
        for i in range(k):
            b = y[i]
            sh = 1 << i
            if op == 'shl':
                z = [0] * sh + list(x[:n - sh])
            else:
                z = list(x[sh:]) + [fill] * sh
            x = [fite(b, p, q) if b.__class__ is not int else (p if b else q) for p, q in zip(z, x)]
        self.check_false(st, [z for z in y[k:] if not (z.__class__ is int and z == 0)], "shift amount too large")
        return word(x)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'v':
            return [self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b)]
        ca, cb = a.__class__, b.__class__
        if ca is PhiV or ca is LinCond:
            a = self.force(st, a); ca = a.__class__
        if cb is PhiV or cb is LinCond:
            b = self.force(st, b); cb = b.__class__
        n = self.pb if ty[0] == 'p' else ty[1]
        if ca is int and cb is int:
            return icmp_int(pred, n, a, b)
        if ca is Undef or cb is Undef:
            return UNDEF
        if ca is LinCond or cb is LinCond:
            if cb is int and pred in ('eq', 'ne'):
                return a if (pred == 'eq') == bool(b) else lit_not(a)
            raise NeedFork(a if ca is LinCond else b)
        if ca is Ptr or cb is Ptr or ca is Lin or cb is Lin:
            return self.icmp_ptr(st, pred, n, a, b)
        x = bits_of(a, n)
        y = bits_of(b, n)
        if pred in ('ne',):
            r = self.icmp(st, 'eq', ty, a, b)
            return fnot(r)
        if pred == 'eq':
            lits = []
            for p, q in zip(x, y):
                z = fnot(fxor(p, q))
                if z.__class__ is int:
                    if not z:
                        return 0
                    continue
                lits.append(z)
            r = common_entity(lits) if lits else None
            if r is None and 1 < len(lits) <= 8:
                r = represent(lits)
            if r is not None:
                e, cols = r
                tt = FULL[RANK[e]]
                for c in cols:
                    tt &= c
                return from_tt(e, tt)
            return _conj(lits)
        if pred in ('sgt', 'sge', 'slt', 'sle'):
            x = list(x); y = list(y)
            x[n - 1] = fnot(x[n - 1]); y[n - 1] = fnot(y[n - 1])
            return self.icmp(st, 'u' + pred[1:], ty, word(x), word(y))
        if pred in ('ugt', 'ule'):
            r = self.icmp(st, 'ult', ty, word(y), word(x))
            return r if pred == 'ugt' else fnot(r)
        if pred == 'uge':
            return fnot(self.icmp(st, 'ult', ty, word(x), word(y)))
        # ult
        lt = 0
        for p, q in zip(x, y):
            s = fxor(p, q)
            lt = (q if s else lt) if s.__class__ is int else fite(s, q, lt)
        return lt

    def icmp_ptr(self, st, pred, n, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                x, y = a.off, b.off
                if isinstance(x, int) and isinstance(y, int):
                    return icmp_int(pred if pred in ('eq', 'ne') else 's' + pred[1:], 64, x & M64, y & M64)
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if isinstance(x, Lin) or isinstance(y, Lin):
                        raise Unsupported("compare")
                    xw = x if isinstance(x, tuple) else x & self.pmask
                    yw = y if isinstance(y, tuple) else y & self.pmask
                    return self.icmp(st, pred, ity(self.pb), xw, yw)
                return self.icmp_lin(st, pred, x, y)
            if pred in ('eq', 'ne'):
                return 0 if pred == 'eq' else 1
            return icmp_int(pred, n, self.addr(st, a), self.addr(st, b))
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, tuple) or isinstance(b, tuple):
                raise Unsupported("compare length with other")
            return self.icmp_lin(st, pred, a, b)
        # pointer against integer
        p, c = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(c, tuple):
            raise Unsupported("compare pointer with data")
        if c == 0 and pred in ('eq', 'ne'):
            return 0 if pred == 'eq' else 1
        if not isinstance(p.off, int):
            raise Unsupported("compare symbolic pointer with integer")
        return icmp_int(pred, n, self.addr(st, a), self.addr(st, b))

    def icmp_lin(self, st, pred, a, b):
        n = self.pb
        if pred[0] == 's':
            a, b = (z - (1 << n) if z.__class__ is int and z >> (n - 1) else z for z in (a, b))
            for x in (a, b):
                if x.__class__ is Lin and self.implied(st, LinCond('ge', lin_add((1 << (n - 1)) - 1, x, -1))) != 1:
                    raise Unsupported("signed compare of a length")
        d = lin_add(a, b, -1)
        if isinstance(d, int):
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[pred.lstrip('us') if pred not in ('eq', 'ne') else pred] * 1
        if pred == 'eq':
            c = LinCond('eq', d)
        elif pred == 'ne':
            c = LinCond('eq', d, True)
        elif pred[1:] == 'ge':
            c = LinCond('ge', d)
        elif pred[1:] == 'gt':
            c = LinCond('ge', lin_add(d, -1))
        elif pred[1:] == 'lt':
            c = LinCond('ge', d, True)
        else:
            c = LinCond('ge', lin_add(d, -1), True)
        r = self.implied(st, c)
        return c if r is None else r

    def cast(self, st, op, v, t, t2, fl):
        if t[0] == 'v' and op in ('trunc', 'zext', 'sext'):
            return [self.cast(st, op, x, t[2], t2[2], fl) for x in v]
        c = v.__class__
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            if c in (Ptr, PhiV, Undef, Lin):
                w = t2[1] if t2[0] == 'i' else self.pb
                if w != self.pb:
                    v = self.addr(st, self.force(st, v)) & ((1 << w) - 1)
                return v
            if op == 'inttoptr' and c is int:
                return v & self.pmask
            return v
        if op == 'bitcast':
            return self.bitcast(st, v, t, t2)
        if c is PhiV or c is LinCond:
            v = self.force(st, v)
            c = v.__class__
        if v is UNDEF:
            return UNDEF
        n, n2 = t[1], t2[1]
        if c is LinCond:
            raise NeedFork(v)
        if op == 'trunc':
            if c is int:
                r = v & ((1 << n2) - 1)
                if 'nuw' in fl:
                    self.obl += 1
                    if r != v:
                        self.fail(st, 'ub', "trunc nuw loses bits")
                return r
            if c is Ptr:
                return self.addr(st, v) & ((1 << n2) - 1)
            if c is Lin:
                f = LinCond('ge', lin_add((1 << n2) - 1, v, -1))
                r = self.implied(st, f)
                if 'nuw' in fl:
                    self.obl += 1
                    if r is None:
                        raise NeedFork(f)
                    if r != 1:
                        self.fail(st, 'ub', "trunc nuw loses bits of a length")
                v = v if r == 1 else self.lin_divrem(st, v, 1 << n2)[1]
                return v if n2 > 1 or v.__class__ is int else LinCond('eq', lin_add(v, -1))
            if 'nuw' in fl:
                hi = [z for z in v[n2:] if not (z.__class__ is int and z == 0)]
                if hi:
                    self.check_false(st, hi, "trunc nuw loses bits")
            return word(v[:n2])
        if op == 'zext':
            if c is int:
                return v
            if c is Lin or c is Ptr:
                return v
            return word(tuple(v) + (0,) * (n2 - n))
        if op == 'sext':
            if c is int:
                return v | (((1 << (n2 - n)) - 1) << n if v >> (n - 1) else 0)
            if c is Lin:
                f = LinCond('ge', lin_add((1 << (n - 1)) - 1, v, -1))
                r = self.implied(st, f)
                if r is None:
                    raise NeedFork(f)
                return v if r == 1 else lin_add(v, (1 << n2) - (1 << n))
            if c is Ptr:
                raise Unsupported("sext of a pointer")
            return word(tuple(v) + (v[n - 1],) * (n2 - n))
        raise Unsupported("cast " + op)

    def vec_bits(self, st, v, t):
        """bits in the integer sense of a bitcast to one wide integer (LE: element 0 lowest)"""
        if t[0] != 'v':
            v = self.force(st, v)
            if v is UNDEF:
                return None
            if v.__class__ not in (int, tuple):
                raise Unsupported("bitcast of %s" % v.__class__.__name__)
            return list(bits_of(v, t[1]))
        n = t[2][1]
        out = []
        for x in (v if not self.big else v[::-1]):
            x = self.force(st, x)
            if x is UNDEF:
                return None
            out += bits_of(x, n)
        return out

    def bitcast(self, st, v, t, t2):
        if t == t2 or t[0] == 'p':
            return v
        b = self.vec_bits(st, v, t)
        if b is None:
            if t[0] == 'v' and t2[0] == 'v' and t[1] % t2[1] == 0 or t[0] == 'v':
                # partially undefined vector: keep definedness per element when sizes nest
                raise Unsupported("bitcast of undefined lanes")
            return self.undef_agg(t2)
        if t2[0] != 'v':
            return word(b)
        n = t2[2][1]
        out = [word(b[i * n:(i + 1) * n]) for i in range(t2[1])]
        return out[::-1] if self.big else out

    def gep(self, st, ty, base, idx):
        if base.__class__ is PhiV:
            base = self.force(st, base)
        if base is UNDEF:
            return UNDEF
        m = self.mods[0]
        off = 0
        t = ty
        first = True
        for it, i in idx:
            if i.__class__ is PhiV:
                i = self.force(st, i)
            if i is UNDEF:
                return UNDEF
            if first:
                sz = m.stride(t)
                first = False
            elif t[0] in ('a', 'v'):
                t = t[2]
                sz = m.stride(t)
            elif t[0] == 's':
                offs, _ = m.struct(t)
                off = off_add(off, offs[i])
                t = t[1][i]
                continue
            else:
                raise Unsupported("gep")
            if i.__class__ is int:
                off = self._offadd(off, signed(i, it[1]) * sz)
            elif i.__class__ is Lin:
                off = self._offadd(off, lin_mul(i, sz))
            elif i.__class__ is tuple:
                w = i
                if it[1] < self.pb:
                    w = tuple(w) + (w[-1],) * (self.pb - it[1])
                off = self._offadd(off, self.binop(st, 'mul', ity(self.pb), word(w), sz, NOWRAP))
            else:
                raise Unsupported("gep index")
        if off.__class__ is int and off == 0:
            return base
        return self.ptr_add(base, off)

    def _offadd(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            return a + b
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unsupported("offset")
            return lin_add(a, b)
        aw = a if a.__class__ is tuple else a & self.pmask
        bw = b if b.__class__ is tuple else b & self.pmask
        r = self.binop(None, 'add', ity(self.pb), aw, bw, NOWRAP)
        return signed(r, self.pb) if r.__class__ is int else r

    # ---- merging ---------------------------------------------------------
    def merge_vals(self, cond, a, b, w):
        if a is b:
            return a
        ca, cb = a.__class__, b.__class__
        if ca is list:
            return [self.merge_vals(cond, x, y, None) for x, y in zip(a, b)]
        if ca == cb and a == b:
            return a
        if ca in (int, tuple) and cb in (int, tuple) and w is not None and isinstance(cond, Form):
            if w == self.pb and ca is int and cb is int and w > 1:
                return PhiV(cond, a, b)
            x, y = bits_of(a, w), bits_of(b, w)
            return word([fite(cond, p, q) for p, q in zip(x, y)])
        return PhiV(cond, a, b)

    def merge_cell(self, cond, a, b):
        if a is b or (a.__class__ == b.__class__ and a == b):
            return a
        ca, cb = a.__class__, b.__class__
        if isinstance(cond, Form):
            da = ca is int or (ca is tuple and a[0] not in ('f', '?'))
            db = cb is int or (cb is tuple and b[0] not in ('f', '?'))
            if da and db and not (ca is int and cb is int):
                return self.cell_ite(cond, a, b)
        return ('?', cond, a, b)

    def merge_states(self, cond, s1, s2):
        """State equal to s1 where cond holds and s2 elsewhere; None when the ghost outputs differ in length."""
        if len(s1.out) != len(s2.out):
            return None
        st = State()
        st.mem = dict(s1.mem)
        for oid, o2 in s2.mem.items():
            o1 = st.mem.get(oid)
            if o1 is None:
                o1 = self.mem0.get(oid)
                if o1 is None:
                    st.mem[oid] = o2
                    continue
            if o1 is o2:
                continue
            st.mem[oid] = self.merge_obj(cond, o1, o2, st.tok)
        for oid, o1 in s1.mem.items():
            if oid not in s2.mem and oid in self.mem0:
                st.mem[oid] = self.merge_obj(cond, o1, self.mem0[oid], st.tok)
        st.out = tuple(x if x is y or x == y else self.merge_out(cond, x, y) for x, y in zip(s1.out, s2.out))
        return st

    def merge_out(self, cond, a, b):
        r = self.merge_cell(cond, a, b)
        if r.__class__ is tuple and r[0] == '?' and isinstance(cond, Form) and a.__class__ is int and b.__class__ is int:
            return self.cell_ite(cond, a, b)
        return r

    def merge_obj(self, cond, o1, o2, tok):
        if o1.cells is o2.cells:
            return o1
        o = o1.clone(tok)
        if isinstance(o.cells, dict):
            for k in set(o1.cells) | set(o2.cells):
                a = self.lazy_cell(None, o1, k); b = self.lazy_cell(None, o2, k)
                o.cells[k] = self.merge_cell(cond, a, b)
            return o
        c1, c2 = o1.cells, o2.cells
        if c1 == c2:
            return o
        for i in range(len(c1)):
            a, b = c1[i], c2[i]
            if a is b:
                continue
            o.cells[i] = self.merge_cell(cond, a, b)
        return o

    def merge_group(self, items, depth, merge_payload):
        """items: list of (state, payload) whose path conditions share the first `depth` literals."""
        if len(items) == 1:
            return items
        short = [it for it in items if len(it[0].pc) <= depth]
        if short:
            return items          # overlapping conditions (should not happen): leave unmerged
        groups = {}
        for it in items:
            l, pol = canon_lit(it[0].pc[depth])
            groups.setdefault(l, ([], []))[0 if pol else 1].append(it)
        if len(groups) > 1:
            return items
        l, (A, B) = next(iter(groups.items()))
        if self.no_lin_merge and isinstance(l, LinCond):
            return items
        A = self.merge_group(A, depth + 1, merge_payload) if A else A
        B = self.merge_group(B, depth + 1, merge_payload) if B else B
        if len(A) == 1 and len(B) == 1:
            (sa, pa), (sb, pb) = A[0], B[0]
            st = self.merge_states(l, sa, sb)
            if st is not None:
                pl = merge_payload(l, pa, pb)
                # path condition of the merge
                st.pc = sa.pc[:depth]
                ra, rb = sa.pc[depth + 1:], sb.pc[depth + 1:]
                res = None
                ok = True
                if ra or rb:
                    if isinstance(l, Form) and all(isinstance(x, Form) for x in ra + rb):
                        res = fite(l, conj_all(ra), conj_all(rb))
                    elif not isinstance(l, Form) or any(not isinstance(x, Form) for x in ra + rb):
                        ok = False
                if ok:
                    st.pcset = frozenset(st.pc) | (sa.pcset & sb.pcset)
                    st.lin = tuple(x for x in sa.lin if x in sb.lin)
                    ent = {}
                    for e, tt in sa.ent.items():
                        t2 = sb.ent.get(e)
                        if t2 is not None:
                            ent[e] = tt | t2
                    st.ent = ent
                    if res is not None and res.__class__ is not int:
                        st.pc = st.pc + (res,)
                        st.pcset = st.pcset | {res}
                    return [(st, pl)]
        return A + B

    # ---- execution -------------------------------------------------------
    def call_fn(self, st, name, args):
        """Runs function `name`; returns list of (state, return value)."""
        h = self.overrides.get(name)
        if h is not None:
            r = h(self, st, args)
            if r is not None:
                return r
        f = self.funcs.get(name)
        if f is None:
            h = self.externs.get(name)
            if h is not None:
                return h(self, st, args)
            return self.intr.call(self, st, name, args)
        if PANIC_RE.match(f.demangled) and f.mod.func_attr(f, 'noreturn'):
            self.panic(st, f.demangled)
            return []
        if RAW_RE.match(f.demangled) and len(args) >= 4:
            self.raw_slice(st, args[0], args[1], args[3])
        f.mod.parse_func(f)
        if args:
            r = self.try_summary(st, f, args)
            if r is not None:
                return r
        return self.run(st, f, args)

    def raw_slice(self, st, p, size, n):
        """a slice made from a pointer and a length lies within one object"""
        if size.__class__ is not int or n.__class__ not in (int, Lin) or p.__class__ is not Ptr:
            return      # the function's own check and every access through the slice still apply
        total = n * size if n.__class__ is int else lin_mul(n, size)
        o = st.mem.get(p.obj) or self.mem0.get(p.obj)
        if total == 0 or p.off.__class__ is tuple:
            return
        self.obl += 1
        for l in (p.off, lin_add(lin_add(o.size, p.off, -1), total, -1)) if o is not None else (-1,):
            if l < 0 if l.__class__ is int else self.implied(st, LinCond('ge', l)) != 1:
                self.fail(st, 'mem', "slice of %r bytes at offset %r of %s (%r bytes)" % (total, p.off, o and o.name, o and o.size))

    def panic(self, st, what):
        self.panics.append((st, what, list(self.stack)))

    def run(self, st, f, args):
        self.fn_seen.add(f.name)
        self.stack.append(f.demangled or f.name)
        if len(self.stack) > 400:
            raise Unsupported("recursion too deep")
        try:
            r = self._run(st, f, args)
        finally:
            self.stack.pop()
        if self.cut is not None and 1 <= len(self.stack) <= 2:
            self.apply_cut(r)
        return r

    def apply_cut(self, rets):
        """Bytes whose value is, for all inputs, one that has a name (self.cut: value -> named value) are from
        here on known by their name only."""
        cut = self.cut
        for st, _ in rets:
            for oid, o in list(st.mem.items()):
                if not o.writable or o.cells.__class__ is not list:
                    continue
                hits = [(k, cut[c]) for k, c in enumerate(o.cells) if c.__class__ is tuple and c in cut]
                if hits:
                    self.ncut += len(hits)
                    w = self.wobj(st, oid)
                    for k, v in hits:
                        w.cells[k] = v

    def _run(self, st, f, args):
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        if len(args) != len(f.params):
            raise Unsupported("argument count calling %s: %r %r" % (f.demangled, f.params, args))
        pc0 = len(st.pc)
        allocas = []
        done = []
        pending = {}
        heap = []

        def push(b, i, s, e):
            key = (f.rpo[b], i, b)
            l = pending.get(key)
            if l is None:
                l = pending[key] = []
                heapq.heappush(heap, key)
            l.append((s, e))
        push(f.entry, 0, st, env)
        npend = 0
        while heap:
            key = heapq.heappop(heap)
            items = pending.pop(key)
            b, i0 = key[2], key[1]     # i0 == -1: resumed after a fork
            if len(items) > 1 and i0 == 0:
                live = f.live[b]

                def mp(cond, ea, eb):
                    out = {}
                    for n in live:
                        if n in ea and n in eb:
                            x, y = ea[n], eb[n]
                            out[n] = x if x is y else self.merge_vals(cond, x, y, self.width_of(f, n))
                    return out
                items = self.merge_group(items, pc0, mp)
                if len(items) > self.peak:
                    self.peak = len(items)
                if len(items) > self.max_pending:
                    raise Unsupported("too many paths")
            for s, e in items:
                if self.loop_hook is not None and i0 == 0 and b in f.loopheads:
                    if self.loop_hook(self, f, b, s, e):
                        continue
                self.block(f, b, i0, s, e, push, done, allocas)
        if not done:
            return []
        # leave the frame
        for s, v in done:
            for oid in allocas:
                s.mem.pop(oid, None)
        if len(done) == 1:
            return done
        w = f.ret[1] if f.ret[0] == 'i' else None
        rt = f.ret
        return self.merge_group(done, pc0, lambda c, x, y: self.merge_ret(c, x, y, rt))

    def merge_ret(self, c, x, y, rt):
        if x is None:
            return None
        if rt[0] == 's':
            return [self.merge_ret(c, p, q, t) for p, q, t in zip(x, y, rt[1])]
        if rt[0] in ('v', 'a'):
            return [self.merge_ret(c, p, q, rt[2]) for p, q in zip(x, y)]
        return self.merge_vals(c, x, y, rt[1] if rt[0] == 'i' else None)

    def width_of(self, f, n):
        # scalar integer width of an SSA value, when it is one
        cache = f.widths
        w = cache.get(n)
        if w is None:
            w = 0
            for t, nm in f.params:
                if nm == n and t[0] == 'i':
                    w = t[1]
            for b in f.blocks.values():
                for ins in b:
                    if len(ins) > 2 and ins[1] == n:
                        t = _result_type(ins)
                        if t is not None and t[0] == 'i':
                            w = t[1]
            cache[n] = w
        return w or None

    def branch(self, st, c):
        """-> list of (state, truth) for an i1 value"""
        c = self.force(st, c)
        self.nbranch += 1
        if c.__class__ is int:
            return [(st, c)]
        if c is UNDEF:
            self.obl += 1
            self.fail(st, 'ub', "branch on an undefined value")
        if c.__class__ is tuple:
            c = c[0]
        v = self.implied(st, c)
        if v is not None:
            return [(st, v)]
        if self.leak_on and isinstance(c, Form):
            self.leak(st, "data-dependent branch", (c,))
        s2 = st.fork()
        out = []
        if self.assume(st, c):
            out.append((st, 1))
        if self.assume(s2, lit_not(c)):
            out.append((s2, 0))
        return out

    def goto(self, f, frm, to, s, e, push):
        blk = f.blocks[to]
        if blk[0][0] == 'phi':
            upd = {}
            for ins in blk:
                if ins[0] != 'phi':
                    break
                for v, pb in ins[3]:
                    if pb == frm:
                        upd[ins[1]] = self.cval(v, ins[2], e)
                        break
                else:
                    raise Unsupported("phi without incoming edge")
            e = dict(e)
            e.update(upd)
        push(to, 0, s, e)

    def block(self, f, b, i, st, env, push, done, allocas):
        ins_list = f.blocks[b]
        n = len(ins_list)
        i = max(i, 0)
        while i < n:
            ins = ins_list[i]
            op = ins[0]
            self.instrs += 1
            if self.instrs > self.max_instrs:
                raise Unsupported("instruction budget exhausted")
            try:
                if op == 'call':
                    res = self.do_call(f, st, env, ins)
                    if not res:
                        return
                    if len(res) == 1:
                        st, v = res[0]
                        if ins[1] is not None:
                            env[ins[1]] = v
                    else:
                        for k, (s2, v) in enumerate(res):
                            e2 = dict(env)
                            if ins[1] is not None:
                                e2[ins[1]] = v
                            push(b, i + 1, s2, e2)
                        return
                elif op == 'br':
                    self.goto(f, b, ins[1], st, env, push)
                    return
                elif op == 'cbr':
                    c = self.cval(ins[1], ity(1), env)
                    r = self.branch(st, c)
                    for k, (s2, t) in enumerate(r):
                        self.goto(f, b, ins[2] if t else ins[3], s2, dict(env) if k < len(r) - 1 else env, push)
                    return
                elif op == 'ret':
                    v = None if ins[1] is None else self.cval(ins[2], ins[1], env)
                    done.append((st, v))
                    return
                elif op == 'switch':
                    self.do_switch(f, b, ins, st, env, push)
                    return
                elif op == 'unreachable':
                    self.obl += 1
                    self.fail(st, 'ub', "unreachable code reached")
                elif op == 'phi':
                    pass
                elif op == 'alloca':
                    cnt = self.cval(ins[3], ity(64), env)
                    if not isinstance(cnt, int):
                        raise Unsupported("dynamic alloca")
                    sz = self.mods[0].size(ins[2]) * cnt
                    p = self.add_obj(st, sz, ins[4], 'stack', (self.stack[-1] + ':' + ins[1]))
                    allocas.append(p.obj)
                    env[ins[1]] = p
                else:
                    EXEC[op](self, st, env, ins)
            except NeedFork as nf:
                c = nf.cond
                if c.__class__ is tuple:
                    c = c[0]
                if self.leak_on and isinstance(c, Form):
                    self.leak(st, "data-dependent control value", (c,))
                s2 = st.fork()
                a1 = self.assume(st, c)
                a2 = self.assume(s2, lit_not(c))
                if a1:
                    push(b, i or -1, st, dict(env))      # -1: block start, without merging again
                if a2:
                    push(b, i or -1, s2, dict(env))
                return
            except PathEnd:
                return
            except Unsupported as u:
                if not getattr(u, 'loc', None):
                    u.loc = list(self.stack)
                    u.ins = ins
                raise
            i += 1
        raise Unsupported("block without terminator")

    def do_switch(self, f, b, ins, st, env, push):
        _, ty, v, dflt, cases = ins
        x = self.force(st, self.cval(v, ty, env))
        if x.__class__ is LinCond:
            raise NeedFork(x)
        if x.__class__ is int:
            for c, l in cases:
                if c == x:
                    self.goto(f, b, l, st, env, push)
                    return
            self.goto(f, b, dflt, st, env, push)
            return
        if x is UNDEF:
            self.obl += 1
            self.fail(st, 'ub', "switch on an undefined value")
        cur = st
        for c, l in cases:
            cond = self.icmp(cur, 'eq', ty, x, c)
            v_ = self.implied(cur, cond)
            if v_ == 0:
                continue
            if v_ == 1:
                self.goto(f, b, l, cur, env, push)
                return
            if self.leak_on and isinstance(cond, Form):
                self.leak(cur, "data-dependent switch", (cond,))
            s2 = cur.fork()
            a1 = self.assume(s2, cond)
            a2 = self.assume(cur, lit_not(cond))
            if a1:
                self.goto(f, b, l, s2, dict(env), push)
            if not a2:
                return
        self.goto(f, b, dflt, cur, env, push)

    def do_call(self, f, st, env, ins):
        _, dest, rt, callee, args = ins
        if callee[0] == 'asm':
            if callee[1] == '""':      # black_box-like barrier
                return [(st, UNDEF if rt != VOID else None)] if not args else [(st, None)]
            raise Unsupported("inline assembly " + callee[1])
        vals = []
        for t, v, byval in args:
            x = self.cval(v, t, env)
            if byval:
                raise Unsupported("byval argument")
            vals.append(x)
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.force(st, self.cval(callee, PTR, env))
            if not isinstance(p, Ptr) or p.obj not in self.fnof or p.off != 0:
                self.obl += 1
                self.fail(st, 'mem', "call through an invalid function pointer")
            name = self.fnof[p.obj]
        if name.startswith('llvm.'):
            # argument types matter for intrinsics
            return self.intr.intrinsic(self, st, name, rt, [(t, x) for (t, _, _), x in zip(args, vals)])
        return self.call_fn(st, name, vals)

    # ---- exact contracts of pure functions, derived once and used at every call ------------
    MAX_FRESH = 64

    def nonlinear(self, f):
        """does f, or a function it calls directly or indirectly, combine two computed values with and/or?"""
        r = getattr(f, 'nonlin', None)
        if r is not None:
            return r
        f.nonlin = False          # recursion
        f.mod.parse_func(f)
        r = False
        calls = []
        for blk in f.blocks.values():
            for ins in blk:
                if ins[0] in ('and', 'or', 'mul') or (ins[0] == 'bin' and ins[1] in ('and', 'or', 'mul')):
                    if all(v[0] == 'r' for v in ins if v.__class__ is tuple and len(v) == 2 and v[0] in ('r', 'c')):
                        r = True
                elif ins[0] == 'call' and ins[3][0] == 'g':
                    calls.append(ins[3][1])
        if not r:
            for c in calls:
                g = self.funcs.get(c)
                if g is not None and not PANIC_RE.match(g.demangled) and self.nonlinear(g):
                    r = True
                    break
        f.nonlin = r
        return r

    def try_summary(self, st, f, args):
        """A function of data only (integers, vectors, and plain bytes behind pointers) that turns out to have a
        single path without conditions is run once on fresh inputs.  What it returns and writes, as expressions
        over those inputs, is its exact contract; calls instantiate it by substitution."""
        multi = False
        scalar = True
        for a, (t, _) in zip(args, f.params):
            if t[0] == 'i':
                if a.__class__ is tuple:
                    if t[1] % 8:
                        return None
                    multi = multi or _complex(a)
                elif a.__class__ is not int:
                    return None
            elif t[0] == 'p':
                if a.__class__ is not Ptr or a.off.__class__ is not int:
                    return None
                scalar = False
            elif t[0] in ('v', 'a') and t[2][0] == 'i' and t[2][1] % 8 == 0:
                scalar = False
                for x in a:
                    if x.__class__ is tuple:
                        multi = multi or _complex(x)
                    elif x.__class__ is not int:
                        return None
            else:
                return None
        if scalar:
            if not multi or f.ret[0] != 'i' or f.ret[1] % 8:
                return None
        elif not self.nonlinear(f):
            return None
        # abstract the arguments
        key = [f.name]
        fresh = []            # actual 8 bits of each generalised byte
        objs = {}             # actual object id -> (canonical number, object)
        okeys = []

        def word_key(a):
            if a.__class__ is int:
                return a
            for k in range(0, len(a), 8):
                fresh.append(a[k:k + 8])
            return len(a)
        for a, (t, _) in zip(args, f.params):
            if t[0] == 'i':
                key.append(('c', a) if a.__class__ is int else ('w', word_key(a)))
            elif t[0] == 'p':
                o = self.obj(st, a.obj)
                if o is None or o.kind == 'fn' or o.cells.__class__ is not list:
                    return None
                if o.kind in ('const', 'global') and a.obj not in st.mem:
                    key.append(('g', a.obj, a.off))
                    continue
                ent = objs.get(a.obj)
                if ent is None:
                    pat = []
                    for c in o.cells:
                        if c.__class__ is tuple:
                            if c[0] == 'f' or c[0] == '?':
                                return None
                            fresh.append(c)
                            multi = multi or _complex(c)
                            if len(fresh) > self.MAX_FRESH:
                                return None
                            pat.append(-1)
                        else:
                            pat.append(c)
                    ent = objs[a.obj] = (len(objs), o)
                    okeys.append((o.size, o.base % 64, o.align, o.writable, o.kind, tuple(pat)))
                key.append(('p', ent[0], a.off))
            else:
                key.append(('l', tuple(('c', x) if x.__class__ is int else ('w', word_key(x)) for x in a)))
        if not multi or len(fresh) > self.MAX_FRESH:
            return None
        key = (tuple(key), tuple(okeys))
        s = self.summaries.get(key, 0)
        if s == 0:
            self.summaries[key] = None
            s = self.summaries[key] = self._make_summary(f, key)
        if s is None:
            return None
        ents, ret, writes, leaks = s
        sub = dict(zip(ents, fresh))
        memo = {}

        def inst(c):
            if c.__class__ is not tuple:
                return c
            w = tuple(subst(b, sub, memo) for b in c)
            v = word_const(w)
            return w if v is None else v
        back = {n: oid for oid, (n, o) in objs.items()}
        for n, ws in writes:
            o = self.wobj(st, back[n])
            for k, c in ws:
                o.cells[k] = inst(c)

        def value(v):
            if v.__class__ is list:
                return [value(x) for x in v]
            if v.__class__ is Ptr:
                return Ptr(back[-v.obj - 1], v.off) if v.obj < 0 else v
            return inst(v)
        if self.leak_on:
            for l in leaks:
                bs = tuple(subst(b, sub, memo) for b in l[3])
                if any(b.__class__ is not int for b in bs):
                    self.leaks.append((l[0], l[1], list(self.stack) + l[2], st.pc, bs))
        return [(st, value(ret))]

    def _make_summary(self, f, key):
        akey, okeys = key
        st = State()
        ents = []

        def fresh():
            e = new_base("contract:%s:%d" % (f.name[-24:], len(ents)))
            ents.append(e)
            return tuple(Form(0, {e: VAR[8][j]}) for j in range(8))

        def word_(k):
            if k[0] == 'c':
                return k[1]
            w = ()
            for _ in range(k[1] // 8):
                w += fresh()
            return w
        canon = []
        args = []
        # the order of fresh bytes follows the abstraction: arguments left to right, an object at its first mention
        for k in akey[1:]:
            if k[0] == 'p':
                while len(canon) <= k[1]:
                    size, bmod, align, writable, kind, pat = okeys[len(canon)]
                    o = self.new_obj(size, align, kind, 'argument %d of %s' % (len(canon), f.demangled), [fresh() if c == -1 else c for c in pat], writable)
                    o.base = o.base // 64 * 64 + bmod
                    self.next_base = max(self.next_base, o.base + size + 64)
                    o.tok = st.tok
                    st.mem[o.id] = o
                    canon.append((o.id, list(o.cells)))
                args.append(Ptr(canon[k[1]][0], k[2]))
            elif k[0] == 'g':
                args.append(Ptr(k[1], k[2]))
            elif k[0] == 'l':
                args.append([word_(x) for x in k[1]])
            else:
                args.append(word_(k))
        nf, np_, nl, obl = len(self.failures), len(self.panics), len(self.leaks), self.obl
        depth = len(self.stack)
        outer, self.deriving = self.deriving, 0
        try:
            r = self.run(st, f, args)
        except Unsupported:
            del self.stack[depth:]
            r = None
        finally:
            self.deriving = outer
        ok = r is not None and len(r) == 1 and not r[0][0].pc and len(self.failures) == nf and len(self.panics) == np_ and not r[0][0].out
        leaks = [(w, fn, s_[depth:], tuple(bs)) for w, fn, s_, pc, bs in self.leaks[nl:]]
        del self.failures[nf:], self.panics[np_:], self.leaks[nl:]
        if not ok:
            self.obl = obl
            return None
        st, ret = r[0]
        ids = {oid: n for n, (oid, _) in enumerate(canon)}
        writes = []
        for oid, o in st.mem.items():
            n = ids.get(oid)
            if n is None:
                return None
            ws = []
            for k, (c0, c1) in enumerate(zip(canon[n][1], o.cells)):
                if c0 is not c1 and c0 != c1:
                    if c1.__class__ is tuple and (c1[0] == 'f' or c1[0] == '?'):
                        return None
                    ws.append((k, c1))
            if ws:
                writes.append((n, ws))

        def plain(v):
            if v is None or v.__class__ is int:
                return v
            if v.__class__ is list:
                return [plain(x) for x in v]
            if v.__class__ is tuple:
                return v
            if v.__class__ is Ptr and v.off.__class__ is int:
                if v.obj in ids:
                    return Ptr(-ids[v.obj] - 1, v.off)
                if v.obj in self.mem0:
                    return v
            raise Unsupported("result")
        try:
            ret = plain(ret)
        except Unsupported:
            return None
        self.derived.add(f.name)
        return ents, ret, writes, leaks



def _complex(a):
    for b in a:
        if b.__class__ is not int and (len(b.t) > 1 or KIND[next(iter(b.t))] != BASE):
            return True
    return False


def subst(b, sub, memo):
    """b with each base entity replaced by the given 8 bits"""
    if b.__class__ is int:
        return b
    acc = b.c
    for e, tt in b.t.items():
        key = (e, tt)
        v = memo.get(key)
        if v is None:
            k = KIND[e]
            if k == BASE:
                bits = sub.get(e)
                if bits is None:
                    v = Form(0, {e: tt})
                else:
                    v = lift_tt(bits, tt)
            else:
                bits = memo.get(e)
                if bits is None:
                    bits = memo[e] = [subst(c, sub, memo) for c in COMPS[e]]
                    if k == COMP and all(c is b or c == b for c, b in zip(COMPS[e], bits)):
                        memo[e] = bits = False
                if bits is False:
                    v = Form(0, {e: tt})
                elif k == COMP:
                    v = lift_tt(bits, tt)
                else:
                    v = _conj(bits)
            memo[key] = v
        acc = fxor(acc, v)
    return acc


def conj_all(lits):
    r = 1
    for l in lits:
        r = fand(r, l)
    return r


M64 = (1 << 64) - 1


def _result_type(ins):
    op = ins[0]
    if op in llir.BINOPS or op in ('load', 'freeze', 'phi', 'atomicrmw'):
        return ins[2]
    if op in llir.CASTS:
        return ins[4]
    if op == 'icmp':
        return ity(1) if ins[3][0] != 'v' else None
    if op == 'select':
        return ins[4]
    if op == 'call':
        return ins[2]
    if op == 'extractvalue':
        t = ins[2]
        for k in ins[4]:
            t = t[1][k] if t[0] == 's' else t[2]
        return t
    if op == 'extractelement':
        return ins[2][2]
    return None


def _disjoint(x, y):
    for p, q in zip(x, y):
        if not ((p.__class__ is int and p == 0) or (q.__class__ is int and q == 0)):
            return False
    return True


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def off_add(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    return lin_add(a, b, k)


def icmp_int(pred, n, a, b):
    if pred[0] == 's':
        a, b = signed(a, n), signed(b, n)
        pred = 'u' + pred[1:]
    return 1 if (a == b if pred == 'eq' else a != b if pred == 'ne' else a < b if pred == 'ult' else a <= b if pred == 'ule' else a > b if pred == 'ugt' else a >= b) else 0


def arith(op, n, a, b, fl):
    """(result, defined)"""
    m = (1 << n) - 1
    h = 1 << (n - 1)
    if op == 'add' or op == 'sub' or op == 'mul':
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        if fl:
            if 'nuw' in fl and not 0 <= r <= m:
                return 0, False
            if 'nsw' in fl:
                sa, sb = signed(a, n), signed(b, n)
                s = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                if not -h <= s < h:
                    return 0, False
        return r & m, True
    if op == 'and':
        return a & b, True
    if op == 'or':
        return a | b, True
    if op == 'xor':
        return a ^ b, True
    if op in ('udiv', 'urem'):
        if b == 0:
            return 0, False
        return (a // b if op == 'udiv' else a % b), True
    if op in ('sdiv', 'srem'):
        sa, sb = signed(a, n), signed(b, n)
        if sb == 0 or (sa == -h and sb == -1):
            return 0, False
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return (q if op == 'sdiv' else sa - q * sb) & m, True
    if b >= n:
        return 0, False
    if op == 'shl':
        r = a << b
        if 'nuw' in fl and r > m:
            return 0, False
        return r & m, True
    if op == 'lshr':
        return a >> b, True
    if op == 'ashr':
        return (signed(a, n) >> b) & m, True
    raise Unsupported(op)


# ---- instruction semantics ----------------------------------------------------
EXEC = {}


def ex(*ops):
    def d(fn):
        for o in ops:
            EXEC[o] = fn
        return fn
    return d


@ex(*llir.BINOPS)
def _bin(E, st, env, ins):
    op, dest, t, a, b, fl = ins
    a = env[a[1]] if a[0] == 'r' else E.cval(a, t, env)
    b = env[b[1]] if b[0] == 'r' else E.cval(b, t, env)
    if op in ('udiv', 'urem', 'sdiv', 'srem') and E.leak_on and (a.__class__ is tuple or b.__class__ is tuple):
        E.leak(st, "division of secret data")
    if 'disjoint' in fl:
        fl = NOWRAP
    env[dest] = E.binop(st, op, t, a, b, fl)


@ex(*llir.CASTS)
def _cast(E, st, env, ins):
    op, dest, t, v, t2, fl = ins
    env[dest] = E.cast(st, op, E.cval(v, t, env), t, t2, fl)


@ex('load')
def _load(E, st, env, ins):
    _, dest, t, a, al = ins
    p = E.force(st, env[a[1]] if a[0] == 'r' else E.cval(a, PTR, env))
    n = E.mods[0].size(t)
    cells = E.read(st, p, n, al)
    v = E.from_cells(st, cells, t)
    env[dest] = v


@ex('store')
def _store(E, st, env, ins):
    _, _d, t, v, a, al = ins
    p = E.force(st, env[a[1]] if a[0] == 'r' else E.cval(a, PTR, env))
    x = env[v[1]] if v[0] == 'r' else E.cval(v, t, env)
    E.write(st, p, E.to_cells(x, t), al)


# Atomics: the contracts speak about one call at a time, so an atomic access reads and writes like a plain one.
RMW = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}


@ex('atomicrmw')
def _rmw(E, st, env, ins):
    _, dest, t, rmw, a, v, al = ins
    p = E.force(st, E.cval(a, PTR, env))
    x = E.cval(v, t, env)
    old = E.from_cells(st, E.read(st, p, E.mods[0].size(t), al), t)
    if rmw == 'xchg':
        new = x
    elif rmw in RMW:
        new = E.binop(st, RMW[rmw], t, old, x, frozenset())
    elif rmw == 'nand':
        new = E.binop(st, 'xor', t, E.binop(st, 'and', t, old, x, frozenset()), (1 << t[1]) - 1, frozenset())
    elif rmw in ('max', 'min', 'umax', 'umin'):
        pred = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[rmw]
        r = E.icmp(st, pred, t, old, x)
        new = E.select(st, ity(1), (r,) if r.__class__ is Form else r, t, old, x)
    else:
        raise Unsupported("atomicrmw " + rmw)
    E.write(st, p, E.to_cells(new, t), al)
    if dest is not None:
        env[dest] = old


@ex('cmpxchg')
def _cmpxchg(E, st, env, ins):
    _, dest, t, a, c, v, al = ins
    p = E.force(st, E.cval(a, PTR, env))
    c, v = E.cval(c, t, env), E.cval(v, t, env)
    old = E.from_cells(st, E.read(st, p, E.mods[0].size(t), al), t)
    eq = E.icmp(st, 'eq', t, old, c)
    E.write(st, p, E.to_cells(E.select(st, ity(1), (eq,) if eq.__class__ is Form else eq, t, v, old), t), al)
    if dest is not None:
        env[dest] = [old, (eq,) if eq.__class__ is Form else eq]


@ex('gep')
def _gep(E, st, env, ins):
    _, dest, t, base, idx, fl = ins
    b = E.cval(base, PTR, env)
    ix = [(it, E.cval(x, it, env)) for it, x in idx]
    env[dest] = E.gep(st, t, b, ix)


@ex('icmp')
def _icmp(E, st, env, ins):
    _, dest, pred, t, a, b, fl = ins
    r = E.icmp(st, pred, t, E.cval(a, t, env), E.cval(b, t, env))
    env[dest] = (r,) if r.__class__ is Form else [(x,) if x.__class__ is Form else x for x in r] if r.__class__ is list else r


@ex('select')
def _select(E, st, env, ins):
    _, dest, ct, c, t, a, b = ins
    c = E.cval(c, ct, env)
    a = E.cval(a, t, env)
    b = E.cval(b, t, env)
    env[dest] = E.select(st, ct, c, t, a, b)


def _do_select(E, st, ct, c, t, a, b):
    if ct[0] == 'v':
        return [E.select(st, ct[2], x, t[2], y, z) for x, y, z in zip(c, a, b)]
    c = E.force(st, c)
    if c.__class__ is int:
        return a if c else b
    if c is UNDEF:
        E.obl += 1
        E.fail(st, 'ub', "select on an undefined value")
    if c.__class__ is tuple:
        c = c[0]
    v = E.implied(st, c)
    if v is not None:
        return a if v else b
    if isinstance(c, LinCond):
        return PhiV(c, a, b) if t[0] != 'v' else _raise(NeedFork(c))
    if t[0] == 'v':
        return [E.merge_vals(c, x, y, t[2][1]) for x, y in zip(a, b)]
    return E.merge_vals(c, a, b, t[1] if t[0] == 'i' else None)


def _raise(e):
    raise e


Engine.select = lambda self, st, ct, c, t, a, b: _do_select(self, st, ct, c, t, a, b)


@ex('extractvalue')
def _ev(E, st, env, ins):
    _, dest, t, v, ix = ins
    x = E.cval(v, t, env)
    for k in ix:
        x = x[k]
    env[dest] = x


@ex('insertvalue')
def _iv(E, st, env, ins):
    _, dest, t, v, t2, w, ix = ins
    x = E.cval(v, t, env)
    w = E.cval(w, t2, env)

    def put(a, ix):
        a = list(a)
        a[ix[0]] = w if len(ix) == 1 else put(a[ix[0]], ix[1:])
        return a
    env[dest] = put(x, ix)


@ex('extractelement')
def _ee(E, st, env, ins):
    _, dest, t, v, i = ins
    x = E.cval(v, t, env)
    k = E.force(st, E.cval(i, ity(64), env))
    if not isinstance(k, int):
        raise Unsupported("extractelement index")
    env[dest] = x[k]


@ex('insertelement')
def _ie(E, st, env, ins):
    _, dest, t, v, e, i = ins
    x = list(E.cval(v, t, env))
    k = E.force(st, E.cval(i, ity(64), env))
    if not isinstance(k, int):
        raise Unsupported("insertelement index")
    x[k] = E.cval(e, t[2], env)
    env[dest] = x


@ex('shufflevector')
def _sv(E, st, env, ins):
    _, dest, t, a, b, mt, m = ins
    x = E.cval(a, t, env) + E.cval(b, t, env)
    mk = E.cval(m, mt, env)
    env[dest] = [UNDEF if k is UNDEF else x[k] for k in mk]


@ex('freeze')
def _fr(E, st, env, ins):
    _, dest, t, v = ins
    x = E.cval(v, t, env)
    if x is UNDEF:
        raise Unsupported("freeze of undef")
    env[dest] = x


@ex('nop')
def _nop(E, st, env, ins):
    pass


@ex('unsupported')
def _uns(E, st, env, ins):
    raise Unsupported("instruction " + ins[2][:80])
