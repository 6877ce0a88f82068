"""Parser for the textual LLVM IR that rustc emits.  Functions are parsed on first use."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 |(?P<id>[%@](?:"[^"]*"|[-A-Za-z0-9_.$]+))
 |(?P<meta>!(?:"[^"]*"|[-A-Za-z0-9_.$]*))
 |(?P<str>"[^"]*")
 |(?P<attr>\#\d+)
 |(?P<hex>0x[0-9A-Fa-fKLMHR]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 |(?P<p>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise ParseError("token at %r" % s[pos:pos + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def cname(t):
    # %"a b" -> a b
    return t[2:-1] if t[1:2] == '"' else t[1:]


_INT = {}


def ity(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = ('i', n)
    return t


PTR = ('p',)
VOID = ('void',)
PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range',
                  'elementtype', 'byref', 'preallocated', 'inalloca', 'nofpclass', 'initializes', 'addrspace',
                  'alignstack', 'vscale_range', 'memory', 'allocsize', 'allockind', 'dead_on_return'}


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise ParseError("expected %r got %r in %s" % (v, x, ' '.join(a for _, a in self.t)))

    # ---- types
    def type(self):
        k = self.kind()
        w = self.next()
        if k == 'word':
            if w[0] == 'i' and w[1:].isdigit():
                t = ity(int(w[1:]))
            elif w == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif w == 'void':
                t = VOID
            elif w == 'float':
                t = ity(32)
            elif w == 'double':
                t = ity(64)
            elif w == 'half':
                t = ity(16)
            elif w in ('label', 'metadata', 'token', 'opaque'):
                t = (w,)
            else:
                raise ParseError("type %r" % w)
        elif w == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            t = ('a', n, e)
        elif w == '<':
            if self.peek() == '{':
                self.next()
                t = ('s', self.typelist('}'), True)
                self.expect('>')
            else:
                if self.peek() == 'vscale':
                    raise ParseError("scalable vector")
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                t = ('v', n, e)
        elif w == '{':
            t = ('s', self.typelist('}'), False)
        elif k == 'id':
            t = self.m.named_type(w)
        else:
            raise ParseError("type %r in %s" % (w, ' '.join(a for _, a in self.t)))
        return t

    def typelist(self, close):
        out = []
        if self.eat(close):
            return tuple(out)
        while True:
            out.append(self.type())
            if self.eat(close):
                return tuple(out)
            self.expect(',')

    # ---- values (given the type)
    def value(self, ty):
        k = self.kind()
        w = self.next()
        if k == 'id':
            if w[0] == '%':
                return ('r', w)
            return ('g', self.m.ref(w))
        if k == 'num':
            if '.' in w:
                import struct
                return ('c', struct.unpack('<I', struct.pack('<f', float(w)))[0] if ty[1] == 32 else struct.unpack('<Q', struct.pack('<d', float(w)))[0])
            return ('c', int(w) & ((1 << ty[1]) - 1))
        if k == 'hex':
            v = int(w, 16)
            if ty == ('i', 32):
                import struct
                v = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', v))[0]))[0]
            return ('c', v)
        if k == 'cstr':
            return ('agg', [('c', b) for b in cstring(w)], [ity(8)] * ty[1])
        if w == 'true':
            return ('c', 1)
        if w == 'false':
            return ('c', 0)
        if w == 'null':
            return ('c', 0)
        if w in ('undef', 'poison'):
            return ('u',)
        if w == 'zeroinitializer':
            return ('z',)
        if w == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', [v] * ty[1], [t] * ty[1])
        if w in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[w]
            packed = False
            if w == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            vals, tys = [], []
            if not self.eat(close):
                while True:
                    t = self.type()
                    vals.append(self.value(t)); tys.append(t)
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', vals, tys)
        if w == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next() == 'inrange':
                    self.expect('(')
                    while self.next() != ')':
                        pass
            self.expect('(')
            t = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.eat(','):
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, base, idx)
        if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'ptrtoaddr'):
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', w, t, v, t2)
        if w in ('add', 'sub', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type(); a = self.value(t); self.expect(',')
            t = self.type(); b = self.value(t); self.expect(')')
            return ('bin', w, t, a, b)
        raise ParseError("value %r in %s" % (w, ' '.join(a for _, a in self.t)))

    def skip_attrs(self):
        """parameter / return attributes; returns set of names"""
        s = set()
        while True:
            k = self.kind()
            w = self.peek()
            if k != 'word':
                if k == 'str':       # "attr"="val"
                    self.next()
                    if self.eat('='):
                        self.next()
                    continue
                return s
            if w[0] == 'i' and w[1:].isdigit() or w in ('ptr', 'void', 'float', 'double', 'half', 'metadata', 'label', 'token'):
                return s
            if w in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr',
                     'ptrtoint', 'bitcast', 'splat', 'trunc', 'zext', 'add', 'sub', 'xor', 'asm'):
                return s
            self.next()
            s.add(w)
            if w == 'align' and self.kind() == 'num':
                self.next()
            elif w in PARAM_ATTR_ARG or self.peek() == '(':
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break


def cstring(w):
    s = w[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(s[i].encode()); i += 1
    return out


class Func:
    __slots__ = ("name", "demangled", "mod", "lines", "header", "ret", "params", "attrs", "blocks", "entry", "order",
                 "rpo", "pattrs", "decl", "live", "loopheads", "nonlin", "widths")


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'}
CC = {'fastcc', 'coldcc', 'ccc', 'tail', 'musttail', 'notail', 'fast', 'preserve_mostcc', 'preserve_allcc'}


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.type_lines = {}
        self.local = {}          # private symbols: name -> name unique across modules
        self.tag = '!' + path.rsplit('/', 1)[-1]
        self.globals = {}
        self.funcs = {}
        self.attrgroups = {}
        self.demangle = {}
        self.endian = 'little'
        self.ptrbits = 64
        self.datalayout = ''
        self._scan(open(path, encoding='utf-8', errors='replace').read().split('\n'))

    def ref(self, w):
        n = cname(w)
        return self.local.get(n, n)

    def _scan(self, lines):
        i = 0
        n = len(lines)
        prev = ''
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.widths = {}
                f.mod = self
                f.header = l
                f.lines = lines[i + 1:j]
                f.blocks = None
                f.decl = False
                f.live = None
                dm = ''
                k = i - 1
                while k >= 0 and lines[k].startswith(';'):
                    if not lines[k].startswith('; Function Attrs'):
                        dm = lines[k][2:]
                        break
                    k -= 1
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                f.name = m.group(1).strip('"')
                if re.match(r'define (private|internal) ', l):
                    self.local[f.name] = f.name = f.name + self.tag
                f.demangled = dm
                f.attrs = set(re.findall(r'#\d+', l.split(')')[-1]))
                self.funcs[f.name] = f
                self.demangle[f.name] = dm
                i = j + 1
                continue
            if l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-A-Za-z0-9_.$]+) = (.*)', l)
                g = m.group(1).strip('"')
                if re.match(r'(private|internal) ', m.group(2)):
                    self.local[g] = g = g + self.tag
                self.globals[g] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = type (.*)', l)
                self.type_lines[m.group(1)] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                nm = m.group(1).strip('"')
                if i and lines[i - 1].startswith('; ') and not lines[i - 1].startswith('; Function'):
                    self.demangle.setdefault(nm, lines[i - 1][2:])
            elif l.startswith('target datalayout'):
                self.datalayout = l.split('"')[1]
                self._layout(self.datalayout)
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrgroups[m.group(1)] = m.group(2).split()
            i += 1

    def _layout(self, dl):
        self.align_i = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}
        self.align_v = {64: 8, 128: 16, 256: 32, 512: 64}
        self.ptrbits = 64
        for s in dl.split('-'):
            if s == 'E':
                self.endian = 'big'
            elif s == 'e':
                self.endian = 'little'
            elif s.startswith('p:'):
                self.ptrbits = int(s.split(':')[1])
            elif re.match(r'i\d+:', s):
                a = s.split(':')
                self.align_i[int(a[0][1:])] = int(a[1]) // 8
            elif re.match(r'v\d+:', s):
                a = s.split(':')
                self.align_v[int(a[0][1:])] = int(a[1]) // 8
        if self.ptrbits == 32 and 'i64:' not in dl:
            self.align_i[64] = 4
        self.ptrbytes = self.ptrbits // 8

    def named_type(self, w):
        t = self.types.get(w)
        if t is None:
            t = self.types[w] = P(self, tokenize(self.type_lines[w])).type()
        return t

    # sizes
    def size(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if n & (n - 1):        # odd sizes round to alignment in arrays; only iN powers of two occur
                return n
            return n
        if k == 'p':
            return self.ptrbytes
        if k == 'v':
            if t[2][0] == 'i' and t[2][1] == 1:
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == 'a':
            return t[1] * self.stride(t[2])
        if k == 's':
            return self.struct(t)[1]
        raise ParseError("size of %r" % (t,))

    def stride(self, t):
        s = self.size(t)
        a = self.align(t)
        return (s + a - 1) // a * a

    def align(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            a = self.align_i.get(n)
            if a is None:
                a = 1
                while a * 8 < n and a < 16:
                    a *= 2
            return a
        if k == 'p':
            return self.ptrbytes
        if k == 'v':
            return self.align_v.get(self.size(t) * 8, self.size(t))
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise ParseError("align of %r" % (t,))

    def struct(self, t):
        offs = []
        o = 0
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        if not t[2]:
            a = self.align(t)
            o = (o + a - 1) // a * a
        return offs, o

    # ---- function bodies
    def func_attr(self, f, name):
        return any(name in self.attrgroups.get(a, ()) for a in f.attrs)

    def parse_func(self, f):
        if f.blocks is not None:
            return f
        hd = f.header
        toks = tokenize(re.sub(r'(!\w+ !\d+\s*|!\w+ !\{[^}]*\}\s*)*\{\s*$', '', hd))
        # find the function name token, parse params after it
        gi = next(i for i, (k, w) in enumerate(toks) if k == 'id' and w[0] == '@')
        p = P(self, toks)
        # return type: parse backwards is awkward; skip linkage words then attributes
        p.i = 1
        while True:
            k, w = p.kind(), p.peek()
            if k == 'word' and w in ('internal', 'private', 'hidden', 'protected', 'dso_local', 'linkonce_odr', 'weak', 'external', 'available_externally', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'inreg', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'coldcc', 'linkonce', 'weak_odr', 'preserve_mostcc') :
                p.next(); continue
            s = p.skip_attrs()
            if not s:
                break
        f.ret = p.type()
        p.i = gi + 1
        p.expect('(')
        f.params = []
        f.pattrs = []
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    raise ParseError('vararg')
                t = p.type()
                at = p.skip_attrs()
                nm = None
                if p.kind() == 'id':
                    nm = p.next()
                else:
                    nm = '%' + str(len(f.params))
                f.params.append((t, nm))
                f.pattrs.append(at)
                if p.eat(')'):
                    break
                p.expect(',')
        blocks = {}
        order = []
        cur = None
        it = iter(f.lines)
        for l in it:
            s = l.strip()
            if not s or s[0] == ';' or s[0] == '#':
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-A-Za-z0-9_.$]+):', l)
                if not m:
                    raise ParseError("label? " + l)
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%0'
                blocks[cur] = []
                order.append(cur)
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + next(it).strip()
            blocks[cur].append(self.parse_inst(s))
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        self._analyse(f)
        return f

    def _analyse(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t[0] == 'br':
                succ[b] = [t[1]]
            elif t[0] == 'cbr':
                succ[b] = [t[2], t[3]]
            elif t[0] == 'switch':
                succ[b] = [t[3]] + [x for _, x in t[4]]
            else:
                succ[b] = []
        seen = set()
        post = []
        stack = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry)
        while stack:
            b, itr = stack[-1]
            for x in itr:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                post.append(b)
                stack.pop()
        post.reverse()
        f.rpo = {b: i for i, b in enumerate(post)}
        f.loopheads = {x for b in post for x in succ[b] if f.rpo[x] <= f.rpo[b]}
        # liveness of SSA names at block entry
        use = {}
        deff = {}
        phiuse = {}
        for b in post:
            u, d = set(), set()
            for ins in f.blocks[b]:
                if ins[0] == 'phi':
                    d.add(ins[1])
                    for v, pb in ins[3]:
                        if v[0] == 'r':
                            phiuse.setdefault(pb, set()).add(v[1])
                    continue
                for r in regs_used(ins):
                    if r not in d:
                        u.add(r)
                if ins[1] is not None and isinstance(ins[1], str) and ins[0] not in ('br', 'cbr', 'switch', 'ret'):
                    d.add(ins[1])
            use[b], deff[b] = u, d
        live = {b: set(use[b]) for b in post}
        ch = True
        while ch:
            ch = False
            for b in reversed(post):
                out = set(phiuse.get(b, ()))
                for s in succ[b]:
                    out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        f.live = live

    def parse_inst(self, s):
        # strip trailing metadata  ", !dbg !12"
        p = P(self, tokenize(s))
        dest = None
        if p.kind() == 'id' and p.peek(1) == '=':
            dest = p.next(); p.next()
        op = p.next()
        while op in CC:
            op = p.next()
        if op in BINOPS:
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return (op, dest, t, a, b, frozenset(fl))
        if op in CASTS:
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'nneg'):
                fl.add(p.next())
            t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
            return (op, dest, t, v, t2, frozenset(fl))
        if op == 'load':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            if at:
                _ordering(p)
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                else:
                    break
            return ('load', dest, t, a, al)
        if op == 'store':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            if at:
                _ordering(p)
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                else:
                    break
            return ('store', None, t, v, a, al)
        if op == 'alloca':
            t = p.type()
            n = ('c', 1)
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                elif p.kind() == 'meta':
                    break
                else:
                    it = p.type(); n = p.value(it)
            return ('alloca', dest, t, n, al)
        if op == 'getelementptr':
            fl = set()
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                fl.add(p.next())
            t = p.type(); p.expect(','); pt = p.type(); base = p.value(pt)
            idx = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                it = p.type(); idx.append((it, p.value(it)))
            return ('gep', dest, t, base, idx, frozenset(fl))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('br', p.next())
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return ('cbr', c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
            return ('switch', t, v, d, cases)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return ('ret', None, None)
            return ('ret', t, p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'icmp':
            fl = set()
            while p.peek() in ('samesign',):
                fl.add(p.next())
            pred = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return ('icmp', dest, pred, t, a, b, frozenset(fl))
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
            return ('select', dest, ct, c, t, a, b)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t); p.expect(','); inc.append((v, p.next())); p.expect(']')
                if not p.eat(','):
                    break
                if p.kind() == 'meta':
                    break
            return ('phi', dest, t, inc)
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                ix.append(int(p.next()))
            return ('extractvalue', dest, t, v, ix)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); ix = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                ix.append(int(p.next()))
            return ('insertvalue', dest, t, v, t2, w, ix)
        if op == 'extractelement':
            t = p.type(); v = p.value(t); p.expect(','); it = p.type(); i = p.value(it)
            return ('extractelement', dest, t, v, i)
        if op == 'insertelement':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); p.expect(','); it = p.type(); i = p.value(it)
            return ('insertelement', dest, t, v, e, i)
        if op == 'shufflevector':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); p.expect(','); mt = p.type(); m = p.value(mt)
            return ('shufflevector', dest, t, a, b, mt, m)
        if op == 'freeze':
            t = p.type(); v = p.value(t)
            return ('freeze', dest, t, v)
        if op == 'call':
            while p.peek() in CC:
                p.next()
            p.skip_attrs()
            rt = p.type()
            if p.peek() == '(':       # function type spelled out
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == 'asm':
                p.next()
                while p.kind() == 'word':
                    p.next()
                tmpl = p.next(); p.expect(','); cons = p.next()
                callee = ('asm', tmpl, cons)
            else:
                k = p.kind()
                if k == 'id':
                    w = p.next()
                    callee = ('g', self.ref(w)) if w[0] == '@' else ('r', w)
                else:
                    callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    at = p.skip_attrs()
                    if t == ('metadata',):
                        d = 0
                        while p.peek() not in (',', ')') or d:
                            p.next()
                        v = ('u',)
                    else:
                        v = p.value(t)
                    args.append((t, v, 'byval' in at))
                    if p.eat(')'):
                        break
                    p.expect(',')
            return ('call', dest, rt, callee, args)
        if op == 'atomicrmw':
            p.eat('volatile')
            rmw = p.next()
            pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            _ordering(p)
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                else:
                    break
            return ('atomicrmw', dest, t, rmw, a, v, al)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            pt = p.type(); a = p.value(pt); p.expect(',')
            t = p.type(); c = p.value(t); p.expect(',')
            t = p.type(); v = p.value(t)
            _ordering(p); _ordering(p)
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                else:
                    break
            return ('cmpxchg', dest, t, a, c, v, al)
        if op == 'fence':
            return ('nop', None)
        return ('unsupported', dest, s)


def _ordering(p):
    if p.eat('syncscope'):
        while not p.eat(')'):
            p.next()
    for o in ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'):
        if p.eat(o):
            return


def regs_used(ins):
    out = []

    def val(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'r':
            out.append(v[1])
        elif v[0] == 'agg':
            for x in v[1]:
                val(x)
        elif v[0] == 'cast':
            val(v[3])
        elif v[0] == 'gep' and len(v) == 4:
            val(v[2])
            for _, x in v[3]:
                val(x)
        elif v[0] == 'bin':
            val(v[3]); val(v[4])
    op = ins[0]
    if op in BINOPS:
        val(ins[3]); val(ins[4])
    elif op in CASTS or op in ('load', 'freeze', 'extractvalue', 'alloca'):
        val(ins[3])
    elif op == 'store':
        val(ins[3]); val(ins[4])
    elif op == 'atomicrmw':
        val(ins[4]); val(ins[5])
    elif op == 'cmpxchg':
        val(ins[3]); val(ins[4]); val(ins[5])
    elif op == 'gep':
        val(ins[3])
        for _, x in ins[4]:
            val(x)
    elif op == 'cbr':
        val(ins[1])
    elif op == 'switch':
        val(ins[2])
    elif op == 'ret':
        val(ins[2])
    elif op == 'icmp':
        val(ins[4]); val(ins[5])
    elif op == 'select':
        val(ins[3]); val(ins[5]); val(ins[6])
    elif op == 'insertvalue':
        val(ins[3]); val(ins[5])
    elif op == 'extractelement':
        val(ins[3]); val(ins[4])
    elif op == 'insertelement':
        val(ins[3]); val(ins[4]); val(ins[5])
    elif op == 'shufflevector':
        val(ins[3]); val(ins[4])
    elif op == 'call':
        val(ins[3])
        for _, v, _b in ins[4]:
            val(v)
    return out
