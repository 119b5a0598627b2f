"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that
clang emits for c4core.  Produces plain python objects used by the VC
generator.  Anything outside the subset becomes an instruction with op
'unsupported', which the executor rejects only if it is actually reached."""
import re

TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"])*")
 | (?P<local>%(?:"[^"]*"|[\w.$-]+))
 | (?P<glob>@(?:"[^"]*"|[\w.$-]+))
 | (?P<attr>\#\d+)
 | (?P<meta>![\w.]*(?:\{[^}]*\})?)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[\[\]{}()<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError("tok: %r" % s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(k)))
        i = m.end()
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return 'i%d' % self.a if self.k == 'int' else (self.k if self.a is None else '%s(%r,%r)' % (self.k, self.a, self.b))


PTR = Ty('ptr')
VOID = Ty('void')
_ints = {}


def IntTy(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError('expected %r got %r in %r' % (v, x, ' '.join(t[1] for t in self.t)[:200]))

    # types
    def ty(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                t = IntTy(int(m.group(1)))
            elif v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                t = Ty('fp', v)
            elif v in ('label', 'metadata', 'token', 'opaque'):
                t = Ty(v)
            else:
                raise ParseError('type? %r' % v)
        elif k == 'local':
            t = Ty('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.ty()
            self.exp(']')
            t = Ty('arr', n, e)
        elif v == '{':
            t = self._struct('}', False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct('}', True)
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.ty()
                self.exp('>')
                t = Ty('vec', n, e)
        else:
            raise ParseError('type? %r in %r' % (v, ' '.join(t[1] for t in self.t)[:200]))
        # function type suffix
        while self.peek()[1] == '(' and t.k in ('void', 'int', 'ptr', 'named', 'struct', 'fp', 'arr') and self._looks_fnty():
            self._skip_parens()
            t = Ty('fn', t)
        return t

    def _looks_fnty(self):
        # a '(' directly after a type is a function type when followed by types
        j = self.i + 1
        k, v = self.t[j]
        return v in ('...', ')') or (k == 'word' and (re.fullmatch(r'i\d+|ptr|float|double|x86_fp80', v) is not None)) or v in ('{', '[') or (k == 'local' and v.startswith('%"') or (k == 'local' and ('struct.' in v or 'class.' in v)))

    def _skip_parens(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return
            elif v is None:
                raise ParseError('parens')

    def _struct(self, end, packed):
        els = []
        while not self.acc(end):
            els.append(self.ty())
            self.acc(',')
        return Ty('struct', els, packed)

    # attributes between type and value
    ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
             'returned', 'inreg', 'nofree', 'immarg', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'allocptr',
             'allocalign', 'noreturn', 'nonlazybind', 'dso_local', 'fastcc', 'ccc', 'tail', 'musttail', 'notail',
             'local_unnamed_addr', 'unnamed_addr', 'internal', 'external', 'private', 'linkonce_odr', 'linkonce', 'weak',
             'weak_odr', 'common', 'hidden', 'protected', 'default', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
             'reassoc', 'fast', 'available_externally', 'appending', 'extern_weak', 'thread_local', 'nobuiltin', 'builtin'}

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.ATTRS:
                self.next()
                if v == 'thread_local' and self.peek()[1] == '(':
                    self._skip_parens()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'memory', 'captures'):
                self.next()
                if self.peek()[1] == '(':
                    self._skip_parens()
                else:
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return

    # values ('reg',name) ('int',v) ('glob',name) ('null',) ('undef',) ('agg',[..]) ('zero',) ('cexpr',op,...)
    def val(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            if ty.k == 'fp':
                return ('fp', v)
            return ('int', int(v))
        if k == 'hex':
            return ('fp', v)
        if k == 'cstr':
            return ('bytes', _cstr(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('none',)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.val(ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.exp('(')
                bt = self.ty()
                self.exp(',')
                ops = []
                while True:
                    self.acc('inrange')
                    t = self.ty()
                    self.attrs()
                    ops.append((t, self.val(t)))
                    if not self.acc(','):
                        break
                self.exp(')')
                return ('cgep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                t = self.ty()
                x = self.val(t)
                self.exp('to')
                t2 = self.ty()
                self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp'):
                while self.peek()[1] in ('nuw', 'nsw', 'eq', 'ne', 'ult', 'ugt'):
                    self.next()
                self._skip_parens()
                return ('cunsup', v)
        if v == '{':
            return self._agg('}')
        if v == '[':
            return self._agg(']')
        if v == '<':
            if self.acc('{'):
                r = self._agg('}')
                self.exp('>')
                return r
            return self._agg('>')
        raise ParseError('val? %r in %r' % (v, ' '.join(t[1] for t in self.t)[:200]))

    def _agg(self, end):
        els = []
        while not self.acc(end):
            t = self.ty()
            els.append((t, self.val(t)))
            self.acc(',')
        return ('agg', els)

    def tyval(self):
        t = self.ty()
        self.attrs()
        if t.k == 'metadata':
            # skip a metadata operand
            k, v = self.next()
            return (t, ('none',))
        return (t, self.val(t))


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text')

    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'ins', 'succ', 'preds', 'idx')

    def __init__(self, name):
        self.name, self.ins, self.succ, self.preds = name, [], [], []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}

    # layout -----------------------------------------------------------------
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def size(self, t):
        return self._sa(t)[0]

    def align(self, t):
        return self._sa(t)[1]

    def _sa(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.a + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if t.k == 'ptr':
            return (8, 8)
        if t.k == 'fp':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'fp128': (16, 16), 'half': (2, 2)}[t.a]
        if t.k in ('arr', 'vec'):
            s, a = self._sa(t.b)
            return (s * t.a, a)
        if t.k == 'struct':
            off, al = 0, 1
            for e in t.a:
                s, a = self._sa(e)
                if t.b:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise ParseError('size of %r' % t)

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.a):
            s, a = self._sa(e)
            if t.b:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise ParseError('field')


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'volatile', 'disjoint', 'nneg', 'samesign', 'nusw'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    N = len(lines)
    while i < N:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            if rest.strip() != 'opaque':
                m.types[nm] = P(tokenize(rest), m).ty()
            else:
                m.types[nm] = Ty('struct', [], False)
        elif ln.startswith('@'):
            _global(m, ln)
        elif ln.startswith('declare '):
            g = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
            if g:
                m.decls['@' + g.group(1)] = ln
        elif ln.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            _func(m, lines[i:j])
            i = j
        i += 1
    return m


def _global(m, ln):
    g = re.match(r'(@(?:"[^"]*"|[\w.$-]+)) = (.*)$', ln)
    name, rest = g.group(1), g.group(2)
    rest = re.sub(r'(, comdat(\(\$[^)]*\))?)?(, align \d+)?(, no_sanitize_\w+)?(, !.*)?$', '', rest)
    try:
        p = P(tokenize(rest), m)
        external = False
        const = False
        while True:
            k, v = p.peek()
            if v == 'external':
                external = True
            if v in ('constant', 'global'):
                p.next()
                const = v == 'constant'
                break
            if v == 'alias' or v is None:
                return
            p.next()
            if v == 'thread_local' and p.peek()[1] == '(':
                p._skip_parens()
        t = p.ty()
        init = None
        if not external and p.peek()[0] is not None:
            init = p.val(t)
        m.globals[name] = (t, init, const)
    except ParseError as e:
        m.globals[name] = (None, None, False)


def _func(m, lines):
    hd = lines[0]
    g = re.search(r'@("[^"]*"|[\w.$-]+)\(', hd)
    name = '@' + g.group(1)
    # return type: last type before the name
    pre = hd[7:g.start()]
    p = P(tokenize(pre), m)
    p.attrs()
    while True:
        try:
            save = p.i
            ret = p.ty()
            break
        except ParseError:
            p.i = save + 1
    # params
    s = hd[g.end():]
    depth = 1
    k = 0
    while depth:
        if s[k] == '(':
            depth += 1
        elif s[k] == ')':
            depth -= 1
        k += 1
    ps = s[:k - 1]
    params = []
    if ps.strip():
        p = P(tokenize(ps), m)
        while True:
            if p.acc('...'):
                break
            t = p.ty()
            p.attrs()
            if p.peek()[0] == 'local':
                params.append((t, p.next()[1]))
            else:
                params.append((t, '%' + str(len(params))))
            if not p.acc(','):
                break
    f = Func(name, ret, params)
    m.funcs[name] = f
    cur = None
    # entry label
    first = True
    i = 1
    body = []
    # join multi-line switch
    while i < len(lines):
        ln = lines[i]
        if ln.strip().startswith('switch ') and ']' not in ln:
            while ']' not in lines[i]:
                i += 1
                ln += ' ' + lines[i].strip()
        body.append(ln)
        i += 1
    for ln in body:
        if not ln.strip():
            continue
        c = re.match(r'("[^"]*"|[\w.$-]+):', ln)
        if c and not ln.startswith(' '):
            cur = Block('%' + c.group(1))
            f.blocks[cur.name] = cur
            f.order.append(cur)
            first = False
            continue
        if ln.startswith(';'):
            continue
        if first:
            # unnamed entry: number = number of unnamed params
            nm = '%' + str(sum(1 for _, n in params if re.fullmatch(r'%\d+', n)))
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(cur)
            first = False
        ins = _instr(m, ln.strip())
        if ins is not None:
            cur.ins.append(ins)
    for b in f.order:
        t = b.ins[-1]
        b.succ = list(dict.fromkeys(_succ(t)))
        for s_ in b.succ:
            f.blocks[s_].preds.append(b.name)


def _succ(t):
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[2]] + [l for _, l in t.a[3]]
    return []


def _instr(m, ln):
    text = re.sub(r', ![\w.]+ ![\w.]+.*$', '', ln)
    text = re.sub(r'(, )?!srcloc.*$', '', text)
    try:
        return _instr2(m, text)
    except (ParseError, KeyError, IndexError, ValueError) as e:
        dst = None
        g = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = ', text)
        if g:
            dst = g.group(1)
        return Instr('unsupported', dst, None, (str(e),), text)


def _instr2(m, text):
    p = P(tokenize(text), m)
    dst = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        dst = p.next()[1]
        p.next()
    while p.peek()[1] in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()[1]
    if op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        t = p.ty()
        a = p.val(t)
        p.exp(',')
        b = p.val(t)
        return Instr(op, dst, t, (a, b, fl), text)
    if op in CAST:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.ty()
        a = p.val(t)
        p.exp('to')
        t2 = p.ty()
        return Instr(op, dst, t2, (t, a), text)
    if op == 'icmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pr = p.next()[1]
        t = p.ty()
        a = p.val(t)
        p.exp(',')
        b = p.val(t)
        return Instr('icmp', dst, t, (pr, a, b), text)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.ty()
        n = 1
        if p.acc(','):
            if p.peek()[1] != 'align':
                tt = p.ty()
                n = p.val(tt)
        return Instr('alloca', dst, t, (n,), text)
    if op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = p.ty()
        p.exp(',')
        t2, a = p.tyval()
        return Instr('load', dst, t, (a,), text)
    if op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t, v = p.tyval()
        p.exp(',')
        t2, a = p.tyval()
        return Instr('store', None, t, (v, a), text)
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        bt = p.ty()
        p.exp(',')
        ops = []
        while True:
            ops.append(p.tyval())
            if not p.acc(','):
                break
        return Instr('gep', dst, bt, (ops,), text)
    if op == 'phi':
        p.attrs()
        t = p.ty()
        inc = []
        while True:
            p.exp('[')
            v = p.val(t)
            p.exp(',')
            lb = p.next()[1]
            p.exp(']')
            inc.append((v, lb))
            if not p.acc(','):
                break
        return Instr('phi', dst, t, (inc,), text)
    if op == 'br':
        if p.acc('label'):
            return Instr('br', None, None, (p.next()[1],), text)
        t = p.ty()
        c = p.val(t)
        p.exp(',')
        p.exp('label')
        a = p.next()[1]
        p.exp(',')
        p.exp('label')
        b = p.next()[1]
        return Instr('condbr', None, None, (c, a, b), text)
    if op == 'switch':
        t = p.ty()
        v = p.val(t)
        p.exp(',')
        p.exp('label')
        d = p.next()[1]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.ty()
            c = p.val(tt)
            p.exp(',')
            p.exp('label')
            cs.append((c[1], p.next()[1]))
        return Instr('switch', None, t, (t, v, d, cs), text)
    if op == 'ret':
        t = p.ty()
        if t.k == 'void':
            return Instr('ret', None, t, (None,), text)
        return Instr('ret', None, t, (p.val(t),), text)
    if op == 'unreachable':
        return Instr('unreachable', None, None, (), text)
    if op == 'select':
        p.attrs()
        t1, c = p.tyval()
        p.exp(',')
        t, a = p.tyval()
        p.exp(',')
        t, b = p.tyval()
        return Instr('select', dst, t, (c, a, b), text)
    if op == 'freeze':
        t = p.ty()
        return Instr('freeze', dst, t, (p.val(t),), text)
    if op == 'extractvalue':
        t, a = p.tyval()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', dst, t, (a, idx), text)
    if op == 'insertvalue':
        t, a = p.tyval()
        p.exp(',')
        t2, b = p.tyval()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', dst, t, (a, t2, b, idx), text)
    if op == 'call':
        p.attrs()
        t = p.ty()
        if t.k == 'fn':
            t = t.a
        callee = p.next()
        if callee[1] == 'asm':
            return Instr('asm', dst, t, (), text)
        p.exp('(')
        args = []
        while not p.acc(')'):
            args.append(p.tyval())
            p.acc(',')
        return Instr('call', dst, t, (callee, args), text)
    if op == 'fneg' or op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        return Instr('unsupported', dst, None, ('float',), text)
    return Instr('unsupported', dst, None, (op,), text)


# ---- loops -------------------------------------------------------------------
def find_loops(f):
    """natural loops: header -> set of body blocks (reducible CFGs)."""
    if f.loops is not None:
        return f.loops
    names = [b.name for b in f.order]
    # RPO
    seen, post = set(), []
    stack = [(names[0], iter(f.blocks[names[0]].succ))]
    seen.add(names[0])
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(n)
            stack.pop()
    rpo = post[::-1]
    num = {n: i for i, n in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in f.blocks[n].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for s in f.blocks[n].succ:
            if s in num and dom(s, n):
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in f.blocks[x].preds if p in num]
    f.loops = loops
    return loops
