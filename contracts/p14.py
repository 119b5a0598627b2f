"""text output: to_chars of text, alignment, cat, catsep, format"""
from lib_str import *
import spec
import z3
import ir
import lib_int
U_ = 'fmt'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


LIM = 1 << 50
R = U('r')
S_, A_, B_, P_, F_ = Buf('s', mut=True), Buf('a'), Buf('b'), Buf('p'), Buf('f')
SN_, AN_ = Buf('s', mut=True, null=True), Buf('a', null=True)
CH, PC = U('x', 8), U('p', 8)


def cased(c, a, f):
    """the labelled formulas of f() under the condition a"""
    if not spec._SYM[0]:
        return f() if a else []
    d = c.eng.decide(c.st, a) if z3.is_expr(a) else a
    if d is False:
        return []
    if d is True:
        return f()
    return [(l, c.case(a, lambda g=g: g)) for l, g in f()]


class Lit:
    def __init__(self, b):
        self.b, self.len = b, len(b)

    def all(self, c, at):
        return And(*[c.s[at + i] == self.b[i] for i in range(self.len)])


class One:
    """a single character"""
    len = 1

    def __init__(self, x):
        self.x = x

    def all(self, c, at):
        return c.s[at] == self.x


class Txt:
    def __init__(self, buf, lo=0, ln=None):
        self.buf, self.lo, self.len = buf, lo, buf.len if ln is None else ln

    def all(self, c, at):
        return forall(0, self.len, lambda k: c.s[at + k] == self.buf[self.lo + k])


class Num:
    """the d decimal digits of v"""
    def __init__(self, v, d):
        self.v, self.len = v, d

    def all(self, c, at):
        return lib_int.digits_at(c, c.s, at, self.len, self.v, 10, 'int')


class Fill:
    def __init__(self, x, ln):
        self.x, self.len = x, ln

    def all(self, c, at):
        return forall(0, self.len, lambda k: c.s[at + k] == self.x)


def writes(c, parts, ret):
    """ret is the total size; when it fits, the pieces are there in order and nothing else changes"""
    tot = 0
    for p in parts:
        tot = tot + p.len
    out = [('returns the size of the whole text', ret == tot)]

    def inside():
        r, at = [], 0
        for i, p in enumerate(parts):
            r.append(p.all(c, at))
            at = at + p.len
        return And(*r)
    out.append(('when it fits, the pieces are written in order', c.case(tot <= c.s.len, inside)))
    out.append(('nothing is written past the text', c.case(tot <= c.s.len, lambda: forall(tot, c.s.len, lambda k: c.s[k] == c.old('s')[k]))))
    return out


def subres(c, parts):
    tot = 0
    for p in parts:
        tot = tot + p.len
    return writes(c, parts, c.o.u(8, 8)) + [('starts at the buffer', c.o.u(0, 8) == 0)]


O2 = Out('o', 16)
K_('to_chars(csubstr)', 'tc_str', [SN_, AN_], lambda c: writes(c, [Txt(c.a)], c.ret) + [('what fits of the text is written', forall(0, c.s.len, lambda k: Implies(k < c.a.len, lambda: c.s[k] == c.a[k])))], ret=R)
K_('to_chars(substr)', 'tc_rw', [SN_, AN_], lambda c: writes(c, [Txt(c.a)], c.ret), ret=R)
K_('to_chars(char)', 'tc_char', [SN_, CH], lambda c: writes(c, [One(c.x)], c.ret), ret=R)
K_('to_chars(literal)', 'tc_lit', [SN_], lambda c: writes(c, [Lit(b'xyz')], c.ret), ret=R)
K_('to_chars(boolalpha)', 'tc_alpha', [SN_, B('v')], lambda c: [(l + ' (true)', Implies(c.v, f)) for l, f in writes(c, [Lit(b'true')], c.ret)] + [(l + ' (false)', Implies(Not(c.v), f)) for l, f in writes(c, [Lit(b'false')], c.ret)], ret=R)
small = lambda c: And(c.w <= LIM)
mx = lambda c: c.w - c.a.len
for nm in ('left', 'right'):
    def post(c, nm=nm):
        a, w = c.a, c.w
        big, sml = [], []
        big = [(l + ' (no padding)', f) for l, f in cased(c, a.len >= w, lambda: writes(c, [Txt(a)], c.ret))]
        f = lambda: Fill(c.p, w - a.len)
        sml = [(l + ' (padded)', g) for l, g in cased(c, a.len < w, lambda: writes(c, [Txt(a), f()] if nm == 'left' else [f(), Txt(a)], c.ret))]
        return big + sml
    K_('to_chars(fmt::%s(text,width,pad))' % nm, nm, [S_, A_, U('w', vals=[0, 1, 2, 3, 5, 8]), PC], post, small, ret=R)
K_('cat(a)', 'cat1', [SN_, AN_], lambda c: writes(c, [Txt(c.a)], c.ret), ret=R)
K_('cat(a,b)', 'cat2', [S_, A_, B_], lambda c: writes(c, [Txt(c.a), Txt(c.b)], c.ret), ret=R)
K_('cat(a,char,b)', 'cat3', [S_, A_, CH, B_], lambda c: writes(c, [Txt(c.a), One(c.x), Txt(c.b)], c.ret), ret=R)
K_('catsep(sep,a,b)', 'catsep2', [S_, A_, B_, P_], lambda c: writes(c, [Txt(c.a), Txt(c.p), Txt(c.b)], c.ret), ret=R)
K_('catsep(char,a,char,b)', 'catsep3', [S_, A_, CH, B_, PC], lambda c: writes(c, [Txt(c.a), One(c.p), One(c.x), One(c.p), Txt(c.b)], c.ret), ret=R)
K_('cat_sub', 'cat_sub', [S_, A_, B_, O2], lambda c: subres(c, [Txt(c.a), Txt(c.b)]), lambda c: c.a.len + c.b.len <= c.s.len)
K_('catsep_sub', 'catsep_sub', [S_, A_, B_, PC, O2], lambda c: subres(c, [Txt(c.a), One(c.p), Txt(c.b)]), lambda c: c.a.len + c.b.len + 1 <= c.s.len)
K_('format(fmt)', 'format0', [SN_, Buf('f', null=True)], lambda c: writes(c, [Txt(c.f)], c.ret), ret=R)


def ph(c, f, lo, p):
    """p is the first placeholder of f from lo on, or npos when there is none"""
    at = lambda k: And(f[k] == 123, lambda: f[k + 1] == 125)
    none = lambda hi: forall(lo, hi, lambda k: Implies(k + 1 < f.len, lambda: Not(at(k))))
    if not spec._SYM[0]:
        b = bytes(f[i] for i in range(f.len))
        i = b.find(b'{}', lo) if lo <= f.len else -1
        return p == (NP if i < 0 else i)
    return Or(And(p == NP, none(f.len)), And(lo <= p, p < f.len, p + 1 < f.len, lambda: at(p), lambda: none(p)))


def gen_f(two):
    def g(rng, case):
        b = b''.join(rng.choice([b'{}', b'{', b'}', b'x', b'yz', b'{}', b'{{}']) for _ in range(rng.randrange(6)))
        p = b.find(b'{}')
        q = b.find(b'{}', p + 2) if p >= 0 else -1
        n2 = len(b) + rng.randrange(8)
        d = {'f': b, 'p': NP if p < 0 else p, 's': bytes(rng.randrange(1, 255) for _ in range(max(0, n2 - rng.randrange(3))))}
        if two:
            d['q'] = NP if q < 0 else q
        return d
    return g


FB = Buf('f', alphabet=b'{}x')


def fmt1(c, ret=None, extra=()):
    ret = c.ret if ret is None else ret
    f, p = c.f, c.p
    return [(l + ' (no placeholder)', g) for l, g in cased(c, p == NP, lambda: writes(c, [Txt(f)], ret))] + \
           [(l + ' (argument in place of the placeholder)', g) for l, g in cased(c, p != NP, lambda: writes(c, [Txt(f, 0, p), Txt(c.a), Txt(f, p + 2, f.len - p - 2)], ret))]


def fmt2(c):
    f, p, q = c.f, c.p, c.q
    return [(l + ' (no placeholder)', g) for l, g in cased(c, p == NP, lambda: writes(c, [Txt(f)], c.ret))] + \
           [(l + ' (one placeholder)', g) for l, g in cased(c, And(p != NP, q == NP), lambda: writes(c, [Txt(f, 0, p), Txt(c.a), Txt(f, p + 2, f.len - p - 2)], c.ret))] + \
           [(l + ' (two placeholders)', g) for l, g in cased(c, And(p != NP, q != NP), lambda: writes(c, [Txt(f, 0, p), Txt(c.a), Txt(f, p + 2, q - p - 2), One(c.x), Txt(f, q + 2, f.len - q - 2)], c.ret))]


K_('format(fmt,a)', 'format1', [S_, FB, A_, U('p')], fmt1, lambda c: ph(c, c.f, 0, c.p), ret=R, gen=gen_f(False))
K_('format(fmt,a,char)', 'format2', [S_, FB, A_, CH, U('p'), U('q')], fmt2, lambda c: And(ph(c, c.f, 0, c.p), lambda: Or(And(c.p == NP, c.q == NP), And(c.p != NP, lambda: ph(c, c.f, c.p + 2, c.q)))), ret=R, gen=gen_f(True))
K_('format_sub', 'format_sub', [S_, FB, A_, U('p'), O2], lambda c: fmt1(c, c.o.u(8, 8)) + [('starts at the buffer', c.o.u(0, 8) == 0)], lambda c: And(ph(c, c.f, 0, c.p), c.f.len + c.a.len <= c.s.len), gen=gen_f(False))


def num(f):
    return lambda c: [('%s (%d digits)' % (l, d), g) for d in range(1, 6) for l, g in cased(c, lib_int.has_ndigits(c.v, d, 10, 16), lambda: f(c, Num(c.v, d)))]


V_ = U('v', 16)


def loopmode(s, fn, hdr):
    """digit loops (they divide) are short: unrolled completely; the padding loop gets an invariant"""
    body = ir.find_loops(fn)[hdr]
    return 'unroll' if any(i.op == 'bin' and i.a[0] in ('udiv', 'urem') or i.op in ('udiv', 'urem') for b in body for i in fn.blocks[b].ins) else 'rule'


IK = dict(ret=R, loops='unroll')
K_('cat(a,u16,b)', 'cat_int', [S_, A_, V_, B_], num(lambda c, v: writes(c, [Txt(c.a), v, Txt(c.b)], c.ret)), **IK)
K_('catsep(char,u16,a)', 'catsep_int', [S_, V_, PC, A_], num(lambda c, v: writes(c, [v, One(c.p), Txt(c.a)], c.ret)), **IK)
K_('format("<{}>{}",u16)', 'format_int', [S_, V_], num(lambda c, v: writes(c, [Lit(b'<'), v, Lit(b'>{}')], c.ret)), **IK)
K_('to_chars(fmt::left(u16,width,pad))', 'left_int', [S_, V_, U('w', vals=[0, 1, 2, 3, 5, 8]), PC],
   num(lambda c, v: cased(c, c.w <= v.len, lambda: writes(c, [v], c.ret)) + cased(c, c.w > v.len, lambda: writes(c, [v, Fill(c.p, c.w - v.len)], c.ret))), small, ret=R, loops=loopmode)
K_('to_chars(fmt::right(u16,width,pad))', 'right_int', [S_, V_, U('w', vals=[0, 1, 2, 3, 5, 8]), PC],
   num(lambda c, v: cased(c, c.w <= v.len, lambda: writes(c, [v], c.ret)) + cased(c, c.w > v.len, lambda: writes(c, [Fill(c.p, c.w - v.len), v], c.ret))), small, ret=R, loops=loopmode)


class Keep:
    """the first m characters, as they were"""
    def __init__(self, m):
        self.len = m

    def all(self, c, at):
        return forall(0, self.len, lambda k: c.s[k] == c.old('s')[k])


def total(parts):
    t = 0
    for p in parts:
        t = t + p.len
    return t


def grown(c, parts):
    """the container holds the pieces; growing may have scribbled past the text"""
    tot, r, at = total(parts), [], 0
    for p in parts:
        r.append(p.all(c, at))
        at = at + p.len
    return [('the size is that of the text', c.ret == tot), ('the pieces are there in order', And(*r))]


M_ = U('m', vals=[0, 1, 2, 3, 5])
for nm, parts in [('cat', lambda c: [Txt(c.a), Txt(c.b)]), ('catsep', lambda c: [Txt(c.a), Lit(b'+'), Txt(c.b)]), ('format', lambda c: [Lit(b'<'), Txt(c.a), Lit(b'-'), Txt(c.b), Lit(b'>')])]:
    K_(nm + 'rs(container,...)', nm + 'rs', [S_, M_, A_, B_], lambda c, parts=parts: grown(c, parts(c)), lambda c, parts=parts: And(c.m <= c.s.len, total(parts(c)) <= c.s.len), ret=R, loops='unroll')
    K_(nm + 'rs_append(container,...)', nm + 'rs_append', [S_, M_, A_, B_, O2], lambda c, parts=parts: grown(c, [Keep(c.m)] + parts(c)) + [('the view is the appended part', And(c.o.u(0, 8) == c.m, c.o.u(8, 8) == total(parts(c))))],
       lambda c, parts=parts: And(c.m <= c.s.len, total(parts(c)) <= c.s.len - c.m), ret=R, loops='unroll')
