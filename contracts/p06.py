"""recognising numbers in text"""
import re
from lib_str import *
import spec
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


n = lambda c: c.s.len
O5 = Out('o', 40)
SN = Buf('s', null=True, alphabet=b'0123456789+-xXobBOafFep. ,')
ws = lambda x: Or(x == 32, x == 10, x == 13, x == 9)
delim = lambda x: Or(ws(x), x == 93, x == 41, x == 125, x == 44, x == 59, x == 0)
dec = lambda x: And(x >= 48, x <= 57)
hx = lambda x: Or(dec(x), And(x >= 97, x <= 102), And(x >= 65, x <= 70))
oc = lambda x: And(x >= 48, x <= 55)
bi = lambda x: Or(x == 48, x == 49)


def nonempty(c):
    v, s = VW(c), c.s
    e = v.off + v.len
    return [('inside the string', And(v.off <= n(c), v.len <= n(c) - v.off)),
            ('no whitespace inside', forall(v.off, e, lambda k: Not(ws(s[k])))),
            ('only whitespace before', c.case(v.len != 0, lambda: forall(0, v.off, lambda k: ws(s[k])))),
            ('followed by whitespace or the end', c.case(And(v.len != 0, e < n(c)), lambda: ws(s[e]))),
            ('empty only for whitespace', c.case(v.len == 0, lambda: forall(0, n(c), lambda k: ws(s[k]))))]


K_('first_non_empty_span()', 'first_non_empty_span', [Buf('s', null=True, alphabet=b'a \t\n'), O], nonempty)


def number(c, s, a, b, minus, hit):
    """case split over the written forms of an integer in s[a,b); hit(start, cls) for each"""
    out = []
    neg = s[a] == 45
    sign = Or(s[a] == 43, neg)
    return neg, sign


def ispan(minus, sgs=(0, 1), ne=None):
    def post(c):
        v, s = VW(c), c.s
        a, L = ne(c) if ne else (c.o.u(24, 8), c.o.u(32, 8))
        b = a + L
        e = v.off + v.len
        out = [('inside the non-empty span', Or(v.len == 0, And(v.off == a, v.len <= L)))]
        for sg in sgs:
            pos = a + sg
            sgc = (lambda: True) if ne else lambda: ((Or(s[a] == 43, s[a] == 45) if minus else s[a] == 43) if sg else Not(Or(s[a] == 43, s[a] == 45)))
            pre = lambda *ch: And(L >= sg + 3, s[pos] == 48, Or(*[s[pos + 1] == ord(x) for x in ch]))
            forms = [('hexadecimal', lambda: pre(*'xX'), 2, hx), ('binary', lambda: pre(*'bB'), 2, bi), ('octal', lambda: pre(*'oO'), 2, oc),
                     ('decimal', lambda: Not(pre(*'xXbBoO')), 0, dec)]
            for nm, isit, skip, cls in forms:
                st = pos + skip
                cond = And(L > sg, sgc(), isit())
                t = '%s%s: ' % ('signed ' if sg else '', nm)
                out.append((t + 'a found span has digits only, up to a delimiter',
                            c.case(And(cond, v.len != 0), lambda st=st, cls=cls: FA(c, [e > st, forall(st, e, lambda k: cls(s[k])), c.case(e < b, lambda: delim(s[e]))]))))
                out.append((t + 'nothing is found only when there is none',
                            c.case(And(cond, v.len == 0), lambda st=st, cls=cls: forall(st + 1, b + 1, lambda x: Or(exists(st, x, lambda j: Not(cls(s[j]))), And(x < b, Not(delim(s[x]))))))))
        if ne:
            return out + [('a sign alone is no number', c.case(L == sgs[0], lambda: v.len == 0))]
        out.append(('a lone sign is no number', c.case(And(L == 1, Or(s[a] == 43, s[a] == 45)), lambda: v.len == 0)))
        if not minus:
            out.append(('a negative number is not unsigned', c.case(And(L > 0, s[a] == 45), lambda: v.len == 0)))
        return out
    return post


def gen_int(rng, case):
    k = rng.choice('xbo  ')
    d = {'x': '0123456789abcdefABCDEF', 'b': '01', 'o': '01234567'}.get(k, '0123456789')
    t = ('' if k == ' ' else '0' + rng.choice([k, k.upper()])) + ''.join(rng.choice(d) for _ in range(rng.randint(0, 4)))
    t = rng.choice(['', '', '+', '-']) + t + rng.choice(['', '', ',', ' ', ']', ';', '\0', '/', 'x', ',1'])
    if rng.random() < .2 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice('0189.ex+-a,g ') + t[i + 1:]
    t = rng.choice(['', '', ' ', '\t\n']) + t + rng.choice(['', '', ' ', ' 1'])
    return {'s': t.encode('latin1')}


NATIVE = dict(bounded=True, bmc=2, native_n=4000)


def FA(c, l):
    r = l[0]
    for x in l[1:]:
        r = And(r, x)
    return r


for sg in (0, 1):
    K_('_first_integral_span(%d)' % sg, 'integral_span', [Buf('s', alphabet=b'0123456789xXobBOafF ,'), K(sg), O], ispan(True, (sg,), lambda c: (0 * n(c), n(c))), lambda c: n(c) > 0)
K_('first_uint_span()', 'first_uint_span2', [SN, O5], ispan(False), gen=gen_int, **NATIVE)
K_('first_int_span()', 'first_int_span2', [SN, O5], ispan(True), gen=gen_int, **NATIVE)


def isint(minus):
    def post(c):
        s = c.s
        out = [('the empty string is no number', Implies(n(c) == 0, Not(c.ret)))]
        for sg in (0, 1):
            sgc = lambda: ((Or(s[0] == 43, s[0] == 45) if minus else s[0] == 43) if sg else Not(Or(s[0] == 43, s[0] == 45)))
            pre = lambda *ch: And(n(c) >= sg + 3, s[sg] == 48, Or(*[s[sg + 1] == ord(x) for x in ch]))
            for nm, isit, skip, cls in [('hexadecimal', lambda: pre(*'xX'), 2, hx), ('binary', lambda: pre(*'bB'), 2, bi), ('octal', lambda: pre(*'oO'), 2, oc),
                                        ('decimal', lambda: Not(pre(*'xXbBoO')), 0, dec)]:
                st = sg + skip
                cond = And(n(c) > sg, sgc(), isit())
                t = '%s%s: ' % ('signed ' if sg else '', nm)
                out.append((t + 'accepted only when it is all digits', c.case(And(cond, c.ret), lambda st=st, cls=cls: forall(st, n(c), lambda k: cls(s[k])))))
                out.append((t + 'rejected only when some character is no digit', c.case(And(cond, Not(c.ret)), lambda st=st, cls=cls: exists(st, n(c), lambda k: Not(cls(s[k]))))))
        out.append(('a lone sign is no number', c.case(And(n(c) == 1, Or(s[0] == 43, s[0] == 45)), lambda: Not(c.ret))))
        if not minus:
            out.append(('a negative number is not unsigned', c.case(And(n(c) > 0, s[0] == 45), lambda: Not(c.ret))))
        return out
    return post


K_('is_unsigned_integer()', 'is_unsigned_integer', [SN], isint(False), ret=B('r'), gen=gen_int, **NATIVE)
K_('is_integer()', 'is_integer', [SN], isint(True), ret=B('r'), gen=gen_int, **NATIVE)

# real numbers: the view is inside the non-empty span (proved); the grammar is compared with a reference recogniser (bounded)
DG = {'x': '[0-9a-fA-F]', 'b': '[01]', 'o': '[0-7]'}
PW = r'(?:[pP][+-][0-9]+)?'
REAL = [re.compile((r'[+-]?0[%s%s](?:%s+\.?%s*|\.%s+)' % (k, k.upper(), d, d, d) + PW).encode()) for k, d in DG.items()] + \
       [re.compile(rb'[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?'), re.compile(rb'[+-]?(?:infinity|inf|nan)')]
DEL = b' \n])},;\r\t\0'


def real_ref(t):
    """length of the real number at the start of t (up to a delimiter), 0 if none"""
    i = 0
    while i < len(t) and t[i] not in DEL:
        i += 1
    return i if any(r.fullmatch(t[:i]) for r in REAL) else 0


def bts(x, a=0, b=None):
    return bytes(x[k] for k in range(a, x.len if b is None else b))


def rspan(c):
    v = VW(c)
    a, L = c.o.u(24, 8), c.o.u(32, 8)
    out = [('inside the non-empty span', Or(v.len == 0, And(v.off == a, v.len <= L)))]
    if not spec._SYM[0]:
        out.append(('the longest real number up to a delimiter', v.len == real_ref(bts(c.s, a, a + L))))
    return out


def gen_real(rng, case):
    def digs(d):
        return ''.join(rng.choice(d) for _ in range(rng.randint(0, 3)))
    k = rng.choice('xbo  i')
    d = {'x': '0123456789abcdefABCDEF', 'b': '01', 'o': '01234567'}.get(k, '0123456789')
    if k == 'i':
        t = rng.choice(['inf', 'nan', 'infinity', 'infinit', 'in', 'na', 'Inf'])
    else:
        t = ('' if k == ' ' else '0' + rng.choice([k, k.upper()])) + digs(d) + rng.choice(['', '.', '.']) + digs(d)
        t += rng.choice(['', '', rng.choice('pPeE') + rng.choice(['', '+', '-']) + digs('0123456789')])
    t = rng.choice(['', '', '+', '-']) + t + rng.choice(['', '', ',', ' ', ']', ';', '\0', '/', 'x', ',1'])
    if rng.random() < .2 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice('0.e+-p,g ') + t[i + 1:]
    t = rng.choice(['', '', ' ', '\t\n']) + t + rng.choice(['', '', ' ', ' 1'])
    return {'s': t.encode('latin1')}


SN1 = Buf('s', alphabet=b'0123456789+-xXobBOafFep. ,')
K_('first_real_span()', 'first_real_span2', [SN1, O5], rspan, gen=gen_real, native_n=8000, bounded=True, bmc=0)
K_('is_real()', 'is_real', [SN1], lambda c: [] if spec._SYM[0] else [('accepted exactly when the whole text is a real number', bool(c.ret) == (n(c) > 0 and real_ref(bts(c.s)) == n(c)))], gen=gen_real, native_n=8000, ret=B('r'), bounded=True, bmc=0)
INT = re.compile(rb'[+-]?(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|[0-9]+)')
K_('is_number()', 'is_number', [SN1], lambda c: [] if spec._SYM[0] else [('accepted exactly when the whole text is an integer or real number', bool(c.ret) == (n(c) > 0 and (bool(INT.fullmatch(bts(c.s))) or real_ref(bts(c.s)) == n(c))))], gen=gen_real, native_n=8000, ret=B('r'), bounded=True, bmc=0)
