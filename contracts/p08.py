"""comparison, prefixes and suffixes"""
from lib_str import *
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=B('r'), **k):
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


class Lit:
    """a character sequence of the specification"""

    def __init__(self, xs):
        self.xs, self.len = xs, len(xs)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.xs[k] if 0 <= k < len(self.xs) else 0
        r = self.xs[-1]
        for i in range(len(self.xs) - 2, -1, -1):
            r = Ite(k == i, k * 0 + self.xs[i], r if isinstance(r, N) else k * 0 + r)
        return r


def key(x):
    """order of char values (char is signed here)"""
    return x ^ 128


def mn(c, a, b):
    return c.ite(a <= b, lambda: a, lambda: b)


def EQ(c, a, b):
    return And(a.len == b.len, forall(0, a.len, lambda k: a[k] == b[k]))


def LT(c, a, b):
    """a is before b: a proper prefix of b, or smaller at the first difference"""
    return Or(And(a.len < b.len, forall(0, a.len, lambda k: a[k] == b[k])),
              exists(0, mn(c, a.len, b.len), lambda d: And(key(a[d]) < key(b[d]), forall(0, d, lambda k: a[k] == b[k]))))


def order_post(op, A, Bf):
    def post(c):
        a, b = A(c), Bf(c)
        if isinstance(a.len, int) and isinstance(b.len, N):
            pass
        T_ = {'==': [EQ(c, a, b)], '<': [LT(c, a, b)], '>': [LT(c, b, a)]}
        T_['<='] = T_['=='] + T_['<']
        T_['>='] = T_['=='] + T_['>']
        T_['!='] = T_['<'] + T_['>']
        neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
        return [('true only if it holds', c.case(c.ret, lambda: Or(*T_[op]))), ('false only if it does not', c.case(Not(c.ret), lambda: Or(*T_[neg])))]
    return post


def cmp_post(A, Bf):
    def post(c):
        a, b = A(c), Bf(c)
        r = c.ret
        return [('negative: before', c.case(r.neg, lambda: LT(c, a, b))), ('zero: equal', c.case(And(Not(r.neg), r.mag == 0), lambda: EQ(c, a, b))),
                ('positive: after', c.case(And(Not(r.neg), r.mag != 0), lambda: LT(c, b, a)))]
    return post


s_ = lambda c: c.s
p_ = lambda c: c.p
c_ = lambda c: Lit([c.c])
foo = lambda c: Lit(list(b'foo'))
OPS = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
FS = Buf('s', null=True, alphabet=b'fo')
K_('compare(substr)', 'compare_s', [S, T], cmp_post(s_, p_), ret=I('r', 32))
K_('compare(char*,len)', 'compare_p', [S, T], cmp_post(s_, p_), ret=I('r', 32))
K_('compare(char)', 'compare_c', [S, C], cmp_post(s_, c_), ret=I('r', 32))
for o, sy in OPS.items():
    K_('substr %s substr' % sy, '%s_s' % o, [S, T], order_post(sy, s_, p_))
    K_('substr %s char' % sy, '%s_c' % o, [S, C], order_post(sy, s_, c_))
    K_('char %s substr' % sy, 'c%s_s' % o, [S, C], order_post(sy, c_, s_))
    K_('substr %s literal' % sy, '%s_lit' % o, [FS], order_post(sy, s_, foo))
    K_('literal %s substr' % sy, 'lit%s' % o, [FS], order_post(sy, foo, s_))
K_('mutable substr == substr', 'eq_rw', [SM, T], order_post('==', s_, p_))
K_('mutable substr < substr', 'lt_rw', [SM, T], order_post('<', s_, p_))

# prefixes / suffixes
iff = lambda f: (lambda c: [('true only if it holds', c.case(c.ret, lambda: f(c))), ('false only if it does not', c.case(Not(c.ret), lambda: Not(f(c))))])
K_('begins_with(char)', 'begins_c', [S, C], iff(lambda c: And(c.s.len > 0, lambda: c.s[0] == c.c)))
K_('begins_with(char,n)', 'begins_cn', [S, C, POS], iff(lambda c: And(c.s.len >= c.b, lambda: forall(0, c.b, lambda k: c.s[k] == c.c))))
K_('begins_with(pattern)', 'begins_s', [S, T], iff(lambda c: And(c.s.len >= c.p.len, lambda: forall(0, c.p.len, lambda k: c.s[k] == c.p[k]))))
K_('begins_with_any', 'begins_any', [S, T], iff(lambda c: And(c.s.len > 0, lambda: isin(c.s[0], c.p))))
K_('ends_with(char)', 'ends_c', [S, C], iff(lambda c: And(c.s.len > 0, lambda: c.s[c.s.len - 1] == c.c)))
K_('ends_with(char,n)', 'ends_cn', [S, C, POS], iff(lambda c: And(c.s.len >= c.b, lambda: forall(c.s.len - c.b, c.s.len, lambda k: c.s[k] == c.c))))
K_('ends_with(pattern)', 'ends_s', [S, T], iff(lambda c: And(c.s.len >= c.p.len, lambda: forall(0, c.p.len, lambda k: c.s[c.s.len - c.p.len + k] == c.p[k]))))
K_('ends_with_any', 'ends_any', [S, T], iff(lambda c: And(c.s.len > 0, lambda: isin(c.s[c.s.len - 1], c.p))))
