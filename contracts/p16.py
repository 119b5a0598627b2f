"""span, spanrs, spanrsl"""
from lib_str import *
import spec
U_ = 'span'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


ARGS = [Buf('s', mut=True), U('f'), U('k'), U('c')]
IJ, O4 = [U('i'), U('j')], Out('o', 32)


def block(c):
    """the span is k elements at f of a block of 4-byte elements, with capacity c"""
    return And(c.f <= 1 << 50, c.c <= 1 << 50, c.k <= c.c, 4 * (c.f + c.c) <= c.s.len)


def gen(two):
    def g(rng, case):
        f, k, x = rng.randrange(4), rng.randrange(7), rng.randrange(3)
        d = {'s': bytes(rng.randrange(256) for _ in range(4 * (f + k + x) + rng.randrange(3))), 'f': f, 'k': k, 'c': k + x, 'i': rng.choice([rng.randrange(k + 2)] * 4 + [NP, NP - 1])}
        if two:
            d['j'] = rng.choice([rng.randrange(k + 2)] * 4 + [NP, NP - d['i'] & NP])
        return d
    return g


def is_(c, N, off, ln, cap=None, offs=None):
    """the result: position in the block, size, and for the kinds that have them capacity and offset"""
    r = [('starts where it must', c.o.u(0, 8) == 4 * off), ('has the size it must', c.o.u(8, 8) == ln)]
    if N != 's':
        r.append(('keeps the capacity up to the end of the block', c.o.u(16, 8) == (c.f + c.c - off if cap is None else cap)))
    if N == 'rsl':
        r.append(('keeps the offset from the start of the block', c.o.u(24, 8) == off if offs is None else c.o.u(24, 8) == offs))
    return r


NM = {'s': 'span', 'rs': 'spanrs', 'rsl': 'spanrsl'}
for N, t in NM.items():
    sub2 = (lambda c, N=N: is_(c, N, c.f + c.i, c.j), lambda c: And(c.i <= c.k, c.j <= c.k - c.i))
    rng2 = (lambda c, N=N: is_(c, N, c.f + c.i, c.j - c.i), lambda c: And(c.i <= c.j, c.j <= c.k))
    one = (lambda c, N=N: is_(c, N, c.f + c.i, c.k - c.i), lambda c: c.i <= c.k)
    for nm, fn, ij, (post, dom) in [
            ('subspan(first,num)', 'subspan2', IJ, sub2), ('subspan(first)', 'subspan1', IJ[:1], one), ('range(first,last)', 'range2', IJ, rng2), ('range(first)', 'range1', IJ[:1], one),
            ('first(num)', 'first', IJ[:1], (lambda c, N=N: is_(c, N, c.f, c.i), lambda c: c.i <= c.k)), ('last(num)', 'last', IJ[:1], (lambda c, N=N: is_(c, N, c.f + c.k - c.i, c.i), lambda c: c.i <= c.k)),
            ('resize(n)', 'resize', IJ[:1], (lambda c, N=N: is_(c, N, c.f, c.i), (lambda c: c.i <= c.k) if N == 's' else (lambda c: c.i <= c.c))),
            ('rtrim(n)', 'rtrim', IJ[:1], (lambda c, N=N: is_(c, N, c.f, c.k - c.i), lambda c: c.i < c.k)), ('ltrim(n)', 'ltrim', IJ[:1], (lambda c, N=N: is_(c, N, c.f + c.i, c.k - c.i), lambda c: c.i < c.k)),
            ('compll(part)', 'compll', IJ, (lambda c, N=N: is_(c, N, c.f, c.i), rng2[1])), ('complr(part)', 'complr', IJ, (lambda c, N=N: is_(c, N, c.f + c.j, c.k - c.j), rng2[1]))]:
        g = gen(len(ij) == 2)
        K_('%s::%s' % (t, nm), fn + '_' + N, ARGS + ij + [O4], post, lambda c, dom=dom: And(block(c), dom(c)), gen=g)
        K_('%s::%s: nothing else is accepted' % (t, nm), fn + '_' + N, ARGS + ij + [O4], lambda c, dom=dom: [('the arguments are in the domain', dom(c))], block, gen=g, reject=True)
    el = lambda c, at: And(*[((c.ret >> (8 * b)) & 255) == c.s[4 * at + b] for b in range(4)]) if not spec._SYM[0] else c.ret == sum((c.s[4 * at + b] * (1 << (8 * b)) for b in range(1, 4)), c.s[4 * at])
    K_('%s::operator[]' % t, 'at_' + N, ARGS + IJ[:1], lambda c: [('the element', el(c, c.f + c.i))], lambda c: And(block(c), c.i < c.k), ret=U('r', 32), gen=gen(False))
    K_('%s::operator[]: nothing else is accepted' % t, 'at_' + N, ARGS + IJ[:1], lambda c: [('the index is in the span', c.i < c.k)], block, ret=U('r', 32), gen=gen(False), reject=True)
    K_('%s::front()' % t, 'front_' + N, ARGS, lambda c: [('the first element', el(c, c.f))], lambda c: And(block(c), c.k > 0), ret=U('r', 32))
    K_('%s::back()' % t, 'back_' + N, ARGS, lambda c: [('the last element', el(c, c.f + c.k - 1))], lambda c: And(block(c), c.k > 0), ret=U('r', 32))
K_('spanrsl::original()', 'original', ARGS + IJ[:1] + [O4], lambda c: [('the whole block', And(c.o.u(0, 8) == 0, c.o.u(8, 8) == c.f + c.c, c.o.u(16, 8) == c.f + c.c, c.o.u(24, 8) == 0))], lambda c: And(block(c), c.i < c.k), gen=gen(False))
two = lambda c: And(block(c), c.i <= 1 << 50, c.j <= 1 << 50, 4 * (c.i + c.j) <= c.s.len)
K_('spanrsl::original<spanrs>()', 'original2', ARGS + IJ[:1] + [O4], lambda c: [('the whole block', And(c.o.u(0, 8) == 0, c.o.u(8, 8) == c.f + c.c, c.o.u(16, 8) == c.f + c.c))], lambda c: And(block(c), c.i < c.k), gen=gen(False))
for N, t in NM.items():
    K_('%s to const' % t, 'conv_' + N, ARGS + [O4], lambda c, N=N: [('the same elements', And(c.o.u(0, 8) == 4 * c.f, c.o.u(8, 8) == c.k)), ('the same capacity', c.o.u(16, 8) == (c.k if N == 's' else c.c)), ('byte_size', c.o.u(24, 8) == 4 * c.k)], block, gen=gen(False))
K_('span::is_subspan', 'is_subspan', ARGS + IJ, lambda c: [('inside', Iff(c.ret, And(c.i >= c.f, c.i + c.j <= c.f + c.k)))], two, ret=B('r'), gen=gen(True))
K_('span::same_span', 'same_span', ARGS + IJ, lambda c: [('the same place and size', Iff(c.ret, And(c.i == c.f, c.j == c.k)))], two, ret=B('r'), gen=gen(True))
K_('span::same_span(other index type)', 'same_span8', ARGS + [U('i'), U('j', 8)], lambda c: [('the same place and size', Iff(c.ret, And(c.i == c.f, c.j == c.k)))], two, ret=B('r'), gen=gen(True))
K_('span::compll(any span)', 'compll_any', ARGS + IJ + [O4], lambda c: [('the part before it', Implies(And(c.i >= c.f, c.i <= c.f + c.k), And(c.o.u(0, 8) == 4 * c.f, c.o.u(8, 8) == c.i - c.f))),
   ('empty if it starts outside', Implies(Or(c.i < c.f, c.i > c.f + c.k), c.o.u(8, 8) == 0))], two, gen=gen(True))
K_('span::complr(any span)', 'complr_any', ARGS + IJ + [O4], lambda c: [('the part after it', Implies(And(c.i + c.j >= c.f, c.i + c.j <= c.f + c.k), And(c.o.u(0, 8) == 4 * (c.i + c.j), c.o.u(8, 8) == c.f + c.k - c.i - c.j))),
   ('empty if it ends outside', Implies(Or(c.i + c.j < c.f, c.i + c.j > c.f + c.k), c.o.u(8, 8) == 0))], two, gen=gen(True))

SB, PB = Buf('s', null=True, alphabet=b'ab\xff'), Buf('p', null=True, alphabet=b'ab\xff')


def same(c):
    return And(c.s.len == c.p.len, lambda: forall(0, c.s.len, lambda k: c.s[k] == c.p[k]))


def cmp_post(lt, eq):
    """lexicographic order: at the first difference, else the shorter first"""
    def post(c):
        s, p = c.s, c.p
        if not spec._SYM[0]:
            a, b = bytes(s[i] for i in range(s.len)), bytes(p[i] for i in range(p.len))
            return [('lexicographic', bool(c.ret) == (lt if a < b else eq if a == b else not lt))]
        m = c.ite(s.len < p.len, lambda: s.len, lambda: p.len)
        pre = lambda k: forall(0, k, lambda j: s[j] == p[j])
        return [('decided by the first difference', forall(0, m, lambda k: Implies(pre(k), lambda: And(Implies(s[k] < p[k], Iff(c.ret, lt)), Implies(s[k] > p[k], Iff(c.ret, not lt)))))),
                ('else by the length', Implies(pre(m), lambda: And(Implies(s.len < p.len, Iff(c.ret, lt)), Implies(s.len > p.len, Iff(c.ret, not lt)), Implies(s.len == p.len, Iff(c.ret, eq)))))]
    return post


K_('operator==', 'eq', [SB, PB], lambda c: [('equal when all elements are', Iff(c.ret, same(c)))], ret=B('r'), dom='bv')
K_('operator!=', 'ne', [SB, PB], lambda c: [('different when an element is', Iff(c.ret, Not(same(c))))], ret=B('r'), dom='bv')
for nm, fn, lt, eq in [('<', 'lt', True, False), ('<=', 'le', True, True), ('>', 'gt', False, False), ('>=', 'ge', False, True)]:
    K_('operator' + nm, fn, [SB, PB], cmp_post(lt, eq), ret=B('r'), dom='bv')
