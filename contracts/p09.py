"""sub-views: exactly the documented characters of the parent, never outside it"""
from lib_str import *
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


I_, J_, K2, L_ = U('i'), U('j'), U('k'), U('l')
inc = B('b')


def is_view(off, ln):
    def post(c):
        v = VW(c)
        return [('the view starts where documented', Or(v.off == off(c), v.null != 0)), ('the view has the documented length', v.len == ln(c))]
    return post


def inside(c):
    v = VW(c)
    return [('an accepted call returns a view inside its parent', And(v.off <= c.s.len, v.len <= c.s.len - v.off))]


def sel(name, fn, args, dom, off, ln, s=S):
    """in the documented domain: no assertion, exactly this view; on any argument: rejected or inside the parent"""
    K_(name, fn, [s] + args + [O], is_view(off, ln), dom)
    K_(name + ' any argument', fn, [s] + args + [O], inside, None, reject=True)


n = lambda c: c.s.len
npn = lambda c, x: c.ite(x == NP, lambda: c.s.len, lambda: x)
le = lambda c: c.i <= n(c)
len_ = lambda c: Or(c.i <= n(c), c.i == NP)
sel('sub(first)', 'sub1', [I_], le, lambda c: c.i, lambda c: n(c) - c.i)
sel('sub(first,num)', 'sub2', [I_, J_], lambda c: And(c.i <= n(c), Or(c.j <= n(c) - c.i, c.j == NP)), lambda c: c.i, lambda c: c.ite(c.j == NP, lambda: n(c) - c.i, lambda: c.j))
sel('range(first,last)', 'range', [I_, J_], lambda c: And(c.i <= n(c), Or(And(c.i <= c.j, c.j <= n(c)), c.j == NP)), lambda c: c.i, lambda c: c.ite(c.j == NP, lambda: n(c), lambda: c.j) - c.i)
sel('first(num)', 'first', [I_], len_, lambda c: 0, lambda c: npn(c, c.i))
sel('last(num)', 'last', [I_], len_, lambda c: n(c) - npn(c, c.i), lambda c: npn(c, c.i))
sel('offs(left,right)', 'offs', [I_, J_], lambda c: And(c.i <= n(c), c.j <= n(c) - c.i), lambda c: c.i, lambda c: n(c) - c.i - c.j)
sel('left_of(pos)', 'left_of', [I_], len_, lambda c: 0, lambda c: npn(c, c.i))
sel('left_of(pos,include)', 'left_of_inc', [I_, inc], lambda c: Or(c.i == NP, c.i < n(c), And(c.i == n(c), Not(c.b))), lambda c: 0,
    lambda c: c.ite(c.i == NP, lambda: n(c), lambda: c.ite(c.b, lambda: c.i + 1, lambda: c.i)))
ro = lambda c: c.ite(c.i == NP, lambda: n(c), lambda: c.i + 1)
sel('right_of(pos)', 'right_of', [I_], lambda c: Or(c.i == NP, c.i < n(c)), ro, lambda c: n(c) - ro(c))
roi = lambda c: c.ite(c.i == NP, lambda: n(c), lambda: c.ite(c.b, lambda: c.i, lambda: c.i + 1))
sel('right_of(pos,include)', 'right_of_inc', [I_, inc], lambda c: Or(c.i == NP, c.i < n(c), And(c.i == n(c), c.b)), roi, lambda c: n(c) - roi(c))
insub = lambda c: And(c.i <= n(c), c.j <= n(c) - c.i)
K_('left_of(subview)', 'left_of_sub', [S, I_, J_, O], is_view(lambda c: 0, lambda c: c.i), insub)
K_('right_of(subview)', 'right_of_sub', [S, I_, J_, O], is_view(lambda c: c.i + c.j, lambda c: n(c) - c.i - c.j), insub)

# trimming
chc = lambda c, x: x == c.c
chs = lambda c, x: isin(x, c.p)


def trim(l, r, pred):
    def post(c):
        v = VW(c)
        s = c.s
        e = v.off + v.len
        out = [('the view is inside the parent', And(v.off <= n(c), v.len <= n(c) - v.off))]
        # an all-trimmed string gives an empty view
        out.append(('everything removed is in the trimmed set, to the left',
                    forall(0, c.ite(v.len == 0, lambda: n(c), lambda: v.off), lambda k: pred(c, s[k])) if l else Implies(v.len != 0, v.off == 0)))
        out.append(('everything removed is in the trimmed set, to the right',
                    forall(c.ite(v.len == 0, lambda: 0 * e, lambda: e), n(c), lambda k: pred(c, s[k])) if r else Implies(v.len != 0, e == n(c))))
        out.append(('what remains does not start with a trimmed character', Implies(v.len != 0, lambda: Not(pred(c, s[v.off]))) if l else 1 == 1))
        out.append(('what remains does not end with a trimmed character', Implies(v.len != 0, lambda: Not(pred(c, s[e - 1]))) if r else 1 == 1))
        return out
    return post


for nm, l, r in (('triml', 1, 0), ('trimr', 0, 1), ('trim', 1, 1)):
    K_(nm + '(char)', nm + '_c', [S, C, O], trim(l, r, chc))
    K_(nm + '(chars)', nm + '_s', [S, T, O], trim(l, r, chs))


def begins(c):
    return And(c.p.len <= n(c), match(c.s, c.p, 0))


def ends(c):
    return And(c.p.len <= n(c), match(c.s, c.p, n(c) - c.p.len))


def strip(pred, off):
    def post(c):
        v = VW(c)
        yes = lambda: And(v.off == off(c), v.len == n(c) - c.p.len)
        no = lambda: And(v.off == 0, v.len == n(c))
        return [('one of the two outcomes', Or(And(c.p.len <= n(c), yes()), no())),
                ('the pattern is removed when present', Implies(And(c.p.len <= n(c), pred(c)), lambda: Or(yes(), v.null != 0))),
                ('nothing is removed when absent', Or(And(c.p.len <= n(c), pred(c)), no()))]
    return post


K_('stripl(pattern)', 'stripl', [S, T, O], strip(begins, lambda c: c.p.len))
K_('stripr(pattern)', 'stripr', [S, T, O], strip(ends, lambda c: 0))


def unq(c):
    v, s = VW(c), c.s
    q = lambda ch: And(s[0] == ch, s[n(c) - 1] == ch)
    return [('quotes are removed in pairs when present and not escaped',
             c.ite(n(c) >= 2, lambda: c.case(And(Or(q(34), q(39)), s[n(c) - 2] != 92), lambda: And(v.off == 1, v.len == n(c) - 2)), lambda: 1 == 1)),
            ('otherwise the view is unchanged', Or(And(n(c) >= 2, lambda: And(Or(q(34), q(39)), s[n(c) - 2] != 92)), And(v.off == 0, v.len == n(c))))]


K_('unquoted()', 'unquoted', [Buf('s', null=True, alphabet=b'"\'\\a'), O], unq)

AL = Buf('s', alphabet=b'()[a')
A_ = U('c', 8, vals=list(b'('))
B_ = U('d', 8, vals=list(b')'))


def pair(c):
    v, s = VW(c), c.s
    e = v.off + v.len - 1
    return [('found: a range inside the parent that opens and closes', Implies(v.null == 0, lambda: And(v.len >= 2, v.off <= n(c), v.len <= n(c) - v.off, s[v.off] == c.c, s[e] == c.d))),
            ('found: it starts at the first opening', Implies(v.null == 0, lambda: forall(0, v.off, lambda k: s[k] != c.c))),
            ('found: it ends at the first closing after it', Implies(v.null == 0, lambda: forall(v.off + 1, e, lambda k: s[k] != c.d))),
            ('not found: empty', Implies(v.null != 0, v.len == 0)),
            ('not found: no opening is followed by a closing', Implies(v.null != 0, lambda: forall(0, n(c), lambda k: Implies(s[k] == c.c, lambda: forall(k + 1, n(c), lambda j: s[j] != c.d)))))]


K_('pair_range(open,close)', 'pair_range', [AL, A_, B_, O], pair, reject=True, dom='int')


def pair_esc(c):
    v, s = VW(c), c.s
    e = v.off + v.len - 1
    cl = lambda k: And(s[k] == c.c, s[k - 1] != c.d)
    return [('found: a range inside the parent delimited by the character', Implies(v.null == 0, lambda: And(v.len >= 2, v.off <= n(c), v.len <= n(c) - v.off, s[v.off] == c.c, cl(e)))),
            ('found: it starts at the first opening', Implies(v.null == 0, lambda: forall(0, v.off, lambda k: s[k] != c.c))),
            ('found: it ends at the first unescaped closing after it', Implies(v.null == 0, lambda: forall(v.off + 1, e, lambda k: Not(cl(k))))),
            ('not found: empty', Implies(v.null != 0, v.len == 0)),
            ('not found: no unescaped closing follows an opening', Implies(v.null != 0, lambda: forall(0, n(c), lambda k: Implies(s[k] == c.c, lambda: forall(k + 1, n(c), lambda j: Not(cl(j)))))))]


K_('pair_range_esc(delimiter,escape)', 'pair_range_esc', [Buf('s', alphabet=b'"\\a'), U('c', 8, vals=list(b'"')), U('d', 8, vals=list(b'\\')), O], pair_esc, dom='int')


def nested(c):
    v, s = VW(c), c.s
    e = v.off + v.len - 1
    return [('found: a range inside the parent that opens and closes', Implies(v.null == 0, lambda: And(v.len >= 2, v.off <= n(c), v.len <= n(c) - v.off, s[v.off] == c.c, s[e] == c.d))),
            ('found: it starts at the first opening', Implies(v.null == 0, lambda: forall(0, v.off, lambda k: s[k] != c.c))),
            ('not found: empty', Implies(v.null != 0, v.len == 0))]


def nested_ghost(c):
    s = c.s
    c.fold('depth', 64, 0, lambda v, k: Ite(v == 0, Ite(s[k] == c.c, v + 1, v), Ite(s[k] == c.c, v + 1, Ite(s[k] == c.d, v - 1, v))))


def balance(c):
    v, s, F = VW(c), c.s, c.g['depth']
    e = v.off + v.len - 1
    return [('found: it ends at the closing that balances it', c.case(v.null == 0, lambda: And(F(v.off) == 0, F(e) == 1))),
            ('found: and not at an earlier one', c.case(v.null == 0, lambda: forall(v.off + 1, e + 1, lambda k: F(k) >= 1))),
            ('not found: no opening is ever balanced', c.case(v.null != 0, lambda: forall(0, n(c), lambda k: Implies(F(k) != 0, lambda: F(k + 1) != 0))))]


def gen_nested(rng, case):
    d = rng.choice([0, 1, 2, 3, 20, 260, 300])
    o, k = chr(case['c']).encode('latin1'), chr(case['d']).encode('latin1')
    return {'s': b'a' * rng.randrange(2) + o * d + b'a' * rng.randrange(2) + k * max(0, d + rng.randrange(-1, 2)) + b'a' * rng.randrange(2)} if rng.random() < .4 else None


K_('pair_range_nested(open,close)', 'pair_range_nested', [AL, A_, B_, O], nested, dom='bv')
K_('pair_range_nested(open,close): balance', 'pair_range_nested', [AL, A_, B_, O], balance, dom='bv', ghost=nested_ghost, gen=gen_nested, bounded=True, bmc=5)
# same-buffer relations
four = [I_, J_, K2, L_]
fdom = lambda c: And(c.i <= n(c), c.j <= n(c) - c.i, c.k <= n(c), c.l <= n(c) - c.k)
within = lambda i, j, k, l: And(k >= i, k + l <= i + j)
K_('is_super(that)', 'is_super', [S1] + four, lambda c: [('true exactly for a part of this view', Iff(c.ret, within(c.i, c.j, c.k, c.l)))], fdom, ret=B('r'))
K_('is_sub(that)', 'is_sub', [S1] + four, lambda c: [('true exactly for a view this is a part of', Iff(c.ret, within(c.k, c.l, c.i, c.j)))], fdom, ret=B('r'))
K_('overlaps(that)', 'overlaps', [S1] + four, lambda c: [('true exactly when they share a character', Iff(c.ret, And(c.j > 0, c.l > 0, c.k < c.i + c.j, c.i < c.k + c.l)))], fdom, ret=B('r'))
K_('has_str()', 'has_str', [S], lambda c: [('true exactly for a non-null view with characters', Iff(c.ret, And(Not(c.s.is_null), lambda: And(n(c) > 0, c.s[0] != 0))))], ret=B('r'))
K_('empty()', 'empty', [S], lambda c: [('true exactly without characters', Iff(c.ret, n(c) == 0))], ret=B('r'))
K_('not_empty()', 'not_empty', [S], lambda c: [('true exactly with characters', Iff(c.ret, n(c) != 0))], ret=B('r'))
K_('operator[](pos)', 'at', [S1, POS], lambda c: [('the character', c.ret == c.s[c.b])], lambda c: c.b < n(c), ret=U('r', 8))
K_('front()', 'front', [S1], lambda c: [('the first character', c.ret == c.s[0])], lambda c: n(c) > 0, ret=U('r', 8))
K_('back()', 'back', [S1], lambda c: [('the last character', c.ret == c.s[n(c) - 1])], lambda c: n(c) > 0, ret=U('r', 8))
# construction
pp = lambda c: And(c.i <= c.j, c.j <= n(c))
K_('csubstr(beg,end)', 'ctor_pp', [S, I_, J_, O], is_view(lambda c: c.i, lambda c: c.j - c.i), pp)
K_('assign(beg,end)', 'assign_pp', [S, I_, J_, O], is_view(lambda c: c.i, lambda c: c.j - c.i), pp)
K_('assign(ptr,len)', 'assign_pn', [S, O], is_view(lambda c: 0, n))
K_('csubstr(substr)', 'ctor_rw', [SM, O], is_view(lambda c: 0, n))
K_('clear()', 'clear', [S, O], lambda c: [('empty and null', And(VW(c).len == 0, VW(c).null != 0))])
Z = Buf('s', term=True, alphabet=b'ab')
nozero = lambda c: forall(0, n(c), lambda k: c.s[k] != 0)
K_('to_csubstr(cstr)', 'from_cstr', [Z, O], is_view(lambda c: 0, n), nozero)
