"""searching"""
from lib_str import *
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=U('r'), **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


inb = lambda c: Or(c.b <= c.s.len, c.b == NP)
inb1 = lambda c: c.b <= c.s.len


def fwd(start, pred, last=lambda c: c.s.len):
    """first i in [start, last) with pred"""
    def post(c):
        st, e = start(c), last(c)
        r = c.ret
        return [('found position is in range and matches', Implies(r != NP, lambda: And(r >= st, r < e, pred(c, r)))),
                ('nothing earlier matches', forall(st, c.ite(r == NP, lambda: e, lambda: r), lambda k: Not(pred(c, k))))]
    return post


def bwd(end, pred):
    """last i < end with pred"""
    def post(c):
        e = end(c)
        r = c.ret
        return [('found position is in range and matches', Implies(r != NP, lambda: And(r < e, pred(c, r)))),
                ('nothing later matches', forall(c.ite(r == NP, lambda: 0 * e, lambda: r + 1), e, lambda k: Not(pred(c, k))))]
    return post


is_c = lambda c, k: c.s[k] == c.c
not_c = lambda c, k: c.s[k] != c.c
is_s = lambda c, k: isin(c.s[k], c.p)
not_s = lambda c, k: Not(isin(c.s[k], c.p))
zero = lambda c: 0
# an absent start (npos) means: nothing to search forwards, everything backwards
bstart = lambda c: c.ite(c.b == NP, lambda: c.s.len, lambda: c.b)
full = lambda c: c.s.len
K_('find(char,pos)', 'find_c', [S, C, POS], fwd(bstart, is_c), inb)
K_('find(char)', 'find_c0', [S, C], fwd(zero, is_c))
K_('first_of(char,pos)', 'first_of_c', [S, C, POS], fwd(bstart, is_c), inb)
K_('last_of(char,pos)', 'last_of_c', [S, C, POS], bwd(bstart, is_c), inb)
K_('last_of(char)', 'last_of_c0', [S, C], bwd(full, is_c))
K_('first_of(chars,pos)', 'first_of_s', [S, T, POS], fwd(bstart, is_s), inb)
K_('last_of(chars,pos)', 'last_of_s', [S, T, POS], bwd(bstart, is_s), inb)
K_('last_of(chars)', 'last_of_s0', [S, T], bwd(full, is_s))
K_('first_not_of(char)', 'first_not_of_c0', [S, C], fwd(zero, not_c))
K_('first_not_of(char,pos)', 'first_not_of_c', [S, C, POS], fwd(lambda c: c.b, not_c), inb1)
K_('last_not_of(char)', 'last_not_of_c0', [S, C], bwd(full, not_c))
K_('last_not_of(char,pos)', 'last_not_of_c', [S, C, POS], bwd(bstart, not_c), inb)
K_('first_not_of(chars)', 'first_not_of_s0', [S, T], fwd(zero, not_s))
K_('first_not_of(chars,pos)', 'first_not_of_s', [S, T, POS], fwd(lambda c: c.b, not_s), inb1)
K_('last_not_of(chars)', 'last_not_of_s0', [S, T], bwd(full, not_s))
K_('last_not_of(chars,pos)', 'last_not_of_s', [S, T, POS], bwd(bstart, not_s), inb)
# a pattern occurs at k: k + |p| <= |s| and the characters are equal
pat = lambda c, k: match(c.s, c.p, k)
plast = lambda c: c.ite(c.s.len >= c.p.len, lambda: c.s.len - c.p.len + 1, lambda: 0 * c.s.len)
K_('find(pattern,pos)', 'find_s', [S, T, POS], fwd(bstart, pat, plast), inb1, dom='int')
K_('find(pattern)', 'find_s0', [S, T], fwd(zero, pat, plast))


def sel_c(c):
    v = VW(c)
    r = v.off
    return [('a found view is the character', Implies(v.null == 0, lambda: And(v.len == 1, r >= c.b, r < c.s.len, is_c(c, r)))),
            ('an absent one is empty', Implies(v.null != 0, v.len == 0)),
            ('nothing earlier matches', forall(c.b, c.ite(v.null != 0, lambda: c.s.len, lambda: r), lambda k: Not(is_c(c, k))))]


def sel_s(c):
    v = VW(c)
    r = v.off
    return [('a found view is the pattern', Implies(v.null == 0, lambda: And(v.len == c.p.len, r >= c.b, r + v.len <= c.s.len, match(c.s, c.p, r)))),
            ('an absent one is empty', Implies(v.null != 0, v.len == 0)),
            ('nothing earlier matches', forall(c.b, c.ite(v.null != 0, lambda: plast(c), lambda: r), lambda k: Not(pat(c, k))))]


K_('select(char,pos)', 'select_c', [S1, C, POS, O], sel_c, inb1, ret=None)
K_('select(pattern,pos)', 'select_s', [S1, T, POS, O], sel_s, inb1, ret=None)


def count_ghost_c(c):
    s = c.s
    c.recfun('occ', 64, lambda R: And(forall(0, s.len, lambda k: R(k) == Ite(s[k] == c.c, R(k + 1) + 1, R(k + 1))), R(s.len) == 0),
             lambda R, k: 0 if k >= s.len else R(k + 1) + (s[k] == c.c))


def count_ghost_s(c):
    s, p = c.s, c.p
    e = plast(c)
    M = c.recfun('at', 8, lambda M: forall(0, e, lambda k: And(Implies(match(s, p, k), lambda: M(k) == 1), Implies(Not(match(s, p, k)), lambda: M(k) == 0))), lambda M, k: int(k + p.len <= s.len and match(s, p, k)), cand=False)
    ax = lambda R: And(forall(0, e, lambda k: R(k) == Ite(M(k) == 1, R(k + p.len) + 1, R(k + 1))), forall(e, s.len + 1, lambda k: R(k) == 0))
    c.recfun('occ', 64, ax, lambda R, k: 0 if k + p.len > s.len else (R(k + p.len) + 1 if M(k) else R(k + 1)))


K_('count(char,pos)', 'count_c', [S, C, POS], lambda c: [('the number of occurrences', c.ret == c.g['occ'](c.b))], inb1, ghost=count_ghost_c, dom='bv', cursor=lambda c: [lambda k: And(k < c.s.len, c.s[k] == c.c)])
K_('count(pattern,pos)', 'count_s', [S, Buf('p', alphabet=b'ab', minlen=1), POS], lambda c: [('the number of occurrences, left to right without overlap', c.ret == c.g['occ'](c.b))], inb1, ghost=count_ghost_s, bounded=True)
K_('count(empty pattern)', 'count_s', [S, Buf('p', null=True, maxlen=0), POS], lambda c: [('the empty pattern occurs at every position', c.ret == c.s.len - c.b + 1)], inb1)


def any_post(pats):
    def post(c):
        P = [getattr(c, x) for x in pats]
        which, pos, b = c.o.u(0, 8), c.o.u(8, 8), c.o.u(16, 8)
        mt = lambda t, i: And(i + P[t].len <= c.s.len, match(c.s, P[t], i))
        none = And(which == NP, pos == NP, b == 0)

        def found(w):
            return And(pos < c.s.len, b == 1, mt(w, pos), *[Not(mt(t, pos)) for t in range(w)])
        out = [('outcome', Or(none, And(pos < c.s.len, b == 1, which < len(P))))]
        for w in range(len(P)):
            out.append(('pattern %d found at its position, earlier patterns not there' % w, c.case(which == w, lambda w=w: found(w))))
        for t in range(len(P)):
            out.append(('pattern %d not earlier' % t, forall(0, c.ite(pos == NP, lambda: c.s.len, lambda: pos), lambda k, t=t: Not(mt(t, k)))))
        return out
    return post


Q = Buf('q', null=True, alphabet=b'ab/.')
K_('first_of_any(2)', 'first_of_any2', [S1, Buf('p', alphabet=b'ab/.'), Buf('q', alphabet=b'ab/.'), O], any_post(['p', 'q']), ret=None, budget=300, dom='int')
K_('first_of_any(3)', 'first_of_any3', [S1, Buf('p', alphabet=b'ab/.'), Buf('q', alphabet=b'ab/.'), Buf('u', alphabet=b'ab/.'), O], any_post(['p', 'q', 'u']), ret=None, budget=300, dom='int', thorough=True)
