"""in-place modification"""
from lib_str import *
import spec
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


n = lambda c: c.s.len
I_, J_ = U('i'), U('j')


def same(c, lo, hi):
    s, o = c.s, c.old('s')
    return forall(lo, hi, lambda k: s[k] == o[k])


K_('fill(c)', 'fill', [SM, C], lambda c: [('every character is the value', forall(0, n(c), lambda k: c.s[k] == c.c))])


def case_(lo, hi, d):
    def post(c):
        s, o = c.s, c.old('s')
        f = lambda x: Ite(And(x >= lo, x <= hi), x + d, x) if d > 0 else Ite(And(x >= lo, x <= hi), x - (-d), x)
        return [('every character is converted', forall(0, n(c), lambda k: s[k] == f(o[k])))]
    return post


AZ = Buf('s', mut=True, null=True, alphabet=b'azAZ@[`{\x80\xff')
K_('toupper()', 'toupper', [AZ], case_(97, 122, -32))
K_('tolower()', 'tolower', [AZ], case_(65, 90, 32))


def cp(c, i, m):
    s, p = c.s, c.p
    return [('the characters are copied', forall(0, m, lambda k: s[i + k] == p[k])),
            ('nothing before changes', same(c, 0, i)), ('nothing after changes', same(c, i + m, n(c)))]


mn = lambda c, a, b: c.ite(a <= b, lambda: a, lambda: b)
num = lambda c: mn(c, c.ite(c.j == NP, lambda: n(c) - c.i, lambda: c.j), c.p.len)
K_('copy_from(that)', 'copy_from0', [SM, T], lambda c: cp(c, 0 * n(c), mn(c, n(c), c.p.len)))
K_('copy_from(that,first,num)', 'copy_from', [SM, T, I_, J_], lambda c: cp(c, c.i, num(c)), lambda c: And(c.i <= n(c), lambda: num(c) <= n(c) - c.i))


def rev(lo, hi):
    def post(c):
        s, o = c.s, c.old('s')
        a, b = lo(c), hi(c)
        return [('the range is reversed', forall(0, b - a, lambda k: s[a + k] == o[b - 1 - k])),
                ('nothing before changes', same(c, 0, a)), ('nothing after changes', same(c, b, n(c)))]
    return post


K_('reverse()', 'reverse', [SM], rev(lambda c: 0 * n(c), n))
K_('reverse_sub(first,num)', 'reverse_sub', [SM, I_, J_], rev(lambda c: c.i, lambda c: c.i + c.j), lambda c: And(c.i <= n(c), c.j <= n(c) - c.i))
K_('reverse_range(first,last)', 'reverse_range', [SM, I_, J_], rev(lambda c: c.i, lambda c: c.j), lambda c: And(c.i <= c.j, c.j <= n(c)))


def er(i, m):
    def post(c):
        s, o, v = c.s, c.old('s'), VW(c)
        a, k_ = i(c), m(c)
        return [('the view keeps the rest', And(v.off == 0, v.len == n(c) - k_)), ('nothing before changes', same(c, 0, a)),
                ('what follows moves down', forall(a, n(c) - k_, lambda k: s[k] == o[k + k_])), ('the tail is left as it was', same(c, n(c) - k_, n(c)))]
    return post


idom = lambda c: And(c.i <= n(c), c.j <= n(c) - c.i)
SR = Buf('s', mut=True, alphabet=b'ab/.')
K_('erase(pos,num)', 'erase', [SR, I_, J_, O], er(lambda c: c.i, lambda c: c.j), idom)
K_('erase_range(first,last)', 'erase_range', [SR, I_, J_, O], er(lambda c: c.i, lambda c: c.j - c.i), lambda c: And(c.i <= c.j, c.j <= n(c)))
K_('erase(subview)', 'erase_sub', [SR, I_, J_, O], er(lambda c: c.i, lambda c: c.j), lambda c: And(idom(c), n(c) > 0))


def repl(pred):
    def post(c):
        s, o = c.s, c.old('s')
        b = c.ite(c.b == NP, lambda: n(c), lambda: c.b)
        out = [('nothing before changes', same(c, 0, b)),
               ('exactly the matching characters are replaced', forall(b, n(c), lambda k: And(Implies(pred(c, o[k]), s[k] == c.d), Or(pred(c, o[k]), s[k] == o[k]))))]
        if not spec._SYM[0]:
            out.append(('the number of replacements', c.ret == sum(1 for k in range(b, n(c)) if pred(c, o[k]))))
        return out
    return post


D_ = U('d', 8, vals=list(b'ab/.'))
posd = lambda c: Or(c.b <= n(c), c.b == NP)
K_('replace(char,char,pos)', 'replace_c', [SM, C, D_, POS], repl(lambda c, x: x == c.c), posd, ret=U('r'), bounded=True)
K_('replace(chars,char,pos)', 'replace_s', [SM, T, D_, POS], repl(lambda c, x: isin(x, c.p)), posd, ret=U('r'), bounded=True, bmc=3)


def bts(x):
    return bytes(x[k] for k in range(x.len))


def rep_all(c):
    if spec._SYM[0]:
        return [('room for the part before the start', c.ret >= c.b)]
    s, p, q, t, o = bts(c.s), bts(c.p), bts(c.q), bts(c.t), bts(c.old('t'))
    want = s[:c.b] + s[c.b:].replace(p, q)
    return [('the required size', c.ret == len(want)),
            ('the text when it fits', len(want) > len(t) or t[:len(want)] == want)]


K_('replace_all(dst,pattern,repl,pos)', 'replace_all', [S, Buf('t', mut=True, null=True), Buf('p', alphabet=b'ab', minlen=1), Buf('q', null=True, alphabet=b'xyz'), POS], rep_all,
   lambda c: c.b <= n(c), ret=U('r'), bounded=True, bmc=2, native_n=1500)
