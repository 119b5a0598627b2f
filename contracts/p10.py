"""splitting, popping and path parts"""
from lib_str import *
U_ = 'sub'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


n = lambda c: c.s.len
O4, O6 = Out('o', 32), Out('o', 48)
SEP = U('c', 8, vals=list(b'/'))
SK0, SK1 = K(0, 1), K(1, 1)
SS = Buf('s', null=True, alphabet=b'a//b')
SN = Buf('s', alphabet=b'a//b')
SD = Buf('s', null=True, alphabet=b'a..b/')


def sepv(c):
    return c.c


dot = lambda c: 46


def piece_at(c, v, b, sep):
    """v is the piece of s starting at b: up to the next separator or the end"""
    s = c.s
    e = b + v.len
    return [('the piece starts at the position', v.off == b), ('the piece lies inside the string', v.len <= n(c) - b),
            ('the piece has no separator', forall(b, e, lambda k: s[k] != sep)),
            ('the piece ends at a separator or the end', c.case(e != n(c), lambda: s[e] == sep))]


def next_split(c):
    v = VW(c)
    b, pos = c.b, c.o.u(24, 8)
    g = c.b < n(c)
    out = [('true exactly while pieces remain', Iff(c.ret, Or(b < n(c), And(b == n(c), n(c) > 0)))),
           ('the last empty piece', Implies(And(b == n(c), n(c) > 0), And(v.len == 0, pos == n(c) + 1))),
           ('exhausted stays exhausted', Implies(Not(Or(b < n(c), And(b == n(c), n(c) > 0))), pos == n(c) + 1)),
           ('the position moves past the piece and its separator', Implies(g, pos == b + v.len + 1))]
    out += [(l, c.case(g, lambda f=f: f)) for l, f in piece_at(c, v, c.ite(g, lambda: b, lambda: 0 * b), c.c)] if False else []
    s = c.s
    e = b + v.len
    out += [('the piece starts at the position', Implies(g, v.off == b)), ('the piece lies inside the string', Implies(g, v.len <= n(c) - b)),
            ('the piece has no separator', c.case(g, lambda: forall(b, e, lambda k: s[k] != c.c))),
            ('the piece ends at a separator or the end', c.case(And(g, e < n(c)), lambda: s[e] == c.c))]
    return out


K_('next_split(sep,pos,out)', 'next_split', [SN, SEP, POS, O4], next_split, ret=B('r'))
sdom = lambda c: Or(c.b < n(c), And(n(c) == 0, c.b == 0))


def split_begin(c):
    v, isend = VW(c), c.o.u(24, 8)
    return [('an empty string has no pieces', Iff(isend != 0, n(c) == 0))] + [(l, c.case(n(c) > 0, lambda f=f: f)) for l, f in piece_at(c, v, c.b, c.c)]


def split_next(c):
    v, isend, b0, l0 = VW(c), c.o.u(24, 8), c.o.u(32, 8), c.o.u(40, 8)
    nx = b0 + l0 + 1
    return [('iteration ends exactly after the piece that reaches the end', Iff(isend != 0, nx > n(c)))] + \
           [('next: ' + l, c.case(nx <= n(c), lambda f=f: f)) for l, f in piece_at(c, v, nx, c.c)]


K_('split(sep,pos).begin()', 'split_begin', [SN, SEP, POS, O4], split_begin, sdom)
K_('split(sep,pos) ++', 'split_next', [SN, SEP, POS, O6], split_next, lambda c: c.b < n(c))


def pop_right(sep):
    def post(c):
        v, s, p = VW(c), c.s, sep(c)
        o = n(c) - v.len
        return [('a suffix', And(v.len <= n(c), Or(v.len == 0, v.off == o))),
                ('without separators', forall(o, n(c), lambda k: s[k] != p)),
                ('up to the last separator', c.case(And(o > 0, o <= n(c)), lambda: s[o - 1] == p))]
    return post


def pop_right_skip(c):
    v, s, p = VW(c), c.s, c.c
    o = v.off
    return [('a suffix', And(v.len <= n(c), Or(v.len == 0, v.off == n(c) - v.len))),
            ('empty only when there is nothing but separators', c.case(v.len == 0, lambda: forall(0, n(c), lambda k: s[k] == p))),
            ('starts with a non-separator', c.case(v.len != 0, lambda: s[o] != p)),
            ('just after a separator or at the start', c.case(And(v.len != 0, o > 0), lambda: s[o - 1] == p)),
            ('separators only at the end', c.case(v.len != 0, lambda: forall(o, n(c) - 1, lambda k: Or(s[k] != p, s[k + 1] == p))))]


def pop_left(sep):
    def post(c):
        v, s, p = VW(c), c.s, sep(c)
        return [('a prefix', And(v.off == 0, v.len <= n(c))),
                ('without separators', forall(0, v.len, lambda k: s[k] != p)),
                ('up to the first separator', c.case(v.len < n(c), lambda: s[v.len] == p))]
    return post


def pop_left_skip(c):
    v, s, p = VW(c), c.s, c.c
    e = v.len
    return [('a prefix', And(v.off == 0, e <= n(c))),
            ('empty only when there is nothing but separators', c.case(e == 0, lambda: forall(0, n(c), lambda k: s[k] == p))),
            ('ends with a non-separator', c.case(e != 0, lambda: s[e - 1] != p)),
            ('just before a separator or at the end', c.case(And(e != 0, e < n(c)), lambda: s[e] == p)),
            ('separators only at the start', c.case(e != 0, lambda: forall(1, e, lambda k: Or(s[k] != p, s[k - 1] == p))))]


K_('pop_right(sep)', 'pop_right', [SS, SEP, SK0, O], pop_right(sepv))
K_('pop_right(sep,skip_empty)', 'pop_right', [SS, SEP, SK1, O], pop_right_skip)
K_('pop_left(sep)', 'pop_left', [SS, SEP, SK0, O], pop_left(sepv))
K_('pop_left(sep,skip_empty)', 'pop_left', [SS, SEP, SK1, O], pop_left_skip)


def gpop_left(sep):
    def post(c):
        v, s, p = VW(c), c.s, sep(c)
        return [('a prefix', And(v.off == 0, v.len <= n(c))),
                ('everything before the last separator', c.case(v.len != 0, lambda: And(v.len < n(c), s[v.len] == p))),
                ('no later separator', forall(v.len + 1, n(c), lambda k: s[k] != p))]
    return post


def gpop_right(sep):
    def post(c):
        v, s, p = VW(c), c.s, sep(c)
        o = n(c) - v.len
        return [('a suffix', And(v.len <= n(c), Or(v.len == 0, v.off == o))),
                ('everything after the first separator', c.case(v.len != 0, lambda: And(o > 0, s[o - 1] == p))),
                ('no earlier separator', forall(0, o - 1, lambda k: s[k] != p))]
    return post


# an absent separator leaves nothing: covered by 'no later separator' at v.len==0 except for position 0, stated here
def gl0(sep):
    base = gpop_left(sep)

    def post(c):
        v, s, p = VW(c), c.s, sep(c)
        return base(c)
    return post


K_('gpop_left(sep)', 'gpop_left', [SS, SEP, SK0, O], gl0(sepv))
K_('gpop_right(sep)', 'gpop_right', [SS, SEP, SK0, O], gpop_right(sepv))


def gpop_left_skip(c):
    v, s, p = VW(c), c.s, c.c
    q = c.o.u(24, 8)
    return [('a prefix that stops before the popped piece', And(v.off == 0, v.len <= q)),
            ('only separators in between', forall(v.len, q, lambda k: s[k] == p)),
            ('no trailing separator', c.case(v.len != 0, lambda: s[v.len - 1] != p))]


def gpop_right_skip(c):
    v, s, p = VW(c), c.s, c.c
    q = c.o.u(24, 8) + c.o.u(32, 8)
    r = n(c) - v.len
    return [('a suffix that starts after the popped piece', And(v.len <= n(c), Or(v.len == 0, v.off == r), q <= r)),
            ('only separators in between', forall(q, r, lambda k: s[k] == p)),
            ('no leading separator', c.case(v.len != 0, lambda: s[v.off] != p))]


O5 = Out('o', 40)
K_('gpop_left(sep,skip_empty)', 'gpop_left2', [SS, SEP, O5], gpop_left_skip)
K_('gpop_right(sep,skip_empty)', 'gpop_right2', [SS, SEP, O5], gpop_right_skip)


def basename(c):
    v, s, p = VW(c), c.s, c.c
    e = v.off + v.len
    return [('inside the string', And(v.off <= n(c), v.len <= n(c) - v.off)),
            ('empty only when there is nothing but separators', c.case(v.len == 0, lambda: forall(0, n(c), lambda k: s[k] == p))),
            ('no separator inside', forall(v.off, e, lambda k: s[k] != p)),
            ('only separators after it', c.case(v.len != 0, lambda: forall(e, n(c), lambda k: s[k] == p))),
            ('just after a separator or at the start', c.case(And(v.len != 0, v.off > 0), lambda: s[v.off - 1] == p))]


def dirname(c):
    v, s, p = VW(c), c.s, c.c
    r = v.len
    return [('a prefix', And(v.off == 0, r <= n(c))),
            ('the whole string only when there is nothing but separators', c.case(r == n(c), lambda: forall(0, n(c), lambda k: s[k] == p))),
            ('ends with a separator or is empty', c.case(And(r > 0, r < n(c)), lambda: s[r - 1] == p)),
            ('is followed by the last component', c.case(r < n(c), lambda: s[r] != p)),
            ('and trailing separators only', c.case(r < n(c), lambda: forall(r, n(c) - 1, lambda k: Or(s[k] != p, s[k + 1] == p))))]


K_('basename(sep)', 'basename', [SS, SEP, O], basename)
K_('dirname(sep)', 'dirname', [SS, SEP, O], dirname)
K_('name_wo_extshort()', 'name_wo_extshort', [SD, O], gl0(dot))
K_('name_wo_extlong()', 'name_wo_extlong', [SD, O], pop_left(dot))
K_('extshort()', 'extshort', [SD, O], pop_right(dot))
K_('extlong()', 'extlong', [SD, O], gpop_right(dot))
