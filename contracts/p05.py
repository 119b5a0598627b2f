"""overflow detection is exact: true iff the written number is outside the range of the type"""
from lib_read import *
U_ = 'intr'
KINDS = {'dec': 10, 'hex': 16, 'oct': 8, 'bin': 2}
PC = {'hex': (120, 88), 'oct': (111, 79), 'bin': (98, 66)}


def todigits(v, radix):
    out = []
    while v:
        out.append(v % radix)
        v //= radix
    return out[::-1]


def mk(n, w, sg, kind, neg):
    rx = KINDS[kind]
    st = (1 if neg else 0)
    off = st if kind == 'dec' else st + 2
    lim = (1 << (w - 1)) if (sg and neg) else ((1 << (w - 1)) - 1 if sg else (1 << w) - 1)
    digs = todigits(lim, rx)
    D = len(digs)

    def req(c):
        s = c.s
        # a well-formed number of this kind
        if kind == 'dec':
            r = [s.len > st, all_digits(s, st, 10)]
        else:
            a, b = PC[kind]
            r = [s.len > st + 2, s[st] == 48, Or(s[st + 1] == a, s[st + 1] == b), all_digits(s, st + 2, rx)]
        if neg:
            r.append(s[0] == 45)
        return And(r)

    def post(c):
        s = c.s
        if not c.sym:
            v = int(s.data[off:].decode(), rx)
            return [('exact', Iff(c.ret, v > lim))]
        # f: first significant digit (ghost); the number is >= radix^(len-f-1) and < radix^(len-f)
        f = c.resolve(c.g['f'], ['s'], [s.len])
        m = s.len - f
        out = [('more digits than the limit', Implies(And(f < s.len, m > D), c.ret)), ('fewer digits than the limit', Implies(Or(f == s.len, m < D), Not(c.ret)))]

        def same_len():
            r, eq = [], []
            for i, x in enumerate(digs):
                d = dval(s[f + i], rx)
                if x < rx - 1:
                    r.append(Implies(And(*eq, d > x), c.ret))
                if x > 0:
                    r.append(Implies(And(*eq, d < x), Not(c.ret)))
                eq.append(d == x)
            r.append(Implies(And(*eq), Not(c.ret)))
            return And(*r)
        return out + [('as many digits: compared digit by digit', c.case(And(f < s.len, m == D), same_len))]

    def ghost(c):
        if c.sym:
            f = c.num(c.eng.dom.fresh(c.st, 'f', 64))
            c.g['f'] = f
            for t in (f <= c.s.len, f >= off, forall(off, f, lambda k: c.s[k] == 48), Or(f == c.s.len, c.s[f] != 48)):
                c.eng.assume(c.st, t)
            c.eng.terms.append(c.eng.unN(f))

    def gen(rng, case):
        p = {'dec': '', 'hex': rng.choice(['0x', '0X']), 'oct': rng.choice(['0o', '0O']), 'bin': rng.choice(['0b', '0B'])}[kind]
        v = max(0, lim + rng.choice([-2, -1, 0, 0, 1, 1, 2, 3]) if rng.random() < .6 else rng.getrandbits(rng.randint(1, w + 8)))
        if rng.random() < .3:
            v = rng.choice([lim * rx, lim * rx + 1, lim // rx, rx ** D, rx ** D - 1, rx ** (D - 1), lim ^ (1 << rng.randrange(w))])
        if rng.random() < .3:
            t = todigits(lim, rx)
            i = rng.randrange(len(t))
            t[i] = rng.randrange(rx)
            v = sum(x * rx ** (len(t) - 1 - j) for j, x in enumerate(t))
        t = ''.join('0123456789abcdef'[x] for x in todigits(v, rx)) or '0'
        if rng.random() < .5:
            t = t.upper()
        return {'s': (('-' if neg else '') + p + '0' * rng.choice([0, 0, 0, 1, 2, 9]) + t).encode()}
    return Contract('overflows<%s> %s%s' % (n, kind, ' negative' if neg else ''), 'h_overflows_' + n, [Buf('s')], B('r'), requires=req, ghost=ghost, ensures=post, unit=U_, gen=gen, cap=80, short=70, budget=120)


CONTRACTS = []
for n, w, sg in TYPES:
    for kind in KINDS:
        for neg in ((False, True) if sg else (False,)):
            CONTRACTS.append(mk(n, w, sg, kind, neg))


def neg_u(n):
    return Contract('overflows<%s> negative' % n, 'h_overflows_' + n, [Buf('s')], B('r'), requires=lambda c: And(c.s.len > 0, c.s[0] == 45), ensures=lambda c: [('a negative number never fits', c.ret)], unit=U_)


def safe(n):
    return Contract('overflows<%s> any text' % n, 'h_overflows_' + n, [Buf('s', null=True, alphabet=NUM)], B('r'), ensures=lambda c: [('empty does not overflow', Implies(c.s.len == 0, Not(c.ret)))], unit=U_,
                    gen=lambda rng, case: {'s': gen_num(rng)[:rng.randint(0, 70)]} if rng.random() < .7 else None)


for n, w, sg in TYPES:
    if not sg:
        CONTRACTS.append(neg_u(n))
    CONTRACTS.append(safe(n))
