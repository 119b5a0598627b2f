"""text -> integer"""
from lib_read import *
U_ = 'intr'
CONTRACTS = []
KINDS = {'dec': 10, 'hex': 16, 'oct': 8, 'bin': 2}
PC = {'hex': (120, 88), 'oct': (111, 79), 'bin': (98, 66)}


def low(n, w, rn):
    rx = RADIX[rn]

    def ghost(c):
        digits_fold(c, c.s, 'dv', w, 0, rx)

    def post(c):
        return [('accepts exactly the digit strings', Iff(c.ret, all_digits(c.s, 0, rx))),
                ('value', Implies(c.ret, lambda: c.o.u(0, w // 8) == c.g['dv'](c.s.len)))]
    return Contract('read_%s<%s>' % (rn, n), 'h_read_%s_%s' % (rn, n), [Buf('s', minlen=1, alphabet=NUM), Out('o', w // 8)], B('r'), ghost=ghost, ensures=post, unit=U_,
                    gen=lambda rng, case: {'s': gen_num(rng, False, rn).lstrip(b'0').lstrip(b'xXoObB') or b'0'} if rng.random() < .8 else None)


def prefix_is(c, st, kind):
    """the text from st on has the prefix of this kind"""
    s = c.s
    if kind == 'dec':
        return Not(And(s.len > st + 1, s[st] == 48, Or([Or(s[st + 1] == a, s[st + 1] == b) for a, b in PC.values()])))
    a, b = PC[kind]
    return And(s.len > st + 1, s[st] == 48, Or(s[st + 1] == a, s[st + 1] == b))


def parse_post(c, w, kind, neg):
    st = 1 if neg else 0
    rx = KINDS[kind]
    s = c.s
    if kind == 'dec':
        ok = And(s.len > st, all_digits(s, st, 10))
        off = st
    else:
        ok = And(s.len > st + 2, all_digits(s, st + 2, rx))
        off = st + 2

    def value():
        v = c.g['dv'](s.len - off)
        return c.o.u(0, w // 8) == (neg_mod(v, w) if neg else v)
    return [('accepts exactly the well-formed numbers', Iff(c.ret, ok)), ('value', Implies(c.ret, value))]


def parse_ghost(c, w, kind, neg):
    st = 1 if neg else 0
    rx = KINDS[kind]
    s = c.s
    if kind != 'dec':
        digits_fold(c, s, 'dv', w, st + 2, rx)
    else:
        f = digits_fold(c, s, 'dv', w, st, rx)
        g = digits_fold(c, s, 'dv1', w, st + 1, rx)
        # skipping one leading zero does not change the value
        c.lemma('leading zero', lambda k: Implies(s[st] == 48, f(k + 1) == g(k)))


def hi(fn, n, w, sg, kind, neg):
    st = 1 if neg else 0

    def req(c):
        s = c.s
        r = [prefix_is(c, st, kind)]
        if sg:
            r.append(And(s.len > 0, s[0] == 45) if neg else Not(And(s.len > 0, Or(s[0] == 45, s[0] == 43))))
        return And(r)
    return Contract('%s<%s> %s%s' % (fn, n, kind, ' negative' if neg else ''), 'h_%s_%s' % (fn, n), [Buf('s', null=True, alphabet=NUM), Out('o', w // 8)], B('r'), requires=req,
                    ghost=lambda c: parse_ghost(c, w, kind, neg), ensures=lambda c: parse_post(c, w, kind, neg), unit=U_,
                    gen=lambda rng, case: {'s': gen_num(rng, sg, kind, neg)} if rng.random() < .9 else None)


for n, w, sg in TYPES:
    for rn in RADIX:
        CONTRACTS.append(low(n, w, rn))
    for fn in ('from_chars', 'atox', 'atoi' if sg else 'atou'):
        for kind in KINDS:
            for neg in ((False, True) if sg else (False,)):
                k = hi(fn, n, w, sg, kind, neg)
                # the aliases run the same code: every kind in the thorough tier only
                k.thorough = fn != 'from_chars' and (kind, neg) not in (('dec', True), ('hex', False))
                CONTRACTS.append(k)
for kind in KINDS:
    CONTRACTS.append(hi('from_chars', 'ull', 64, False, kind, False))
    for neg in (False, True):
        for n in ('ll', 'ptr'):
            CONTRACTS.append(hi('from_chars', n, 64, True, kind, neg))
            CONTRACTS[-1].thorough = (kind, neg) not in (('dec', True), ('hex', False))


# ---- bool, char, strings ---------------------------------------------------------------------------
WORDS = [(b'0', 0), (b'1', 1), (b'false', 0), (b'true', 1), (b'False', 0), (b'True', 1), (b'FALSE', 0), (b'TRUE', 1)]


def is_text(s, t):
    return And(s.len == len(t), *[s[i] == ch for i, ch in enumerate(t)])


def gen_bool(rng, case):
    x = rng.random()
    if x < .6:
        t = bytearray(rng.choice(WORDS)[0])
        if rng.random() < .4:
            i = rng.randrange(len(t))
            t[i] = rng.choice([t[i] ^ 0x20, t[i] + 1])
        if rng.random() < .2:
            t += b'x'
        return {'s': bytes(t)}
    return {'s': gen_num(rng, True)}


def mkbool(kind, neg):
    st = 1 if neg else 0

    def req(c):
        s = c.s
        return And(prefix_is(c, st, kind), And(s.len > 0, s[0] == 45) if neg else Not(And(s.len > 0, Or(s[0] == 45, s[0] == 43))))

    def post(c):
        s = c.s
        word = Or(*[is_text(s, t) for t, v in WORDS])
        val = c.o.u(0, 1)
        off = st if kind == 'dec' else st + 2
        ok = And(s.len > off, all_digits(s, off, KINDS[kind]))
        r = [('accepts exactly the boolean words and the integers', Iff(c.ret, Or(word, ok)))]
        for t, v in WORDS:
            r.append(('"%s"' % t.decode(), Implies(is_text(s, t), val == v)))
        r.append(('integers read as nonzero', Implies(And(c.ret, Not(word)), lambda: Iff(val == 1, c.g['dv'](s.len - off) != 0))))
        r.append(('only 0 or 1', Implies(c.ret, val <= 1)))
        return r
    return Contract('from_chars<bool> %s%s' % (kind, ' negative' if neg else ''), 'h_from_chars_bool', [Buf('s', null=True, alphabet=NUM), Out('o', 1)], B('r'), requires=req,
                    ghost=lambda c: parse_ghost(c, 32, kind, neg), ensures=post, unit=U_, gen=gen_bool)


for kind in KINDS:
    for neg in (False, True):
        CONTRACTS.append(mkbool(kind, neg))
CONTRACTS.append(Contract('from_chars<char>', 'h_from_chars_char', [Buf('s', null=True), Out('o', 1)], B('r'), unit=U_, ensures=lambda c: [
    ('exactly one character', Iff(c.ret, c.s.len == 1)), ('value', Implies(c.ret, lambda: c.o[0] == c.s[0]))]))
CONTRACTS.append(Contract('from_chars_first<char>', 'h_from_chars_first_char', [Buf('s', null=True), Out('o', 1)], U('r'), unit=U_, ensures=lambda c: [
    ('consumes one character', c.ret == Ite(c.s.len > 0, c.num(1), c.num(NPOS))), ('value', Implies(c.s.len > 0, lambda: c.o[0] == c.s[0]))]))
CONTRACTS.append(Contract('from_chars<substr>', 'h_from_chars_substr', [Buf('s', null=True), Buf('d', mut=True, null=True), Out('o', 16)], B('r'), unit=U_, ensures=lambda c: [
    ('succeeds exactly when it fits', Iff(c.ret, c.s.len <= c.d.len)),
    ('copies', Implies(c.ret, lambda: And(c.o.u(0, 8) == c.s.len, forall(0, c.s.len, lambda k: c.d[k] == c.s[k]), forall(c.s.len, c.d.len, lambda k: c.d[k] == c.old('d')[k])))),
    ('failure changes nothing', Implies(Not(c.ret), lambda: And(c.o.u(0, 8) == c.d.len, forall(0, c.d.len, lambda k: c.d[k] == c.old('d')[k])))),
    ('same buffer', c.o.u(8, 8) == 0)]))
CONTRACTS.append(Contract('from_chars<csubstr>', 'h_from_chars_csubstr', [Buf('s', null=True), Out('o', 16)], B('r'), unit=U_, ensures=lambda c: [
    ('the whole text', And(c.ret, c.o.u(0, 8) == c.s.len, c.o.u(8, 8) == 0))]))
