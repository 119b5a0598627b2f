"""base64 and UTF-8"""
from lib_str import *
from lib_read import digits_fold
import spec, base64
U_ = 'b64'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'bv')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


n = lambda c: c.s.len


def ch(x):
    """alphabet character of a sextet (RFC 4648 table 1)"""
    if isinstance(x, int):
        return b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'[x]
    return Ite(x < 26, x + 65, Ite(x < 52, x + 71, Ite(x < 62, x - 4, Ite(x == 62, x - 19, x - 16))))


def enc(c):
    s, o, p, r, m = c.s, c.old('s'), c.p, c.ret, c.p.len
    t, t1 = c.divmod(r, 4)
    q = c.ite(3 * t == m, lambda: t, lambda: t - 1)
    z = q * 3
    at = lambda i, v: Implies(i < n(c), lambda: s[i] == v)
    rem = m - z
    # the four sextets of three bytes
    s1 = lambda a: ch(a // 4)
    s2 = lambda a, b: ch(a % 4 * 16 + b // 16)
    s3 = lambda a, b: ch(a % 16 * 4 + b // 64)
    s4 = lambda a: ch(a % 64)
    return [('the size is four characters per started triple', And(t1 == 0, 3 * t >= m, 3 * t < m + 3, t <= m)),
            ('first sextet', forall(0, q, lambda k: at(4 * k, s1(p[3 * k])))),
            ('second sextet', forall(0, q, lambda k: at(4 * k + 1, s2(p[3 * k], p[3 * k + 1])))),
            ('third sextet', forall(0, q, lambda k: at(4 * k + 2, s3(p[3 * k + 1], p[3 * k + 2])))),
            ('fourth sextet', forall(0, q, lambda k: at(4 * k + 3, s4(p[3 * k + 2])))),
            ('two left over', c.case(rem == 2, lambda: And(at(4 * q, s1(p[z])), at(4 * q + 1, s2(p[z], p[z + 1])), at(4 * q + 2, ch(p[z + 1] % 16 * 4)), at(4 * q + 3, 61)))),
            ('one left over', c.case(rem == 1, lambda: And(at(4 * q, s1(p[z])), at(4 * q + 1, ch(p[z] % 4 * 16)), at(4 * q + 2, 61), at(4 * q + 3, 61)))),
            ('nothing after it changes', forall(r, n(c), lambda k: s[k] == o[k]))]


OB = Buf('s', mut=True, null=True)
DI = Buf('p', null=True)
for nm, fn in [('base64_encode', 'b64_encode'), ('to_chars(base64)', 'b64_tochars')]:
    K_(nm, fn, [OB, DI], enc, lambda c: c.p.len <= 1 << 56, ret=U('r'), dom='int')


def isal(x):
    return Or(And(x >= 65, x <= 90), And(x >= 97, x <= 122), And(x >= 48, x <= 57), x == 43, x == 47)


def sx(x):
    if isinstance(x, int):
        return b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'.index(x)
    return Ite(And(x >= 65, x <= 90), x - 65, Ite(And(x >= 97, x <= 122), x - 71, Ite(And(x >= 48, x <= 57), x + 4, Ite(x == 43, x + 19, x + 16))))


def wf(c):
    """a base64 text: multiple of four, alphabet characters, padding only at the very end"""
    s, m = c.s, n(c)
    return And(m % 4 == 0, lambda: Or(m == 0, lambda: And(forall(0, m - 2, lambda k: isal(s[k])), Or(isal(s[m - 1]), s[m - 1] == 61), Or(isal(s[m - 2]), lambda: And(s[m - 2] == 61, s[m - 1] == 61)))))


def wfr(c):
    s, m = c.s, n(c)
    return And(m % 4 == 0, Implies(m != 0, lambda: And(Or(isal(s[m - 1]), s[m - 1] == 61), Or(isal(s[m - 2]), And(s[m - 2] == 61, s[m - 1] == 61)))),
               Implies(m != 0, lambda: forall(0, m - 2, lambda k: isal(s[k]))))


AB = b'AZaz09+/=Q'
def gen_valid(rng, case):
    b = bytearray(base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(20)))))
    if b and rng.random() < .6:
        b[rng.randrange(len(b))] = rng.choice(b'=A@ \xff')
    return {'s': bytes(b)}


K_('base64_valid', 'b64_valid', [Buf('s', null=True, alphabet=AB)], lambda c: [('accepts exactly the base64 texts', Iff(c.ret, wf(c)))], ret=B('r'), dom='int', gen=gen_valid)


def dec(c):
    s, p, o, r, m = c.s, c.p, c.old('p'), c.ret, n(c)
    z0 = 0 * m
    pad = c.ite(m == 0, lambda: z0, lambda: c.ite(s[m - 2] == 61, lambda: z0 + 2, lambda: c.ite(s[m - 1] == 61, lambda: z0 + 1, lambda: z0)))
    t = c.divmod(m, 4)[0]
    q = c.ite(pad == 0, lambda: t, lambda: t - 1)
    at = lambda i, v: Implies(i < p.len, lambda: p[i] == v)
    v = lambda k: sx(s[k])
    b1 = lambda k: v(k) * 4 + v(k + 1) // 16
    b2 = lambda k: v(k + 1) % 16 * 16 + v(k + 2) // 4
    b3 = lambda k: v(k + 2) % 4 * 64 + v(k + 3)
    w = q * 4
    return [('the size is three bytes per four characters less the padding', r == q * 3 + (c.ite(pad == 0, lambda: pad, lambda: 3 - pad))),
            ('first byte', forall(0, q, lambda k: at(3 * k, b1(4 * k)))),
            ('second byte', forall(0, q, lambda k: at(3 * k + 1, b2(4 * k)))),
            ('third byte', forall(0, q, lambda k: at(3 * k + 2, b3(4 * k)))),
            ('one padding character', c.case(pad == 1, lambda: And(at(3 * q, b1(w)), at(3 * q + 1, b2(w))))),
            ('two padding characters', c.case(pad == 2, lambda: at(3 * q, b1(w)))),
            ('nothing after it changes', forall(r, p.len, lambda k: p[k] == o[k]))]


def gen_enc(rng, case):
    return {'s': base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(40))))}


for nm, fn in [('base64_decode', 'b64_decode'), ('from_chars(base64)', 'b64_fromchars')]:
    K_(nm, fn, [Buf('s', null=True, alphabet=AB), Buf('p', mut=True, null=True)], dec, wfr, ret=U('r'), gen=gen_enc, dom='int')


K_('base64_decode of any text', 'b64_decode', [Buf('s', null=True, alphabet=AB), Buf('p', mut=True, null=True)],
   lambda c: [('decoded or rejected; nothing after the decoded part changes', forall(c.ret, c.p.len, lambda k: c.p[k] == c.old('p')[k])), ('at most three bytes per four characters', c.ret * 4 <= n(c) * 3)], ret=U('r'), reject=True, dom='int')


def utf(c):
    s, o, r, x = c.s, c.old('s'), c.ret, c.c
    b = lambda k, v: s[k] == v
    return [('the size', r == Ite(x <= 0x7f, x * 0 + 1, Ite(x <= 0x7ff, x * 0 + 2, Ite(x <= 0xffff, x * 0 + 3, Ite(x <= 0x10ffff, x * 0 + 4, x * 0)))) if not isinstance(x, int) else r == (len(chr(x).encode('utf-8', 'surrogatepass')) if x <= 0x10ffff else 0)),
            ('one byte', c.case(x <= 0x7f, lambda: b(0, x))),
            ('two bytes', c.case(And(x > 0x7f, x <= 0x7ff), lambda: And(b(0, 0xc0 | (x >> 6)), b(1, 0x80 | (x & 63))))),
            ('three bytes', c.case(And(x > 0x7ff, x <= 0xffff), lambda: And(b(0, 0xe0 | (x >> 12)), b(1, 0x80 | ((x >> 6) & 63)), b(2, 0x80 | (x & 63))))),
            ('four bytes', c.case(And(x > 0xffff, x <= 0x10ffff), lambda: And(b(0, 0xf0 | (x >> 18)), b(1, 0x80 | ((x >> 12) & 63)), b(2, 0x80 | ((x >> 6) & 63)), b(3, 0x80 | (x & 63))))),
            ('nothing after it changes', forall(r, n(c), lambda k: s[k] == o[k]))]


K_('decode_code_point(buf,code)', 'utf_cp', [Buf('s', mut=True, minlen=4), U('c', 32, vals=[0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x110000])], utf, ret=U('r'))


CP = Buf('p', minlen=1, maxlen=8, alphabet=b'19afAF0g')
ishex = lambda x: Or(And(x >= 48, x <= 57), And(x >= 65, x <= 70), And(x >= 97, x <= 102))


def utf_ghost(c):
    digits_fold(c, c.p, 'dv', 32, 0, 16)


def utf_str(c):
    v, x = VW(c), c.g['dv'](c.p.len)

    class W:
        pass
    w = W()
    w.__dict__.update(s=c.s, c=x, ret=v.len, case=c.case, old=c.old)
    return [('the view starts the buffer', Or(v.len == 0, v.off == 0))] + utf(w)


hexreq = lambda c: And(c.p[0] != 48, forall(0, c.p.len, lambda k: ishex(c.p[k])))
K_('decode_code_point(out,hex text)', 'utf_str', [Buf('s', mut=True, minlen=4), CP, O], utf_str, hexreq, ghost=utf_ghost)
