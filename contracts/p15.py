"""text input: from_chars/from_chars_first of text, characters and booleans; uncat, uncatsep, unformat"""
from lib_str import *
import spec
from p14 import ph, cased, FB
U_ = 'unfmt'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'int')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


R, RB = U('r'), B('r')
SN = Buf('s', null=True)
ST = Buf('s', alphabet=b'ab \t\n')
O1, O2, O3, O4 = Out('o', 1), Out('o', 16), Out('o', 3), Out('o', 4)
n = lambda c: c.s.len
K_('from_chars(char)', 'fc_char', [SN, O1], lambda c: [('exactly one character', Iff(c.ret, n(c) == 1)), ('the character', c.case(n(c) == 1, lambda: c.o[0] == c.s[0]))], ret=RB)
K_('from_chars_first(char)', 'fcf_char', [SN, O1], lambda c: [('one character, or none', Or(And(n(c) == 0, c.ret == NP), And(n(c) > 0, c.ret == 1))), ('the character', c.case(n(c) > 0, lambda: c.o[0] == c.s[0]))], ret=R)

WORDS = {b'0': 0, b'1': 1, b'false': 0, b'true': 1, b'False': 0, b'True': 1, b'FALSE': 0, b'TRUE': 1}


def is_word(c, lo, ln, w):
    return And(ln == len(w), *[(lambda i=i, ch=ch: c.s[lo + i] == ch) for i, ch in enumerate(w)])


def gen_bool(rng, case):
    return {'s': rng.choice(list(WORDS) + [b'tRue', b'2', b'-1', b'00', b'', b'tru', b'yes', b'truex', b'0x1', b'falsE'])}


def fbool(c):
    out = [('%s is read' % w.decode(), c.case(is_word(c, 0, n(c), w), lambda v=v: And(c.ret, c.o[0] == v))) for w, v in WORDS.items()]
    out.append(('other words are rejected', c.case(And(n(c) > 0, lambda: Or(c.s[0] > 57, c.s[0] < 45)), lambda: Or(Not(c.ret), *[is_word(c, 0, n(c), w) for w in WORDS]))))
    return out + [('nothing is read from the empty text', Implies(n(c) == 0, Not(c.ret)))]


# a number must not start with '+': documented precondition of atoi, to which other texts are passed on
K_('from_chars(bool)', 'fc_bool', [SN, O1], fbool, lambda c: Or(n(c) == 0, lambda: c.s[0] != 43), ret=RB, gen=gen_bool, dom='bv')
K_('from_chars(csubstr)', 'fc_cstr', [Buf('s'), O2], lambda c: [('the whole text', And(c.ret, c.o.u(0, 8) == 0, c.o.u(8, 8) == n(c)))], ret=RB)
D_ = Buf('d', mut=True)


def copied(c, lo, ln):
    return And(forall(0, ln, lambda k: c.d[k] == c.s[lo + k]), forall(ln, c.d.len, lambda k: c.d[k] == c.old('d')[k]))


K_('from_chars(substr)', 'fc_str', [Buf('s', null=True), Buf('d', mut=True, null=True), O2], lambda c: [
    ('succeeds when the text fits', Iff(c.ret, n(c) <= c.d.len)), ('the text is copied, nothing else', c.case(n(c) <= c.d.len, lambda: And(copied(c, 0, n(c)), c.o.u(8, 8) == n(c)))),
    ('a destination too small is left alone', c.case(n(c) > c.d.len, lambda: And(forall(0, c.d.len, lambda k: c.d[k] == c.old('d')[k]), c.o.u(8, 8) == c.d.len)))], ret=RB)

blank = lambda ch: Or(ch == 32, ch == 10, ch == 13, ch == 9)


def word(c):
    """[p,q) is the first run of non-blank characters; p==q==len when there is none"""
    s, p, q = c.s, c.p, c.q
    return And(p <= q, q <= s.len, lambda: forall(0, p, lambda k: blank(s[k])), lambda: forall(p, q, lambda k: Not(blank(s[k]))), lambda: Implies(q < s.len, lambda: blank(s[q])), lambda: Implies(p < s.len, lambda: p < q))


def gen_word(extra=None):
    def g(rng, case):
        b = b''.join(rng.choice([b' ', b'\t', b'\n', b'\r', b'a', b'bc', b'xyz', b'(']) for _ in range(rng.randrange(6)))
        if rng.random() < .4:
            b = rng.choice([b'', b' ', b'\n']) + rng.choice(list(WORDS)) + rng.choice([b'', b' ', b' x', b'\t1'])
        p = 0
        while p < len(b) and b[p] in b' \n\r\t':
            p += 1
        q = p
        while q < len(b) and b[q] not in b' \n\r\t':
            q += 1
        d = {'s': b, 'p': p, 'q': q}
        if extra:
            d.update(extra(rng))
        return d
    return g


P_, Q_ = U('p'), U('q')
K_('from_chars_first(csubstr)', 'fcf_cstr', [Buf('s', mut=True, alphabet=b'ab \t\n'), P_, Q_, O2], lambda c: [
    ('the end of the first word, or nothing', Or(And(c.p == n(c), c.ret == NP), And(c.p < n(c), c.ret == c.q))), ('the first word', c.case(c.p < n(c), lambda: And(c.o.u(0, 8) == c.p, c.o.u(8, 8) == c.q - c.p)))], word, ret=R, gen=gen_word())
K_('from_chars_first(substr)', 'fcf_str', [ST, D_, P_, Q_], lambda c: [
    ('the end of the first word, or nothing', Or(And(Or(c.p == n(c), c.q - c.p > c.d.len), c.ret == NP), And(c.p < n(c), c.q - c.p <= c.d.len, c.ret == c.q))),
    ('the first word is copied', c.case(And(c.p < n(c), c.q - c.p <= c.d.len), lambda: copied(c, c.p, c.q - c.p)))], word, ret=R, gen=gen_word(lambda r: {'d': bytes(r.randrange(5))}))
K_('uncat(substr,char)', 'uncat_str', [ST, D_, P_, Q_, O1], lambda c: [
    ('how much was read, or nothing', Or(And(Or(c.q - c.p > c.d.len, c.q == n(c)), c.ret == NP), And(c.p < n(c), c.q - c.p <= c.d.len, c.q < n(c), c.ret == c.q + 1))),
    ('the word and the character after it', c.case(c.ret != NP, lambda: And(copied(c, c.p, c.q - c.p), c.o[0] == c.s[c.q])))], word, ret=R, gen=gen_word(lambda r: {'d': bytes(r.randrange(5))}))


def fbf(c):
    s, p, q = c.s, c.p, c.q
    out = [('nothing from blank text', Implies(p == n(c), c.ret == NP)), ('the end of the word, or npos', Or(c.ret == q, c.ret == NP))]
    for w, v in WORDS.items():
        out.append(('%s is read' % w.decode(), c.case(is_word(c, p, q - p, w), lambda v=v: And(c.ret == q, c.o[0] == v))))
    return out


K_('from_chars_first(bool)', 'fcf_bool', [Buf('s', alphabet=b'01trueTRUE \n'), P_, Q_, O1], fbf, lambda c: And(word(c), lambda: Or(c.p == n(c), lambda: c.s[c.p] != 43)), ret=R, gen=gen_word(), dom='bv', bounded=True, bmc=3, native_n=4000)


def seq(c, cells):
    """one character per argument, in order"""
    m = len(cells)
    return [('one character per argument, or nothing', Or(And(n(c) < m, c.ret == NP), And(n(c) >= m, c.ret == m))),
            ('the characters in order', c.case(n(c) >= m, lambda: And(*[c.o[i] == c.s[j] for j, i in enumerate(cells)])))]


K_('uncat(char)', 'uncat1', [Buf('s'), O1], lambda c: seq(c, [0]), ret=R)
K_('uncat(char,char,char)', 'uncat3', [Buf('s'), O3], lambda c: seq(c, [0, 1, 2]), ret=R)
K_('uncatsep(sep,char,char,char)', 'uncatsep3', [Buf('s'), O4], lambda c: [('one character per argument and separator, or nothing', Or(And(n(c) < 5, c.ret == NP), And(n(c) >= 5, c.ret == 5))),
   ('the arguments are every other character', c.case(n(c) >= 5, lambda: And(c.o[1] == c.s[0], c.o[2] == c.s[2], c.o[3] == c.s[4], c.o[0] == c.s[3])))], ret=R)


def gen_u(two):
    def g(rng, case):
        b = b''.join(rng.choice([b'{}', b'{', b'}', b'x', b'yz', b'{}', b'{{}']) for _ in range(rng.randrange(6)))
        p = b.find(b'{}')
        q = b.find(b'{}', p + 2) if p >= 0 else -1
        d = {'f': b, 'p': NP if p < 0 else p, 's': bytes(rng.randrange(1, 255) for _ in range(max(0, len(b) + rng.randrange(-3, 3))))}
        if two:
            d['q'] = NP if q < 0 else q
        return d
    return g


def uf1(c):
    p, f = c.p, c.f
    return cased(c, p == NP, lambda: [('the format without placeholders is skipped', c.ret == f.len)]) + \
        cased(c, And(p != NP, p >= n(c)), lambda: [('the text ends before the placeholder', c.ret == NP)]) + \
        cased(c, And(p != NP, p < n(c)), lambda: [('the size that was matched', c.ret == f.len - 1), ('the character in place of the placeholder', c.o[0] == c.s[p])])


def uf2(c):
    p, q, f = c.p, c.q, c.f
    two = And(p != NP, q != NP)
    return cased(c, p == NP, lambda: [('the format without placeholders is skipped', c.ret == f.len)]) + \
        cased(c, And(p != NP, p >= n(c)), lambda: [('the text ends before the placeholder', c.ret == NP)]) + \
        cased(c, And(p != NP, q == NP, p < n(c)), lambda: [('the size that was matched', c.ret == f.len - 1), ('the character in place of the placeholder', c.o[0] == c.s[p])]) + \
        cased(c, And(two, q - 1 >= n(c)), lambda: [('the text ends before the second placeholder', c.ret == NP)]) + \
        cased(c, And(two, q - 1 < n(c)), lambda: [('the size that was matched (two)', c.ret == f.len - 2), ('the characters in place of the placeholders', And(c.o[0] == c.s[p], c.o[1] == c.s[q - 1]))])


K_('unformat(fmt,char)', 'unformat1', [Buf('s'), FB, P_, O1], uf1, lambda c: ph(c, c.f, 0, c.p), ret=R, gen=gen_u(False))
K_('unformat(fmt,char,char)', 'unformat2', [Buf('s'), FB, P_, Q_, Out('o', 2)], uf2, lambda c: And(ph(c, c.f, 0, c.p), lambda: Or(And(c.p == NP, c.q == NP), And(c.p != NP, lambda: ph(c, c.f, c.p + 2, c.q)))), ret=R, gen=gen_u(True))
