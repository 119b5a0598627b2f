"""bit, power, hash, size-conversion and memory helpers"""
from lib_str import *
import spec
U_ = 'mutil'
CONTRACTS = []


def K_(name, fn, args, post, req=None, ret=None, **k):
    k.setdefault('dom', 'bv')
    CONTRACTS.append(Contract(name, 'h_' + fn, args, ret, requires=req, ensures=post, unit=U_, **k))


n = lambda c: c.s.len
one = lambda x: x * 0 + 1
mask = lambda x: (one(x) << (x if spec._SYM[0] else min(x, 64))) - 1         # the bits below x
for w in (8, 16, 32, 64):
    V = U('v', w)
    K_('lsb<u%d>' % w, 'lsb_u%d' % w, [V], lambda c, w=w: [('a bit of the type', c.ret < w), ('the bit is set', ((c.v >> c.ret) & 1) == 1), ('no lower bit is set', (c.v & ((one(c.v) << c.ret) - 1)) == 0)], lambda c: c.v != 0, ret=U('r', 32))
    K_('msb<u%d>' % w, 'msb_u%d' % w, [V], lambda c, w=w: [('a bit of the type', c.ret < w), ('the bit is set and no higher one', (c.v >> c.ret) == 1)], lambda c: c.v != 0, ret=U('r', 32))
    K_('contiguous_mask<u%d>' % w, 'cmask_u%d' % w, [U('a', w), U('b', w)],
       lambda c, w=w: [('exactly the bits from first up to last', c.ret == mask(c.b) ^ (mask(c.b) & mask(c.a)))],
       lambda c, w=w: c.b <= w, ret=U('r', w), loops='unroll')

FNV32, FNV64 = (2166136261, 16777619), (14695981039346656037, 1099511628211)


def fnv(c, s, name, init, w):
    pr = (FNV32 if w == 32 else FNV64)[1]
    return c.fold(name, w, init, lambda acc, k: (acc ^ s[k]) * pr)


def h1(c):
    fnv(c, c.s, 'h', FNV64[0], 64)


K_('hash_bytes', 'hash', [Buf('s', null=True)], lambda c: [('the FNV-1a hash of the bytes', c.ret == c.g['h'](n(c)))], ghost=h1, ret=U('r'), fold_only=True)


def h2(w):
    def g(c):
        f = fnv(c, c.s, 'h', (FNV32 if w == 32 else FNV64)[0], w)
        fnv(c, c.p, 'g', f(n(c)), w)
    return g


for w in (32, 64):
    K_('fnv1a<%d>: two updates' % w, 'hash%d' % w, [Buf('s', null=True), Buf('p', null=True)], lambda c: [('the hash of the concatenation', c.ret == c.g['g'](c.p.len))], ghost=h2(w), ret=U('r', w), fold_only=True)


def pw(w, base):
    def g(c):
        b = base if base is not None else c.v
        c.fold('p', w, 1, lambda acc, k: acc * b)
    return g


PWB = U('v', 64, vals=[0, 1, 2, 3, 10])
for nm, fn, args, w, base, sg in [('ipow(u64,u32)', 'ipow_u64_u32', [PWB, U('e', 32)], 64, None, False), ('ipow(u64,i32)', 'ipow_u64_i32', [PWB, I('e', 32)], 64, None, True),
                                  ('ipow(u32,u64)', 'ipow_u32_u64', [U('v', 32), U('e', 64)], 32, None, False), ('ipow<u64,10>(u32)', 'ipow10_u32', [U('e', 32)], 64, 10, False),
                                  ('ipow<u64,int,2>(i32)', 'ipow2_i32', [I('e', 32)], 64, 2, True)]:
    K_(nm, fn, args, lambda c, sg=sg: [('the power modulo 2^bits', c.ret == c.g['p'](c.e.raw if sg else c.e))], (lambda c: Not(c.e.neg)) if sg else (lambda c: c.e < 1 << 57), ghost=pw(w, base), ret=U('r', w), fold_only=True,
       gen=lambda rng, case, sg=sg: {'e': rng.randrange(40)})

for o, i in [('u8', 'u64'), ('i8', 'u64'), ('u16', 'u32'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64'), ('u32', 'u64'), ('i32', 'u64'), ('u64', 'u8'), ('i64', 'u32'), ('u64', 'u64')]:
    wo, wi = int(o[1:]), int(i[1:])
    mx = (1 << (wo - 1 if o[0] == 'i' else wo)) - 1
    K_('szconv<%s>(%s)' % (o, i), 'sz_%s_%s' % (o, i), [U('v', wi, vals=[x for x in (mx, mx + 1, mx - 1, 0, 1) if x < 1 << wi])], lambda c: [('the value is kept or the conversion is rejected', c.ret == c.v)], ret=U('r', wo), reject=True)
    K_('szconv<%s>(%s) accepts every value that fits' % (o, i), 'sz_%s_%s' % (o, i), [U('v', wi, vals=[x for x in (mx, mx - 1, 0, 1) if x < 1 << wi])], lambda c: [('the value', c.ret == c.v)], lambda c, mx=mx: c.v <= mx, ret=U('r', wo))


def rest(c, lo):
    s, o = c.s, c.old('s')
    return forall(lo, n(c), lambda k: s[k] == o[k])


SMB = Buf('s', mut=True)
K_('mem_zero(bytes)', 'mem_zero', [SMB, U('k')], lambda c: [('zeroed', forall(0, c.k, lambda i: c.s[i] == 0)), ('nothing else', rest(c, c.k))], lambda c: c.k <= n(c), dom='int')
K_('mem_zero<u32>', 'mem_zero32', [SMB, U('k')], lambda c: [('zeroed', forall(0, 4 * c.k, lambda i: c.s[i] == 0)), ('nothing else', rest(c, 4 * c.k))], lambda c: And(c.k <= 1 << 50, 4 * c.k <= n(c)), dom='int')


def rep(c):
    m, k = c.p.len, c.k
    if not spec._SYM[0]:
        p = bytes(c.p[i] for i in range(m))
        return [('the repeated pattern', bytes(c.s[i] for i in range(m * k)) == p * k), ('nothing else', rest(c, m * k))]
    return [('starts with the pattern', c.case(k != 0, lambda: forall(0, m, lambda i: c.s[i] == c.p[i]))), ('every byte repeats the one a pattern earlier', True)]


def gen_rep(rng, case):
    m, k = rng.randrange(6), rng.randrange(12)
    return {'p': bytes(rng.randrange(256) for _ in range(m)), 'k': k, 's': bytes(m * k + rng.randrange(4))}


K_('mem_repeat', 'mem_repeat', [SMB, Buf('p'), U('k')], rep, lambda c: And(c.k <= 1 << 20, c.p.len <= 1 << 20, lambda: c.k * c.p.len <= n(c)), bounded=True, bmc=4, gen=gen_rep, native_n=1500)


def gen_ov(rng, case):
    m = rng.randrange(1, 24)
    i, j = rng.randrange(m), rng.randrange(m)
    return {'s': bytes(m), 'i': i, 'j': j, 'a': rng.randint(1, m - i), 'b': rng.randint(1, m - j)}


K_('mem_overlaps', 'overlaps', [Buf('s'), U('i'), U('j'), U('a'), U('b')], lambda c: [('true exactly when a byte belongs to both ranges', Iff(c.ret, And(c.i < c.j + c.b, c.j < c.i + c.a)))],
   lambda c: And(c.i <= n(c), c.j <= n(c), c.a <= n(c) - c.i, c.b <= n(c) - c.j, c.a != 0, c.b != 0), ret=B('r'), dom='int', gen=gen_ov)
