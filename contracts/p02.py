"""zero-padded integers"""
from lib_int import *
U_ = 'intw'
PADMAX = 1 << 62


def mk(name, fn, w, sg, radix, prefix, nonneg, nowrite, mn=None, sgn=None):
    dom = 'bv' if (mn) else 'int'

    def post(c):
        neg, mag = val(c, sg)
        if nonneg:
            neg, mag = False, c.v.raw if sg else mag
        return text_post(c, c.b, c.ret, neg, mag, radix, w, prefix, pad=c.d, nowrite=nowrite, dom=dom)

    def req(c):
        r = [c.d <= PADMAX]
        if sg and nonneg:
            r.append(Not(c.v.neg))
        if mn is not None:
            r.append(Iff(And(c.v.neg, c.v.mag == 1 << (w - 1)), mn))
        if sgn is not None:
            r.append(Iff(c.v.neg, sgn))
        return And(r)

    def gen(rng, case):
        if mn:
            return {'d': rng.randint(0, 80), 'v': -(1 << (w - 1)), 'b': bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 90)))}
        if rng.random() < .8:
            return {'d': rng.randint(0, 80), 'b': bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 90)))}
    A = I('v', w) if sg else U('v', w)
    return Contract(name, fn, [Buf('b', mut=True, null=True), A, U('d')], U('r'), requires=req, ensures=post, dom=dom, loops='rule' if mn else 'unroll', unit=U_, budget=300,
                    native_n=300, gen=gen)


CONTRACTS = []
for n, w, sg in TYPES:
    for rn, rx in RADIX.items():
        CONTRACTS.append(mk('write_%s<%s>(v,num_digits)' % (rn, n), 'h_wpad_%s_%s' % (rn, n), w, sg, rx, False, True, False))
        nm, fn = 'xtoa<%s>(v,%d,num_digits)' % (n, rx), 'h_xtoapad%d_%s' % (rx, n)
        if not sg:
            CONTRACTS.append(mk(nm, fn, w, sg, rx, True, False, True))
            continue
        CONTRACTS.append(mk(nm + ' min', fn, w, sg, rx, True, False, True, True))
        if w == 64 and rx in (2, 16):
            CONTRACTS.append(mk(nm + ' negative', fn, w, sg, rx, True, False, True, False, True))
            CONTRACTS.append(mk(nm + ' nonnegative', fn, w, sg, rx, True, False, True, False, False))
        else:
            CONTRACTS.append(mk(nm, fn, w, sg, rx, True, False, True, False))
for n, w, sg in TYPES:
    if n in ('u8', 'i16', 'u64'):
        for nm, fn, rx in (('fmt::zpad(v)', 'zpad', 10), ('fmt::zpad(fmt::hex(v))', 'zpadhex', 16)):
            CONTRACTS.append(mk('to_chars(%s) <%s>' % (nm, n), 'h_%s_%s' % (fn, n), w, sg, rx, True, False, True, False if sg else None))
CONTRACTS.sort(key=lambda c: -(('64' in c.name) * 2 + (',2,' in c.name or 'bin' in c.name) * 3 + ('32' in c.name)))
ASSUME = ['num_digits <= 2^62 (beyond that the reported size itself would wrap)']
