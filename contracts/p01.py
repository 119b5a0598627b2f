from lib_int import *
U_ = 'intw'


def mk(name, fn, n, w, sg, radix, prefix, nonneg=False):
    def post(c):
        neg, mag = val(c, sg)
        if nonneg:
            neg, mag = False, c.v.raw if sg else mag
        return text_post(c, c.b, c.ret, neg, mag, radix, w, prefix, dom=dom)
    dom = 'int'
    req = (lambda c: Not(c.v.neg)) if (sg and nonneg) else None
    A = I('v', w) if sg else U('v', w)
    return Contract(name, fn, [Buf('b', mut=True, null=True), A], U('r'), requires=req, ensures=post, dom=dom, loops='unroll', unit=U_, budget=120,
                    native_n=300)


def mkd(n, w, sg, rn):
    radix = RADIX[rn]

    def post(c):
        mag = val(c, sg)[1]
        return [('exact digit count', Or(*[And(has_ndigits(mag, d, radix, w), c.ret == d) for d in range(1, maxdig(w, radix) + 1)]))]
    A = I('v', w) if sg else U('v', w)
    return Contract('digits_%s<%s>' % (rn, n), 'h_digits_%s_%s' % (rn, n), [A], U('r', 32), requires=(lambda c: Not(c.v.neg)) if sg else None, ensures=post,
                    loops='unroll', unit=U_)


CONTRACTS = []
for n, w, sg in TYPES:
    for rn, rx in RADIX.items():
        CONTRACTS.append(mk('write_%s<%s>' % (rn, n), 'h_write_%s_%s' % (rn, n), n, w, sg, rx, False, nonneg=True))
        CONTRACTS.append(mkd(n, w, sg, rn))
        CONTRACTS.append(mk('xtoa<%s>(v,%d)' % (n, rx), 'h_xtoa%d_%s' % (rx, n), n, w, sg, rx, True))
    CONTRACTS.append(mk('xtoa<%s>(v)' % n, 'h_xtoa_' + n, n, w, sg, 10, False))
    CONTRACTS.append(mk('to_chars<%s>' % n, 'h_to_chars_' + n, n, w, sg, 10, False))
CONTRACTS.append(mk('to_chars<long long>', 'h_to_chars_long', 'i64', 64, True, 10, False))
CONTRACTS.append(mk('to_chars<unsigned long long>', 'h_to_chars_ulong', 'u64', 64, False, 10, False))
for n, w, sg in TYPES:
    if n in ('u8', 'i16', 'u64'):
        for rn, rx in RADIX.items():
            CONTRACTS.append(mk('to_chars(fmt::%s<%s>)' % ('integral' if rx == 10 else rn, n), 'h_fmt%s_%s' % (rn, n), n, w, sg, rx, True))
CONTRACTS.sort(key=lambda c: -(('64' in c.name) * 2 + (',2' in c.name or 'bin' in c.name) * 3 + ('32' in c.name)))
