"""integer round trips: the text of every value is read back as that value"""
from lib_int import *
U_ = 'rt'
CONTRACTS = []
for n, w, sg in TYPES:
    A = I('v', w) if sg else U('v', w)
    raw = (lambda c: c.v.raw) if sg else (lambda c: c.v)
    for nm, fn in [('', 'rt'), (',16', 'rt16'), (',8', 'rt8'), (',2', 'rt2')]:
        if nm == ',2' and w > 8 or nm == ',16' and w > 16:
            continue        # branches on every digit: too many paths; the texts and values are separately proved in P01 and P03
        CONTRACTS.append(Contract('from_chars(to_chars<%s>(v%s))' % (n, nm), 'h_%s_%s' % (fn, n), [Buf('s', mut=True, minlen=w + 3), A, Out('o', w // 8)], B('r'),
                                  ensures=lambda c, raw=raw, w=w: [('the text is accepted', c.ret), ('the value is read back', c.o.u(0, w // 8) == raw(c))], dom='int', loops='unroll', unit=U_, native_n=300,
                                  gen=lambda rng, case, w=w: {'s': bytes(w + 3)}))
    CONTRACTS.append(Contract('overflows<%s>(to_chars(v))' % n, 'h_ov_%s' % n, [Buf('s', mut=True, minlen=w + 3), A], B('r'), ensures=lambda c: [('no value of the type is out of its range', Not(c.ret))],
                              dom='int', loops='unroll', unit=U_, native_n=300, gen=lambda rng, case, w=w: {'s': bytes(w + 3)}))
CONTRACTS.sort(key=lambda c: -(('64' in c.name) * 2 + (',2' in c.name) * 3 + ('32' in c.name)))
