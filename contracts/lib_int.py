"""Specification of the textual form of integers, written once for every type and radix."""
from contract import *
from spec import *

TYPES = [('u8', 8, False), ('u16', 16, False), ('u32', 32, False), ('u64', 64, False), ('i8', 8, True), ('i16', 16, True), ('i32', 32, True), ('i64', 64, True)]
RADIX = {'dec': 10, 'hex': 16, 'oct': 8, 'bin': 2}
PFX = {10: b'', 16: b'0x', 8: b'0o', 2: b'0b'}
LOG = {16: 4, 8: 3, 2: 1}


def maxdig(w, radix, signed=False):
    m = (1 << w) - 1
    n = 0
    while m:
        m //= radix
        n += 1
    return n


def has_ndigits(mag, d, radix, w):
    """mag needs exactly d digits in the radix"""
    md = maxdig(w, radix)
    return And(mag < radix ** d if d < md else True, mag >= radix ** (d - 1) if d > 1 else True)


def digit_ok(ch, val):
    """character ch is the digit of value val (lower case)"""
    return Or(And(val < 10, ch == val + 48), And(val >= 10, val < 16, ch == val + 87))


def digits_at(c, b, at, d, mag, radix, dom):
    """bytes b[at..at+d) are the d base-radix digits of mag, most significant first"""
    if radix == 10 and dom == 'int':
        return And([And(b[at + i] >= 48, b[at + i] <= 47 + radix) for i in range(d)] + [eqsum([(b[at + i] - 48, radix ** (d - 1 - i)) for i in range(d)], mag)])
    if dom == 'int':
        ds, m = [], mag
        for i in range(d - 1):
            m, e = c.divmod(m, radix)
            ds.append(e)
        ds.append(m)
        return And([b[at + i] == (e + 48 if radix <= 10 else Ite(e < 10, e + 48, e + 87)) for i, e in enumerate(reversed(ds))])
    if radix == 10:
        return And([And(b[at + i] >= 48, b[at + i] <= 57) for i in range(d)] + [eqsum([(b[at + i] - 48, 10 ** (d - 1 - i)) for i in range(d)], mag)])
    lg = LOG[radix]
    if radix <= 8:
        return And([b[at + i] == ((mag >> (lg * (d - 1 - i))) & (radix - 1)) + 48 for i in range(d)])
    return And([digit_ok(b[at + i], (mag >> (lg * (d - 1 - i))) & (radix - 1)) for i in range(d)])


def eqsum(terms, total):
    s = None
    for t, k in terms:
        x = t * k
        s = x if s is None else s + x
    return s == total


def text_post(c, b, r, neg, mag, radix, w, prefix, pad=None, nowrite=True, dom='bv'):
    """the canonical text of a number: '-' if negative, radix prefix, digits, exact size"""
    old = c.old('b')
    md = maxdig(w, radix)
    pl = len(PFX[radix]) if prefix else 0
    cases_len, cases = [], []
    for sg in ((False, True) if neg is not False else (False,)):
        sgn_ok = neg if sg else Not(neg)
        if neg is not False and not isinstance(mag, int) and dom == 'int':
            mag = (1 << w) - c.v.raw if sg else c.v.raw     # the same number, under this sign
        base = pl + (1 if sg else 0)
        for d in range(1, md + 1):
            if sg and d == md and (1 << (w - 1)) < radix ** (d - 1):
                continue
            is_d = And(sgn_ok, has_ndigits(mag, d, radix, w))
            if pad is None:
                tot = base + d
                cases_len.append(And(is_d, r == tot))

                def content(base=base, d=d, sg=sg):
                    pre = (b'-' if sg else b'') + (PFX[radix] if prefix else b'')
                    return And([b[i] == ch for i, ch in enumerate(pre)] + [digits_at(c, b, base, d, mag, radix, dom)])
                cases.append(c.case(And(sgn_ok, r == tot, b.len >= tot), content))
            else:
                def padded(base=base, d=d, sg=sg):
                    z = c.ite(pad > d, lambda: pad - d, lambda: 0)

                    def contentp():
                        pre = (b'-' if sg else b'') + (PFX[radix] if prefix else b'')
                        return And([b[i] == ch for i, ch in enumerate(pre)] +
                                   [forall(0, z, lambda k: b[k + base] == 48), digits_at(c, b, z + base, d, mag, radix, dom)])
                    cases_len.append(r == z + (base + d))
                    return c.case(b.len >= z + (base + d), contentp)
                n0 = len(cases_len)
                cases.append(c.case(is_d, padded))
                if len(cases_len) > n0:
                    cases_len[-1] = And(is_d, cases_len[-1])
    out = [('size is exact', Or(*cases_len)), ('text is canonical', And(*cases)),
           ('nothing written past the reported size', Implies(b.len >= r, lambda: forall(r, b.len, lambda k: b[k] == old[k])))]
    if nowrite:
        out.append(('too-small buffer is left untouched', Implies(b.len < r, lambda: forall(0, b.len, lambda k: b[k] == old[k]))))
    return out


def val(c, signed):
    """(neg, mag) of the argument v"""
    return (c.v.neg, c.v.mag) if signed else (False, c.v)
