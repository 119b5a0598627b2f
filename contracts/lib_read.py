"""Specification of reading integers from text."""
from contract import *
from spec import *
from lib_int import TYPES, RADIX


def isdig(ch, radix):
    if radix == 10:
        return And(ch >= 48, ch <= 57)
    if radix == 8:
        return And(ch >= 48, ch <= 55)
    if radix == 2:
        return Or(ch == 48, ch == 49)
    return Or(And(ch >= 48, ch <= 57), And(ch >= 97, ch <= 102), And(ch >= 65, ch <= 70))


def dval(ch, radix):
    """value of a digit (meaningful where isdig)"""
    if isinstance(ch, int):
        return ch - 48 if ch <= 57 or radix <= 10 else (ch - 87 if ch >= 97 else ch - 55)
    if radix <= 10:
        return ch - 48
    return Ite(ch <= 57, ch - 48, Ite(ch >= 97, ch - 87, ch - 55))


def digits_fold(c, s, name, w, start, radix):
    """name(k) = value (mod 2^w) of the k digits s[start..start+k)"""
    return c.fold(name, w, 0, lambda acc, k: acc * radix + dval(s[k + start], radix))


def all_digits(s, start, radix):
    return forall(start, s.len, lambda k: isdig(s[k], radix))


def neg_mod(x, w):
    m = (1 << w) - 1
    if isinstance(x, int):
        return -x & m
    return (0 - x) & m


NUM = b'0123456789abcdefABCDEFxXoObB-0123456789'


def gen_num(rng, signed=True, kind=None, neg=None):
    k = kind or rng.choice(['dec', 'dec', 'hex', 'oct', 'bin'])
    digs = {'dec': '0123456789', 'hex': '0123456789abcdefABCDEF', 'oct': '01234567', 'bin': '01'}[k]
    p = {'dec': [''], 'hex': ['0x', '0X'], 'oct': ['0o', '0O'], 'bin': ['0b', '0B']}[k]
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 10, 16, 19, 20, 21, 32, 64, 65])
    ng = rng.random() < .4 if neg is None else neg
    t = ('-' if signed and ng else '') + rng.choice(p) + '0' * rng.choice([0, 0, 0, 1, 3]) + ''.join(rng.choice(digs) for _ in range(n))
    if rng.random() < .25 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice('/:@G`g 2789fF-x+\x00\xff') + t[i + 1:]
    return t.encode('latin1')
