from contract import *
from spec import *
NP = NPOS
S = Buf('s', null=True, alphabet=b'ab/.')
S1 = Buf('s', alphabet=b'ab/.')
T = Buf('p', null=True, alphabet=b'ab/.')
SM = Buf('s', mut=True, null=True, alphabet=b'ab/.')
C = U('c', 8, vals=list(b'ab/.'))
POS = U('b', 64)
O = Out('o', 24)


def isin(ch, p):
    """the character occurs in the list p"""
    return exists(0, p.len, lambda j: p[j] == ch)


def match(s, p, i):
    """p occurs in s at i"""
    return forall(0, p.len, lambda j: s[i + j] == p[j])


def view(c, off, ln, null=None):
    """the returned view is s[off, off+ln)"""
    r = [c.o.u(0, 8) == off, c.o.u(8, 8) == ln]
    return And(*r)


class VW:
    def __init__(self, c):
        self.off, self.len, self.null = c.o.u(0, 8), c.o.u(8, 8), c.o.u(16, 8)
