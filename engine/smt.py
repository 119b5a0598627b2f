"""Value domains and the quantifier-free prover with explicit instantiation.

Scalars are python ints (canonical unsigned) or z3 terms; i1 values are python
bools or z3 Bools.  Two encodings of machine integers exist:
  BVDom  - fixed width bit-vectors (exact by construction)
  IntDom - mathematical integers; every wrapping operation introduces an
           explicit multiple of 2^w, so machine arithmetic stays exact.
"""
import z3

Z = z3


class Unsupported(Exception):
    pass


def is_const(x):
    return isinstance(x, (int, bool))


_simp_cache = {}


def simp(e):
    i = e.get_id()
    r = _simp_cache.get(i)
    if r is not None:
        return r[1]
    s = z3.simplify(e)
    if len(_simp_cache) > 200000:
        _simp_cache.clear()
    _simp_cache[i] = (e, s)
    return s


def tobool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def norm_bool(e):
    """z3 bool -> python bool when decided syntactically"""
    if isinstance(e, bool):
        return e
    s = simp(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def b_not(a):
    return (not a) if isinstance(a, bool) else norm_bool(z3.Not(a))


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    return norm_bool(z3.If(c, tobool(a), tobool(b)))


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


_uid = [0]


def fresh_name(p):
    _uid[0] += 1
    return '%s!%d' % (p, _uid[0])


class BVDom:
    name = 'bv'
    IDX = z3.BitVecSort(64)

    def sort(self, w):
        return z3.BitVecSort(w)

    def mk(self, x, w):
        """to z3"""
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return z3.BitVecVal(x, w)
        return x

    def canon(self, e):
        s = simp(e)
        if z3.is_bv_value(s):
            return s.as_long()
        return s

    def fresh(self, st, nm, w):
        c = z3.BitVec(fresh_name(nm), w)
        if st is not None:
            st.fresh.append(c)
        return c

    def named(self, nm, w):
        return z3.BitVec(nm, w), []

    def _f(self, op, a, b, w, fn):
        if is_const(a) and is_const(b):
            return fn(a, b) & ((1 << w) - 1)
        return None

    def add(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return (a + b) & ((1 << w) - 1)
        if is_const(a) and a == 0:
            return b
        if is_const(b) and b == 0:
            return a
        return self.canon(self.mk(a, w) + self.mk(b, w))

    def sub(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return (a - b) & ((1 << w) - 1)
        if is_const(b) and b == 0:
            return a
        return self.canon(self.mk(a, w) - self.mk(b, w))

    def mul(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return (a * b) & ((1 << w) - 1)
        return self.canon(self.mk(a, w) * self.mk(b, w))

    def udiv(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a // b if b else (1 << w) - 1
        return self.canon(z3.UDiv(self.mk(a, w), self.mk(b, w)))

    def urem(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a % b if b else a
        return self.canon(z3.URem(self.mk(a, w), self.mk(b, w)))

    def sdiv(self, a, b, w, st=None):
        return self.canon(self.mk(a, w) / self.mk(b, w))

    def srem(self, a, b, w, st=None):
        return self.canon(z3.SRem(self.mk(a, w), self.mk(b, w)))

    def shl(self, a, b, w, st=None):
        return self.canon(self.mk(a, w) << self.mk(b, w))

    def lshr(self, a, b, w, st=None):
        return self.canon(z3.LShR(self.mk(a, w), self.mk(b, w)))

    def ashr(self, a, b, w, st=None):
        return self.canon(self.mk(a, w) >> self.mk(b, w))

    def and_(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a & b
        return self.canon(self.mk(a, w) & self.mk(b, w))

    def or_(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a | b
        return self.canon(self.mk(a, w) | self.mk(b, w))

    def xor(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a ^ b
        return self.canon(self.mk(a, w) ^ self.mk(b, w))

    def zext(self, a, w, w2, st=None):
        if is_const(a):
            return int(a)
        return self.canon(z3.ZeroExt(w2 - w, a))

    def sext(self, a, w, w2, st=None):
        if is_const(a):
            return sgn(int(a), w) & ((1 << w2) - 1)
        return self.canon(z3.SignExt(w2 - w, a))

    def trunc(self, a, w, w2, st=None):
        if is_const(a):
            return int(a) & ((1 << w2) - 1)
        return self.canon(z3.Extract(w2 - 1, 0, a))

    def byte(self, a, w, i, st=None):
        if is_const(a):
            return (int(a) >> (8 * i)) & 0xff
        return self.canon(z3.Extract(min(w, 8 * i + 8) - 1, 8 * i, a) if w >= 8 * i + 8 else z3.ZeroExt(8 * i + 8 - w, z3.Extract(w - 1, 8 * i, a)))

    def join(self, bs, st=None):
        """little endian bytes -> value"""
        if all(is_const(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        return self.canon(z3.Concat(*[self.mk(b, 8) for b in reversed(bs)]))

    def cmp(self, pr, a, b, w):
        if is_const(a) and is_const(b):
            return _pycmp(pr, a, b, w)
        x, y = self.mk(a, w), self.mk(b, w)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()
        return norm_bool(e)

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if is_const(a) and is_const(b) and a == b:
            return a
        x, y = self.mk(a, w), self.mk(b, w)
        if x.eq(y):
            return a
        return self.canon(z3.If(c, x, y))

    def ovf(self, op, a, b, w, st=None):
        """(result, overflow flag) for s/u add/sub/mul with.overflow"""
        if is_const(a) and is_const(b):
            sg = op[0] == 's'
            x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return r & ((1 << w) - 1), not (lo <= r <= hi)
        x, y = self.mk(a, w), self.mk(b, w)
        ext = z3.SignExt if op[0] == 's' else z3.ZeroExt
        k = w if op[1:] == 'mul' else 1
        X, Y = ext(k, x), ext(k, y)
        R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op[1:]]
        r = z3.Extract(w - 1, 0, R)
        fl = ext(k, r) != R
        return self.canon(r), norm_bool(fl)


def _pycmp(pr, a, b, w):
    if pr[0] == 's':
        a, b = sgn(int(a), w), sgn(int(b), w)
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]


def bv_quot(x, k):
    """t with x == k*t modulo 2^64, when the form of x shows one"""
    if z3.is_bv_value(x):
        v = x.as_long()
        return z3.BitVecVal(v // k, 64) if v % k == 0 else None
    if z3.is_app_of(x, z3.Z3_OP_BADD):
        r = [bv_quot(a, k) for a in x.children()]
        if any(a is None for a in r):
            return None
        t = r[0]
        for a in r[1:]:
            t = t + a
        return z3.simplify(t)
    if z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() % k == 0:
        return z3.simplify(x.arg(0).as_long() // k * x.arg(1))
    return None


def int_tz(x):
    """number of low bits known to be zero"""
    if is_const(x):
        x = int(x)
        return 64 if x == 0 else (x & -x).bit_length() - 1
    if z3.is_int_value(x):
        return int_tz(x.as_long())
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return min(int_tz(a) for a in x.children())
    if k == z3.Z3_OP_MUL:
        return min(64, sum(int_tz(a) for a in x.children()))
    if k == z3.Z3_OP_ITE:
        return min(int_tz(x.arg(1)), int_tz(x.arg(2)))
    return 0


class IntDom:
    """unsigned-canonical mathematical integers"""
    name = 'int'
    IDX = z3.IntSort()

    def __init__(self):
        self.iv = {}     # ast id -> (expr, lo, hi)
        self.memo = {}

    def sort(self, w):
        return z3.IntSort()

    def mk(self, x, w):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return z3.IntVal(x)
        return x

    def rng(self, x, w, st=None):
        if is_const(x):
            return int(x), int(x)
        if st is not None:
            r = st.iv.get(x.get_id())
            if r:
                return r[1], r[2]
        r = self.iv.get(x.get_id())
        if r:
            return r[1], r[2]
        return 0, (1 << w) - 1

    def setr(self, x, lo, hi, st=None):
        """value range of a term; facts that depend on the path go to the state"""
        (self.iv if st is None else st.iv)[x.get_id()] = (x, lo, hi)
        return x

    def canon(self, e):
        s = simp(e)
        if z3.is_int_value(s):
            return s.as_long()
        return s

    def fresh(self, st, nm, w):
        c = z3.Int(fresh_name(nm))
        st.fresh.append(c)
        st.add(z3.And(c >= 0, c < (1 << w)))
        self.setr(c, 0, (1 << w) - 1)
        return c

    def named(self, nm, w):
        c = z3.Int(nm)
        self.setr(c, 0, (1 << w) - 1)
        return c, [z3.And(c >= 0, c < (1 << w))]

    def wrap(self, e, lo, hi, w, st):
        """reduce a term with known math range into [0,2^w)"""
        M = 1 << w
        if is_const(e):
            return e % M
        e = self.canon(e)
        if is_const(e):
            return e % M
        if lo >= 0 and hi < M:
            return self.setr(e, lo, hi, st)
        if lo // M == hi // M:
            q = lo // M
            return self.setr(self.canon(e - M * q), lo - M * q, hi - M * q, st)
        r = z3.Int(fresh_name('w'))
        k = z3.Int(fresh_name('k'))
        st.fresh += [r, k]
        st.add(z3.And(e == r + M * k, r >= 0, r < M, k >= lo // M, k <= hi // M))
        if w == 64 and lo >= -(M >> 1) and hi < (M >> 1):
            st.sal[r.get_id()] = (r, e, lo, hi)
        return self.setr(r, 0, M - 1, st)

    def from_signed(self, y, lo, hi, st):
        """the 64-bit value whose signed reading is y"""
        M = 1 << 64
        if is_const(y):
            return y % M
        y = self.canon(y)
        if is_const(y):
            return y % M
        if lo >= 0 or (st is not None and st.must(y >= 0)):
            return self.setr(y, max(lo, 0), hi, st)
        x = z3.If(y < 0, y + M, y)
        st.sal[x.get_id()] = (x, y, lo, hi)
        return self.setr(x, 0, M - 1, st)

    def alias(self, a, st):
        if is_const(a) or st is None:
            return None
        return st.sal.get(a.get_id())

    def add(self, a, b, w, st=None):
        la, ha = self.rng(a, w, st)
        lb, hb = self.rng(b, w, st)
        al = self.alias(a, st)
        if al and w == 64 and is_const(b) and abs(sgn(b, 64)) <= 1 << 32 and -(1 << 62) <= al[2] and al[3] <= 1 << 62:
            d = sgn(b, 64)
            return self.from_signed(al[1] + d, al[2] + d, al[3] + d, st)
        if is_const(b) and not is_const(a) and b >= (1 << (w - 1)):      # a - c
            return self.sub(a, (1 << w) - b, w, st)
        if ha + hb >= 1 << w and st is not None and w == 64:
            e = self._p(a) + self._p(b)
            if not is_const(e) and st.must(e < (1 << w)):
                return self.setr(self.canon(e), la + lb, (1 << w) - 1, st)
        return self.wrap(self._p(a) + self._p(b), la + lb, ha + hb, w, st)

    def _p(self, a):
        return int(a) if is_const(a) else a

    def sub(self, a, b, w, st=None):
        la, ha = self.rng(a, w, st)
        lb, hb = self.rng(b, w, st)
        e = self._p(a) - self._p(b)
        al = self.alias(a, st)
        if al and w == 64 and is_const(b) and abs(sgn(b, 64)) <= 1 << 32 and -(1 << 62) <= al[2] and al[3] <= 1 << 62:
            return self.add(a, (-b) % (1 << 64), w, st)
        if not is_const(e) and not (la >= hb):
            # try to prove no borrow with the path condition
            if st is not None and st.must(self.mk(a, w) >= self.mk(b, w)):
                e = self.canon(e)
                return e if is_const(e) else self.setr(e, 0, ha - lb, st)
        return self.wrap(e, la - hb, ha - lb, w, st)

    def mul(self, a, b, w, st=None):
        if not (is_const(a) or is_const(b)):
            raise Unsupported('nonlinear mul')
        la, ha = self.rng(a, w, st)
        lb, hb = self.rng(b, w, st)
        return self.wrap(self._p(a) * self._p(b), la * lb, ha * hb, w, st)

    def _divmod(self, a, b, w, st):
        if not is_const(b) or b == 0:
            raise Unsupported('div by symbol')
        if is_const(a):
            return a // b, a % b
        key = (a.get_id(), b)
        m = self.memo.get((id(st.root), key))
        # definitional: q,r are functions of a, safe to share on one path
        for (kk, q, r, mark) in st.divs:
            if kk == key:
                return q, r
        la, ha = self.rng(a, w, st)
        if ha < b:
            return 0, a
        sp = self._split(a, b, w, st)
        if sp is not None:
            st.divs = st.divs + [(key, sp[0], sp[1], a)]
            return sp
        q = z3.Int(fresh_name('q'))
        r = z3.Int(fresh_name('r'))
        st.fresh += [q, r]
        st.add(z3.And(a == q * b + r, r >= 0, r < b, q >= la // b, q <= ha // b))
        self.setr(q, la // b, ha // b, st)
        self.setr(r, 0, b - 1, st)
        st.divs = st.divs + [(key, q, r, a)]
        return q, r

    def _split(self, a, b, w, st):
        """quotient and remainder of a sum by its parts: multiples of b, and g*X + Y with Y < g, g | b"""
        if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return None
        A, Bt, c0 = [], [], 0
        for t in (a.children() if a.decl().kind() == z3.Z3_OP_ADD else [a]):
            if z3.is_int_value(t):
                c0 += t.as_long()
                continue
            k, x = 1, t
            if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                k, x = t.arg(0).as_long(), t.arg(1)
            lo, hi = self.rng(x, w, st)
            if k < 0 or lo < 0 or hi >= 1 << 32:
                return None
            (A if k % b == 0 else Bt).append((k, x, lo, hi))
        if c0 < 0:
            return None
        mk = lambda ts, d, c: self._sum([(k // d, x, lo, hi) for k, x, lo, hi in ts], c, st)
        if A:
            rest = mk(Bt, 1, c0)
            q, r = self._divmod(rest, b, w, st)
            qa = mk(A, b, 0)
            return self.add(qa, q, 64, st), r
        # g*X + Y
        for g in sorted({k for k, _, _, _ in Bt if k > 1 and b % k == 0}, reverse=True):
            X = [t for t in Bt if t[0] % g == 0]
            Y = [t for t in Bt if t[0] % g]
            if sum(t[0] * t[3] for t in Y) + c0 % g < g:
                xs, ys = mk(X, g, c0 // g), mk(Y, 1, c0 % g)
                if is_const(xs):
                    continue
                q, r = self._divmod(xs, b // g, w, st)
                return q, self.add(self.mul(r, g, 64, st), ys, 64, st)
        return None

    def _sum(self, ts, c, st):
        e, lo, hi = c, c, c
        for k, x, l, h in ts:
            e = e + k * x
            lo += k * l
            hi += k * h
        if is_const(e):
            return e
        e = self.canon(e)
        return e if is_const(e) else self.setr(e, lo, hi, st)

    def udiv(self, a, b, w, st=None):
        return self._divmod(a, b, w, st)[0]

    def urem(self, a, b, w, st=None):
        return self._divmod(a, b, w, st)[1]

    def signed(self, a, w, st):
        """math signed value of canonical a"""
        if is_const(a):
            return sgn(int(a), w), 0, 0
        H = 1 << (w - 1)
        la, ha = self.rng(a, w, st)
        if ha < H:
            return a, la, ha
        al = self.alias(a, st) if w == 64 else None
        if al:
            return al[1], al[2], al[3]
        c = a >= H
        if st is not None:
            if st.must(c):
                return a - (1 << w), la - (1 << w), ha - (1 << w)
            if st.must(z3.Not(c)):
                return a, la, min(ha, H - 1)
            if w == 8 and z3.is_app_of(a, z3.Z3_OP_ITE) and st.root.prove(st, z3.Not(c), rounds=5, wall=15)[0] == 'ok':
                # a table lookup that cannot hit a negative entry
                hi = 63 if st.root.prove(st, a <= 63, rounds=5, wall=15)[0] == 'ok' else 127
                for (kk, q, r, mark) in st.divs:
                    if kk == (a.get_id(), 'tab'):
                        return q, 0, hi
                t = z3.Int(fresh_name('t'))
                st.fresh.append(t)
                st.add(z3.And(t == a, t >= 0, t <= hi))
                self.setr(t, 0, hi, st)
                st.divs = st.divs + [((a.get_id(), 'tab'), t, 0, a)]
                return t, 0, hi
        return z3.If(c, a - (1 << w), a), -H, H - 1

    def sdiv(self, a, b, w, st=None):
        if not is_const(b):
            raise Unsupported('sdiv')
        sb = sgn(b, w)
        s, lo, hi = self.signed(a, w, st)
        if is_const(s):
            q = abs(s) // abs(sb)
            return (q if (s < 0) == (sb < 0) else -q) & ((1 << w) - 1)
        if not is_const(a) and st.must(s >= 0) and sb > 0:
            return self.udiv(a, b, w, st)
        if st.must(s <= 0) and sb > 0:
            neg = self.setr(simp(-s), 0, 1 << (w - 1), st)
            q = self.udiv(neg, sb, w, st)
            return self.sub(0, q, w, st)
        raise Unsupported('sdiv sign')

    def srem(self, a, b, w, st=None):
        if not is_const(b):
            raise Unsupported('srem')
        sb = abs(sgn(b, w))
        s, lo, hi = self.signed(a, w, st)
        if is_const(s):
            r = abs(s) % sb
            return (r if s >= 0 else -r) & ((1 << w) - 1)
        if st.must(s >= 0):
            return self.urem(a, sb, w, st)
        if st.must(s <= 0):
            neg = self.setr(simp(-s), 0, 1 << (w - 1), st)
            r = self.urem(neg, sb, w, st)
            return self.sub(0, r, w, st)
        raise Unsupported('srem sign')

    def shl(self, a, b, w, st=None):
        if not is_const(b):
            raise Unsupported('shl')
        return self.mul(a, 1 << b, w, st)

    def lshr(self, a, b, w, st=None):
        if not is_const(b):
            raise Unsupported('lshr')
        return self.udiv(a, 1 << b, w, st)

    def ashr(self, a, b, w, st=None):
        if not is_const(b):
            raise Unsupported('ashr')
        if is_const(a):
            return (sgn(a, w) >> b) & ((1 << w) - 1)
        s, lo, hi = self.signed(a, w, st)
        if st.must(s >= 0):
            return self.udiv(a, 1 << b, w, st)
        raise Unsupported('ashr')

    def and_(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a & b
        if is_const(a):
            a, b = b, a
        if is_const(b):
            if b == 0:
                return 0
            if b == (1 << w) - 1:
                return a
            low = (b & -b).bit_length() - 1
            m = b >> low
            if m & (m + 1) == 0:     # contiguous mask
                q = self.udiv(a, 1 << low, w, st) if low else a
                r = self.urem(q, m + 1, w, st)
                return self.mul(r, 1 << low, w, st)
        raise Unsupported('and')

    def or_(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a | b
        if is_const(a) and a == 0:
            return b
        if is_const(b) and b == 0:
            return a
        for x, y in ((a, b), (b, a)):
            lo, hi = self.rng(y, w, st)
            lx, hx = self.rng(x, w, st)
            tz = int_tz(x)
            if hi < 1 << tz or (tz > 0 and st is not None and st.root.proves(st, self.mk(y, w) < (1 << tz))):      # no common bits
                e = self.canon(self._p(x) + self._p(y))
                return e if is_const(e) else self.setr(e, lx + lo, min(hx + hi, (1 << w) - 1), st)
        if st is not None:
            # only bounds are kept: max(a,b) <= a|b <= a+b
            v = z3.Int(fresh_name('or'))
            st.fresh.append(v)
            st.add(z3.And(v >= self.mk(a, w), v >= self.mk(b, w), v <= self._p(a) + self._p(b), v < (1 << w)))
            return self.setr(v, 0, (1 << w) - 1, st)
        raise Unsupported('or')

    def xor(self, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return a ^ b
        if is_const(b) and b == (1 << w) - 1:
            return self.sub(b, a, w, st)
        raise Unsupported('xor')

    def zext(self, a, w, w2, st=None):
        return int(a) if is_const(a) else a

    def sext(self, a, w, w2, st=None):
        if is_const(a):
            return sgn(int(a), w) & ((1 << w2) - 1)
        s, lo, hi = self.signed(a, w, st)
        if lo >= 0:
            return s
        if hi < 0:
            return self.setr(simp(s + (1 << w2)), lo + (1 << w2), hi + (1 << w2), st)
        return z3.If(a >= (1 << (w - 1)), a + ((1 << w2) - (1 << w)), a)

    def trunc(self, a, w, w2, st=None):
        if is_const(a):
            return int(a) & ((1 << w2) - 1)
        la, ha = self.rng(a, w, st)
        if ha < (1 << w2):
            return a
        return self.urem(a, 1 << w2, w, st)

    def byte(self, a, w, i, st=None):
        if is_const(a):
            return (int(a) >> (8 * i)) & 0xff
        if w == 8:
            return a
        q = self.udiv(a, 1 << (8 * i), w, st) if i else a
        return self.urem(q, 256, w, st)

    def join(self, bs, st=None):
        if all(is_const(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        e = self.canon(z3.Sum(*[self.mk(b, 8) * (1 << (8 * i)) for i, b in enumerate(bs)]))
        if is_const(e):
            return e
        return self.setr(e, 0, (1 << (8 * len(bs))) - 1, st)

    def cmp(self, pr, a, b, w, st=None):
        if is_const(a) and is_const(b):
            return _pycmp(pr, a, b, w)
        if pr[0] == 's':
            x, _, _ = self.signed(a, w, st)
            y, _, _ = self.signed(b, w, st)
            pr = pr[1:]
        else:
            x, y = a, b
            if pr[0] == 'u':
                pr = pr[1:]
            la, ha = self.rng(a, w, st)
            lb, hb = self.rng(b, w, st)
            if pr == 'lt':
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            if pr in ('eq', 'ne') and is_const(b) and w == 64:
                al = self.alias(a, st)
                if al:
                    x, y = al[1], sgn(b, 64)
                    la, ha, lb, hb = al[2], al[3], y, y
            if pr == 'eq' and (ha < lb or hb < la):
                return False
            if pr == 'ne' and (ha < lb or hb < la):
                return True
        x, y = self.mk(x, w), self.mk(y, w)
        e = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr]
        return norm_bool(e)

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if is_const(a) and is_const(b) and a == b:
            return a
        la, ha = self.rng(a, w)
        lb, hb = self.rng(b, w)
        e = self.canon(z3.If(c, self.mk(a, w), self.mk(b, w)))
        if is_const(e):
            return e
        return self.setr(e, min(la, lb), max(ha, hb))

    def ovf(self, op, a, b, w, st=None):
        if op[0] == 's':
            x, lx, hx = self.signed(a, w, st)
            y, ly, hy = self.signed(b, w, st)
            if is_const(x):
                lx = hx = x
            if is_const(y):
                ly = hy = y
        else:
            x, y = self._p(a), self._p(b)
            lx, hx = self.rng(a, w, st)
            ly, hy = self.rng(b, w, st)
        k = op[1:]
        if k == 'mul' and not (is_const(x) or is_const(y)):
            raise Unsupported('mul ovf')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[k]()
        c = [lx + ly, hx + hy] if k == 'add' else [lx - hy, hx - ly] if k == 'sub' else [lx * ly, lx * hy, hx * ly, hx * hy]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == 's' else (0, (1 << w) - 1)
        if is_const(r):
            return r % (1 << w), not (lo <= r <= hi)
        ov = False if lo <= min(c) and max(c) <= hi else z3.Or(r < lo, r > hi)
        if ov is not False and st is not None:
            if st.must(z3.Not(ov)):
                ov = False
                # tighten
                c = [max(min(c), lo), min(max(c), hi)]
        if ov is False and op[0] == 's' and min(c) < 0:
            # exact: r in signed range
            if st.must(r >= 0):
                return self.setr(simp(r), 0, hi, st), False
            if st.must(r < 0):
                return self.setr(simp(r + (1 << w)), (1 << w) + lo, (1 << w) - 1, st), False
        return self.wrap(r, min(c), max(c), w, st), (norm_bool(ov) if ov is not False else False)


# ---------------------------------------------------------------------------
# formulas of the specification language
class Forall:
    __slots__ = ('lo', 'hi', 'fn')

    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn = lo, hi, fn


class Exists(Forall):
    pass


class FAnd:
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs


class FOr(FAnd):
    pass


class FNot:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


# ---------------------------------------------------------------------------
_apps_cache = {}


def uf_apps(e, names):
    """all applications of uninterpreted functions (arity>=1) in e"""
    i = e.get_id()
    r = _apps_cache.get(i)
    if r is not None:
        return r[1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_app(x):
            n = x.num_args()
            if n and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[xi] = x
            for j in range(n):
                st.append(x.arg(j))
    r = list(out.values())
    if len(_apps_cache) > 100000:
        _apps_cache.clear()
    _apps_cache[i] = (e, r)
    return r


def has_const(e, c):
    ci = c.get_id()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi == ci:
            return True
        if xi in seen:
            continue
        seen.add(xi)
        st += x.children()
    return False


class Fact:
    """A universally quantified fact  guard => forall k. body(k).
    inst(t) returns (formula, [nested facts])."""

    def __init__(self, name, inst, triggers, defaults=()):
        self.name, self.inst, self.triggers, self.defaults = name, inst, triggers, list(defaults)
        self.done = {}


def solve_pattern(pat, k, t, dom):
    """terms t0 with pat[k:=t0] == t when pat is affine in k with small coeff."""
    one = z3.BitVecVal(1, 64) if dom.name == 'bv' else z3.IntVal(1)
    zero = z3.BitVecVal(0, 64) if dom.name == 'bv' else z3.IntVal(0)
    p0 = simp(z3.substitute(pat, (k, zero)))
    p1 = simp(z3.substitute(pat, (k, one)))
    if p0.sort() != t.sort() or p0.sort() != k.sort():
        return None
    d = simp(p1 - p0)
    if dom.name == 'bv':
        if not z3.is_bv_value(d):
            return None
        c = d.as_signed_long()
    else:
        if not z3.is_int_value(d):
            return None
        c = d.as_long()
    if c == 0:
        return None
    if simp(z3.substitute(pat, (k, k + one)) - pat).get_id() != d.get_id() and not simp(z3.substitute(pat, (k, k + one)) - pat).eq(d):
        return None
    if c == 1:
        return simp(t - p0)
    if c == -1:
        return simp(p0 - t)
    if dom.name == 'bv':
        if c > 0:
            return simp(z3.UDiv(t - p0, z3.BitVecVal(c, 64)))
        return simp(z3.UDiv(p0 - t, z3.BitVecVal(-c, 64)))
    return simp((t - p0) / c)


def make_triggers(exprs, k):
    """(decl, argument index, pattern) for every UF application mentioning k"""
    trig = []
    seen = set()
    for e in exprs:
        for a in uf_apps(e, None):
            for j in range(a.num_args()):
                p = a.arg(j)
                if p.sort() == k.sort() and has_const(p, k):
                    key = (a.decl().name(), j, p.get_id())
                    if key not in seen:
                        seen.add(key)
                        trig.append((a.decl().name(), j, p))
    return trig
