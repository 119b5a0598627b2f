"""Contracts on real functions: parameters, symbolic set-up, verification."""
import time, traceback
import z3
from smt import *
from symex import *
from vc import VC
import spec
from spec import N


class Arg:
    pass


class Buf(Arg):
    """(pointer, length in elements) pair; an array object of exactly len elements"""

    def __init__(self, name, mut=False, elem=1, null=False, maxlen=None, minlen=0, term=False, alphabet=None):
        self.name, self.mut, self.elem, self.null, self.maxlen, self.minlen = name, mut, elem, null, maxlen, minlen
        self.term = term            # object has one extra NUL byte after len
        self.alphabet = alphabet


class U(Arg):
    def __init__(self, name, w=64, vals=None):
        self.name, self.w, self.vals = name, w, vals


class I(Arg):
    def __init__(self, name, w=32, vals=None):
        self.name, self.w, self.vals = name, w, vals


class B(Arg):
    def __init__(self, name):
        self.name = name
        self.w = 1


class K(Arg):
    """fixed scalar"""

    def __init__(self, val, w=64):
        self.val, self.w, self.name = val, w, None


class Out(Arg):
    """pointer to a fixed-size mutable object with arbitrary initial contents"""

    def __init__(self, name, size, w=None):
        self.name, self.size = name, size


class PtrIn(Arg):
    """pointer into (or one past) an earlier buffer: base + symbolic offset <= len"""

    def __init__(self, name, buf):
        self.name, self.buf = name, buf


class SI:
    """signed machine integer seen by the specification"""
    __slots__ = ('neg', 'mag', 'raw')

    def __init__(self, neg, mag, raw):
        self.neg, self.mag, self.raw = neg, mag, raw


class SymBuf:
    def __init__(self, c, obj, content, ln, base=0, state=None):
        self.c, self.obj, self.content, self.len, self.base, self.st = c, obj, content, ln, base, state
        self.is_null = obj.kind == 'null'

    def __getitem__(self, k):
        e, st = self.c.eng, self.st or self.c.st
        k = e.unN(k)
        v = e.read_byte(self.content, e.addo(self.base, k, st), st)
        return N(e.dom, e.dom.zext(v, 8, 64, st), e)

    def u(self, off, n, signed=False):
        """little-endian unsigned of n bytes at byte offset off"""
        e, st = self.c.eng, self.st or self.c.st
        from ir import IntTy
        v = e.load_val(self.content, e.addo(self.base, e.unN(off), st), IntTy(8 * n), st)
        if signed:
            return sym_si(e, v, 8 * n, st)
        return N(e.dom, e.dom.zext(v, 8 * n, 64, st) if n < 8 else v, e)

    def ptr(self, off):
        e, st = self.c.eng, self.st or self.c.st
        from ir import PTR
        p = e.load_val(self.content, off, PTR, st)
        return SymPtr(self.c, p)


class SymPtr:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.is_null = isinstance(p, Ptr) and p.obj.kind == 'null' and is_const(p.off) and p.off == 0
        self.undef = not isinstance(p, Ptr)

    def inside(self, name):
        """statically: does it point into the named buffer"""
        return isinstance(self.p, Ptr) and self.p.obj is self.c.objs.get(name)

    @property
    def off(self):
        return N(self.c.eng.dom, self.p.off, self.c.eng)


def sym_si(e, v, w, st):
    D = e.dom
    if D.name == 'bv':
        neg = D.cmp('slt', v, 0, w)
        x = D.zext(v, w, 64) if w < 64 else v
        mag = D.ite(neg, D.sub(0, D.sext(v, w, 64) if w < 64 else v, 64), x, 64)
        return SI(neg, N(D, mag, e), N(D, x, e))
    neg = D.cmp('uge', v, 1 << (w - 1), w)
    if is_const(v):
        mag = (1 << w) - v if neg else v
    else:
        mag = z3.If(tobool(neg), (1 << w) - v, v)
    return SI(neg, N(D, mag, e), N(D, v, e))


class Fold:
    """recursive specification function F(0)=init, F(k+1)=step(F(k),k), w bits"""

    def __init__(self, c, name, w, init, step, spec_only=False):
        e = c.eng
        self.c, self.w = c, w
        D = e.dom
        self.uf = z3.Function(fresh_name('F_' + name), D.IDX, D.sort(w))
        if not spec_only:
            e.folds.append((self.uf, w, name))
        k = z3.Const(fresh_name('k'), D.IDX)
        iv = e.unN(init)
        if z3.is_expr(iv) and w < 64 and D.name == 'bv' and iv.size() > w:
            iv = D.trunc(iv, iv.size(), w)
        c.st.add(self.uf(D.mk(0, 64)) == D.mk(iv, w))
        if D.name == 'int':
            raise Unsupported('fold in int domain')
        cur = self.uf(k)
        val = step(N(D, D.zext(cur, w, 64) if w < 64 else cur, e), N(D, k, e))
        val = e.unN(val)
        nxt = z3.Or(z3.UGT(k, 1 << 60), self.uf(k + 1) == D.mk(D.trunc(val, 64, w) if w < 64 else val, w))
        c.st.facts.append(F('fold_' + name, k, nxt, triggers=[(self.uf.name(), 0, k), (self.uf.name(), 0, k + 1)] + make_triggers([nxt], k)))

    def __call__(self, k):
        e = self.c.eng
        v = self.uf(e.dom.mk(e.unN(k), 64))
        return N(e.dom, e.dom.zext(v, self.w, 64) if self.w < 64 else v, e)


class CFold:
    def __init__(self, name, w, init, step):
        self.vals = [init & ((1 << w) - 1)]
        self.step, self.w = step, w

    def __call__(self, k):
        while len(self.vals) <= k:
            i = len(self.vals) - 1
            self.vals.append(self.step(self.vals[i], i) & ((1 << self.w) - 1))
        return self.vals[k]


class Env:
    """what a contract sees"""

    def case(self, a, f):
        """a => f(), built only where the path allows a (pruning, not weakening)"""
        if self.sym and z3.is_expr(a):
            d = self.eng.decide(self.st, a)
            if d is False:
                return True
            if d is True:
                return f()
        return spec.Implies(a, f)

    def divmod(self, x, k):
        """quotient and remainder by a constant; shared with the code's own division of the same value"""
        if isinstance(x, int) or is_const(x.v):
            return x // k, x % k
        if self.eng.dom.name == 'bv':
            t = bv_quot(x.v, k)
            if t is not None and self.eng.proves(self.st, z3.ULT(t, ((1 << 64) - 1) // k)):
                return self.num(t), self.num(0)
            return x // k, x % k
        q, r = self.eng.dom._divmod(x.v, k, 64, self.st)
        return self.num(q), self.num(r)

    def resolve(self, f, bufs, extra=()):
        """a term of the path provably equal to the ghost value f (an index into bufs), else f itself"""
        if not self.sym or is_const(f.v):
            return f
        eng, st = self.eng, self.st
        names = {'mem_' + b for b in bufs}
        cand, seen = [], set()
        for x in extra:
            cand.append(eng.unN(x))
        for p in st.pc:
            if z3.is_expr(p):
                for a in uf_apps(p, None):
                    if a.decl().name() in names and a.arg(0).get_id() not in seen:
                        seen.add(a.arg(0).get_id())
                        cand.append(a.arg(0))
        for t in cand:
            if not is_const(t) and t.eq(f.v):
                continue
            g = norm_bool(eng.dom.cmp('eq', t, f.v, 64))
            if g is False:
                continue
            eng.sync(st.pc)
            if g is not True and eng._check(g, tmo=1500, model=False) == z3.unsat:
                continue
            if g is True or eng.proves(st, g):
                st.add(g)
                return N(eng.dom, t, eng)
        return f

    def ite(self, a, x, y):
        """x() if a else y()"""
        if self.sym and z3.is_expr(a):
            d = self.eng.decide(self.st, a)
            if d is not None:
                return x() if d else y()
            return spec.Ite(a, x(), y())
        return x() if a else y()


class SymEnv(Env):
    sym = True

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.objs = {}
        self.args = {}
        self.g = {}
        self.ret = None

    def fold(self, name, w, init, step, spec_only=False):
        f = Fold(self, name, w, init, step, spec_only)
        self.g[name] = f
        return f

    def recfun(self, name, w, axioms, conc, cand=True):
        """unary specification function given by axioms(R) (a definition by recursion); conc(R, k): the same, executable"""
        eng, st = self.eng, self.st
        D = eng.dom
        uf = z3.Function(fresh_name('R_' + name), D.IDX, D.sort(w))

        def R(k):
            v = uf(D.mk(eng.unN(k), 64))
            return N(D, D.zext(v, w, 64) if w < 64 else v, eng)
        n0 = len(st.facts)
        for f in spec._flat([axioms(R)]):
            eng.assume(st, f)
        for f in st.facts[n0:]:
            own = [t for t in f.triggers if t[0] == uf.name() and t[2].eq(f.k)]
            if own:
                f.triggers = own
                f.rec = uf.name()
        if cand:
            eng.recs.append((uf, w, name))
        self.g[name] = R
        return R

    def lemma(self, name, f, lim=1 << 57):
        """prove f(k) for all k <= lim by induction, then use it"""
        eng, st = self.eng, self.st
        eng.oblige(st, 'lemma:%s:base' % name, f(N(eng.dom, 0, eng)), 'ghost')
        st2 = st.copy()
        k, cs = eng.dom.named(fresh_name('ind'), 64)
        for x in cs:
            st2.add(x)
        kn = N(eng.dom, k, eng)
        st2.add(kn < lim)
        eng.assume(st2, f(kn))
        eng.oblige(st2, 'lemma:%s:step' % name, f(kn + 1), 'ghost')
        eng.assume(st, Forall(0, lim, f))

    def num(self, x):
        return N(self.eng.dom, x, self.eng)

    def __getattr__(self, k):
        try:
            return self.__dict__['args'][k]
        except KeyError:
            raise AttributeError(k)

    def old(self, name):
        return self.olds[name]

    def is_buf(self, name):
        return name in self.objs


class Contract:
    def __init__(self, name, fn, args, ret=None, requires=None, ensures=None, ghost=None, dom='bv', loops='rule',
                 bmc=6, cap=80, budget=200, tmo=8000, unit=None, real=None, gen=None, nat=True, variants=None, terms=None,
                 summaries=None, native_n=400, bounded=False, note=None, post_tmo=None, unroll_if=None, setup=None, thorough=False,
                 bmc_cap=None, rounds=4, short=None, cursor=None, reject=False, fold_only=False):
        self.__dict__.update(locals())
        self.unit = unit


class Report:
    def __init__(self, c):
        self.c = c
        self.name = c.name
        self.results = []
        self.error = None
        self.models = []
        self.paths = 0
        self.nq = 0
        self.tq = 0.0
        self.wall = 0.0
        self.status = None
        self.stats = {}


def setup(c, eng, bound=None):
    """symbolic arguments and pre-state; yields (env, state, argvalues) per null-variant"""
    bufs = [a for a in c.args if isinstance(a, Buf) and a.null]
    for mask in range(1 << len(bufs)):
        st = State(eng)
        env = SymEnv(eng, st)
        env.nullmask = mask
        D = eng.dom
        argv = []
        eng.terms = []
        eng.nterms = []
        eng.inputs = []
        nb = 0
        for a in c.args:
            if isinstance(a, Buf):
                isnull = False
                if a.null:
                    isnull = bool(mask >> nb & 1)
                    nb += 1
                if isnull:
                    env.objs[a.name] = NULL
                    env.args[a.name] = SymBuf(env, NULL, Base(uf=z3.Function('mem_null_' + a.name, D.IDX, D.sort(8))), N(D, 0, eng))
                    argv += [Ptr(NULL, 0), 0]
                    eng.inputs.append((a, None, 0))
                    continue
                ln, cs = D.named(a.name + '_len', 64)
                for x in cs:
                    st.add(x)
                lim = a.maxlen if a.maxlen is not None else SIZE_CAP // max(1, a.elem)
                if bound is not None:
                    lim = min(lim, max(bound, a.minlen))
                st.add(D.cmp('ule', ln, lim, 64))
                if D.name == 'int':
                    D.setr(ln, 0, lim)
                if a.minlen:
                    st.add(D.cmp('uge', ln, a.minlen, 64))
                if a.maxlen is not None and a.maxlen == a.minlen:
                    ln = a.maxlen
                uf = z3.Function('mem_' + a.name, D.IDX, D.sort(8))
                size = ln
                if a.elem != 1:
                    size = D.mul(ln, a.elem, 64, st)
                if a.term:
                    size = D.add(ln, 1, 64, st)
                o = Obj(a.name, size, 'buf', a.mut, a.elem)
                eng.objects.append(o)
                base = Base(uf=uf)
                st.mem[o.id] = base
                if a.term:
                    st.add(uf(D.mk(ln, 64)) == D.mk(0, 8))
                env.objs[a.name] = o
                env.args[a.name] = SymBuf(env, o, base, N(D, ln, eng))
                argv += [Ptr(o, 0), ln]
                if not is_const(ln):
                    eng.terms.append(ln)
                eng.inputs.append((a, uf, ln))
            elif isinstance(a, (U, I, B)):
                if isinstance(a, B):
                    v = z3.Bool(a.name)
                    env.args[a.name] = v
                else:
                    v, cs = D.named(a.name, a.w)
                    for x in cs:
                        st.add(x)
                    if isinstance(a, U):
                        env.args[a.name] = N(D, D.zext(v, a.w, 64, st) if a.w < 64 else v, eng)
                        if a.w == 64 and D.name == 'bv':
                            eng.terms.append(v)
                    else:
                        env.args[a.name] = sym_si(eng, v, a.w, st)
                    if a.w < 64 and D.name == 'bv':
                        eng.nterms.append((a.name, D.zext(v, a.w, 64, st)))
                argv.append(v)
                eng.inputs.append((a, None, v))
            elif isinstance(a, K):
                argv.append(a.val if a.w > 1 else bool(a.val))
                eng.inputs.append((a, None, a.val))
            elif isinstance(a, Out):
                uf = z3.Function('mem_' + a.name, D.IDX, D.sort(8))
                o = Obj(a.name, a.size, 'buf', True, 16)
                eng.objects.append(o)
                base = Base(uf=uf)
                st.mem[o.id] = base
                env.objs[a.name] = o
                env.args[a.name] = SymBuf(env, o, base, a.size)
                argv.append(Ptr(o, 0))
                eng.inputs.append((a, uf, a.size))
            elif isinstance(a, PtrIn):
                off, cs = D.named(a.name + '_off', 64)
                for x in cs:
                    st.add(x)
                o = env.objs[a.buf]
                st.add(D.cmp('ule', off, o.size, 64))
                env.args[a.name] = N(D, off, eng)
                argv.append(Ptr(o, off))
                eng.terms.append(off)
                eng.inputs.append((a, None, off))
        env.olds = dict(env.args)
        yield env, st, argv


def post_env(c, env, st):
    """environment over a return state"""
    eng = env.eng
    if c.loops == 'unroll':
        eng.concretise_mem(st)
    e2 = SymEnv(eng, st)
    e2.objs = env.objs
    e2.nullmask = env.nullmask
    e2.g = env.g
    e2.olds = {}
    for k, v in env.args.items():
        if isinstance(v, SymBuf):
            o = v.obj
            e2.olds[k] = SymBuf(e2, o, v.content, v.len)
            e2.args[k] = SymBuf(e2, o, st.mem.get(o.id, v.content), v.len) if o.kind != 'null' else v
        else:
            e2.args[k] = v
            e2.olds[k] = v
    r = st.ret
    if c.loops == 'unroll' and isinstance(c.ret, U) and r is not None:
        r = eng.concretise(st, r, c.ret.w)
    if c.ret is None:
        e2.ret = None
    elif isinstance(c.ret, B):
        e2.ret = eng.tob(r)
    elif isinstance(c.ret, U):
        e2.ret = N(eng.dom, eng.dom.zext(r, c.ret.w, 64, st) if c.ret.w < 64 else r, eng)
    elif isinstance(c.ret, I):
        e2.ret = sym_si(eng, r, c.ret.w, st)
    return e2


def extract_model(eng, m, c):
    """concrete inputs from a z3 model: dict name -> value"""
    out = {}
    small = True
    for a, uf, v in eng.inputs:
        if isinstance(a, (Buf, Out)):
            if uf is None:
                out[a.name] = None
                continue
            ln = v if is_const(v) else m.eval(v, model_completion=True).as_long()
            nbytes = ln * (a.elem if isinstance(a, Buf) else 1)
            if nbytes > (1 << 18):
                return None
            bs = bytearray()
            for k in range(nbytes):
                x = m.eval(uf(eng.dom.mk(k, 64)), model_completion=True)
                bs.append(x.as_long() & 0xff)
            out[a.name] = bytes(bs)
        elif isinstance(a, B):
            out[a.name] = z3.is_true(m.eval(v, model_completion=True))
        elif isinstance(a, K):
            pass
        elif isinstance(a, PtrIn):
            out[a.name] = m.eval(v, model_completion=True).as_long()
        else:
            x = m.eval(v, model_completion=True).as_long()
            if isinstance(a, I):
                x = sgn(x, a.w)
            out[a.name] = x
    return out


def verify(c, mod, mode='prove', bound=None, budget=None, deadline=None, tmul=1, dom=None):
    """mode 'prove': unbounded (or complete unrolling); 'bmc': bounded search"""
    rep = Report(c)
    t0 = time.time()
    spec._SYM[0] = True
    try:
        dom = BVDom() if ((dom or c.dom) == 'bv') else IntDom()
        bm = mode == 'bmc'
        nv = sum(1 for a in c.args if isinstance(a, Buf) and a.null)
        for mask in range(1 << nv):
            eng = VC(mod, dom, loops=('unroll' if bm else c.loops), unroll_cap=(c.bmc_cap or 40 if bm else c.cap), timeout_ms=c.tmo * tmul,
                     budget=(budget or c.budget), bmc=bm)
            eng.tmul = tmul
            eng.reject = c.reject
            if c.short is not None:
                eng.SHORT = c.short
            if c.summaries:
                eng.summaries = dict(c.summaries)
            for i, (env, st, argv) in enumerate(setup(c, eng, bound if bm else None)):
                if i == mask:
                    break
            eng.objects = [o for o in eng.objects if o in env.objs.values()]
            err = None
            try:
                if c.ghost:
                    c.ghost(env)
                if c.requires:
                    for f in spec._flat([c.requires(env)]):
                        eng.assume(st, f)
                if c.cursor:
                    # positions held by cursor variables: absent (npos) or satisfying the given predicate
                    for pr in c.cursor(env):
                        eng.cursors.append(lambda x, pr=pr, env=env: pr(N(eng.dom, x, eng)))
                eng.fold_only = c.fold_only
                if c.terms:
                    eng.terms += [eng.unN(x) for x in c.terms(env)]
                if not eng.feasible(st):
                    rep.stats['vacuous_variant'] = rep.stats.get('vacuous_variant', 0) + 1
                    continue
                eng.start(st, '@' + c.fn, argv)
                _, _, rets = eng.run(st)
                live = 0
                for r in rets:
                    e2 = post_env(c, env, r)
                    if c.ensures:
                        for label, f in c.ensures(e2):
                            eng.oblige(r, 'post:' + label, f, c.fn)
                    live += 1
                rep.stats['returns'] = rep.stats.get('returns', 0) + live
                eng.discharge(st)
            except Stop as e:
                err = 'budget: %s' % e
                if bm and 'counterexample' in str(e):
                    err = None
            rep.results += eng.results
            for r in eng.results:
                if r.status == 'fail' and r.model is not None and len(rep.models) < 8:
                    try:
                        mi = extract_model(eng, r.model, c)
                        if mi is not None:
                            rep.models.append((r.kind + ' @ ' + str(r.loc), mi))
                    except Exception as e:
                        pass
            rep.paths += eng.paths
            rep.nq += eng.nq
            rep.tq += eng.tq
            for k, v in eng.stats.items():
                rep.stats[k] = rep.stats.get(k, 0) + v
            if eng.capped:
                rep.stats['capped'] = True
            if err:
                rep.error = err
                break
    except Unsupported as e:
        rep.error = 'unsupported: %s' % e
    except (z3.Z3Exception, RecursionError, KeyError, TypeError, AttributeError, AssertionError, IndexError, ValueError) as e:
        rep.error = 'internal: %s: %s' % (type(e).__name__, e)
        rep.trace = traceback.format_exc()
    finally:
        spec._SYM[0] = False
    rep.wall = time.time() - t0
    bad = [r for r in rep.results if r.status != 'ok']
    if rep.error:
        rep.status = 'undecided'
    elif any(r.status == 'fail' for r in bad):
        rep.status = 'refuted'
    elif bad:
        rep.status = 'undecided'
    elif not rep.results or not rep.stats.get('returns'):
        rep.status = 'vacuous'
    else:
        rep.status = 'proved'
    return rep
