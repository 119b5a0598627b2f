"""Path-wise verification condition generator for LLVM IR with an inductive
rule for loops (see DESIGN.md)."""
import time, re
import z3
from smt import *
import ir

SIZE_CAP = 1 << 56      # objects are smaller than this (address space)


class Stop(Exception):
    pass


class Obj:
    _n = 0

    def __init__(self, name, size, kind, writable=True, align=1):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.size, self.kind, self.writable, self.align = name, size, kind, writable, align
        self.base = None
        self.fn = None

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


NULL = Obj('null', 0, 'null', False)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj.name, self.off)


class Undef:
    pass


UNDEF = Undef()


# ---- memory contents: persistent layers ------------------------------------
class Base:
    """uninterpreted / constant / zero initial contents"""
    __slots__ = ('uf', 'data', 'vals', 'prev')

    def __init__(self, uf=None, data=None, vals=None):
        self.uf, self.data, self.vals, self.prev = uf, data, vals, None


class St:
    __slots__ = ('prev', 'off', 'size', 'val', 'w')

    def __init__(self, prev, off, size, val, w):
        self.prev, self.off, self.size, self.val, self.w = prev, off, size, val, w


class Copy:
    __slots__ = ('prev', 'off', 'len', 'src', 'soff')

    def __init__(self, prev, off, len_, src, soff):
        self.prev, self.off, self.len, self.src, self.soff = prev, off, len_, src, soff


class Fill:
    __slots__ = ('prev', 'off', 'len', 'val')

    def __init__(self, prev, off, len_, val):
        self.prev, self.off, self.len, self.val = prev, off, len_, val


class Site:
    """one affine store site of a loop: offset = off0 + stride*m, value V(m) if W(m)"""
    __slots__ = ('off0', 'stride', 'size', 'V', 'W')

    def __init__(self, off0, stride, size, V, W):
        self.off0, self.stride, self.size, self.V, self.W = off0, stride, size, V, W


class LoopW:
    __slots__ = ('prev', 'site', 'n')

    def __init__(self, prev, site, n):
        self.prev, self.site, self.n = prev, site, n


class Hav:
    """unknown contents at loop iteration n: M(n,k)"""
    __slots__ = ('prev', 'M', 'n')

    def __init__(self, M, n):
        self.prev, self.M, self.n = None, M, n


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'dst', 'counts')

    def __init__(self, fn, regs, dst):
        self.fn, self.regs, self.dst = fn, regs, dst
        self.blk = fn.order[0].name
        self.prev = None
        self.ip = 0
        self.counts = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.dst, f.blk, f.prev, f.ip = self.fn, dict(self.regs), self.dst, self.blk, self.prev, self.ip
        f.counts = self.counts
        return f


class State:
    def __init__(self, eng):
        self.root = eng
        self.pc, self.facts, self.fresh, self.divs = [], [], [], []
        self.iv = {}
        self.sal = {}
        self.mem = {}
        self.frames = []
        self.pend = None
        self.ret = None
        self.done = set()
        self.log = []

    def copy(self):
        s = State(self.root)
        s.iv = dict(self.iv)
        s.sal = dict(self.sal)
        s.pc, s.facts, s.fresh, s.divs = list(self.pc), list(self.facts), list(self.fresh), list(self.divs)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pend = self.pend
        s.done = set(self.done)
        s.log = list(self.log)
        return s

    def add(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)

    def must(self, c):
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        return self.root.valid(self, c)

    def sat(self, c=True):
        return self.root.feasible(self, c)


class F:
    """quantified fact in closed form; see smt.py"""

    def __init__(self, name, k, phi, nested=(), syms=(), triggers=None, defaults=(), guard=True, pats=()):
        self.name, self.k, self.phi, self.nested, self.syms = name, k, phi, list(nested), list(syms)
        self.defaults = list(defaults)
        self.guard = guard
        self.pats = list(pats)
        if triggers is None:
            triggers = make_triggers([phi], k)
        self.triggers = triggers
        self.cache = {}
        self.rec = None

    def subst(self, cs, fs):
        return F(self.name, self.k, _sub(self.phi, cs, fs), [g.subst(cs, fs) for g in self.nested], self.syms,
                 [(_fname(d, fs), j, _sub(p, cs, fs)) for d, j, p in self.triggers],
                 [_sub(d, cs, fs) for d in self.defaults], self.guard if self.guard is True else _sub(self.guard, cs, fs), [_sub(p, cs, fs) for p in self.pats])

    def inst(self, t):
        ti = t.get_id()
        r = self.cache.get(ti)
        if r:
            return r[1], r[2]
        cs = [(self.k, t)]
        fs = []
        for s in self.syms:
            if isinstance(s, z3.FuncDeclRef):
                nf = z3.Function(fresh_name(s.name().split('!')[0]), *([s.domain(i) for i in range(s.arity())] + [s.range()]))
                fs.append((s, nf))
            else:
                cs.append((s, z3.Const(fresh_name(s.decl().name().split('!')[0]), s.sort())))
        phi = _sub(self.phi, cs, fs)
        if self.guard is not True:
            phi = z3.Implies(self.guard, phi)
        nest = [g.subst(cs, fs) for g in self.nested]
        if self.guard is not True:
            for g in nest:
                g.guard = self.guard if g.guard is True else z3.And(self.guard, g.guard)
        self.cache[ti] = (t, phi, nest)
        return phi, nest


def _fname(d, fs):
    for a, b in fs:
        if a.name() == d:
            return b.name()
    return d


def _sub(e, cs, fs):
    if is_const(e):
        return e
    if cs:
        e = z3.substitute(e, *cs)
    if fs:
        e = z3.substitute_funs(e, *[(a, b(*[z3.Var(i, a.domain(i)) for i in range(a.arity())])) for a, b in fs])
    return e


def linear(e):
    """linear integer term -> ({id:(var,coef)}, const) or None"""
    co, c0 = {}, 0
    st = [(e, 1)]
    while st:
        x, k = st.pop()
        if z3.is_int_value(x):
            c0 += k * x.as_long()
        elif z3.is_add(x):
            st += [(y, k) for y in x.children()]
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            st.append((x.arg(1), k * x.arg(0).as_long()))
        elif z3.is_sub(x):
            ch = x.children()
            st.append((ch[0], k))
            st += [(y, -k) for y in ch[1:]]
        else:
            i = x.get_id()
            v, c = co.get(i, (x, 0))
            co[i] = (x, c + k)
    return co, c0


def _tsize(t):
    n, st, seen = 0, [t], set()
    while st and n < 200:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        st += x.children()
    return n


class Result:
    def __init__(self, kind, loc, status, info=None, model=None, t=0.0):
        self.kind, self.loc, self.status, self.info, self.model, self.t = kind, loc, status, info, model, t


class Engine:
    def __init__(self, mod, dom, loops='rule', unroll_cap=80, timeout_ms=8000, budget=300, bmc=False):
        self.mod, self.dom, self.loops, self.cap = mod, dom, loops, unroll_cap
        self.bmc = bmc
        self.tmo = timeout_ms
        self.solver = z3.Solver()
        self.stack = []
        self.results = []           # discharged/failed obligations
        self.obl = [[]]             # deferred obligations, per region
        self.globals = {}
        self.plans = {}
        self.folds = []             # (uf, width) contract folds for loop candidates
        self.nterms = []
        self.fold_only = False      # fold contracts: no ordering candidates for the accumulator
        self.terms = []             # interesting 64-bit terms (lengths) for loop candidates
        self.inv_templates = []
        self.recs = []
        self.cursors = []
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.nq = 0
        self._keep = []
        self.tq = 0.0
        self.paths = 0
        self.summaries = {}
        self.capped = False
        self.stats = {'loops_rule': 0, 'loops_unrolled': 0}
        self.notes = []
        self.stop_on_fail = bmc

    # ---- solver ---------------------------------------------------------------
    def check_time(self):
        if time.time() > self.deadline:
            raise Stop('time budget')

    def sync(self, pc):
        s, i = self.stack, 0
        n = min(len(s), len(pc))
        while i < n and s[i] is pc[i]:
            i += 1
        if len(s) > i:
            self.solver.pop(len(s) - i)
            del s[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def _check(self, *ext, tmo=None, model=True):
        self.check_time()
        self.nq += 1
        t = time.time()
        self.solver.set('timeout', tmo * getattr(self, 'tmul', 1) if tmo else self.tmo)
        self.solver.push()
        for e in ext:
            self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat and model:
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                m = None
        self.solver.pop()
        self.tq += time.time() - t
        self.lastmodel = m
        return r

    def feasible(self, st, c=True):
        if c is False:
            return False
        self.sync(st.pc)
        return self._check(*([] if c is True else [c]), tmo=2000, model=False) != z3.unsat

    def valid(self, st, c):
        self.sync(st.pc)
        return self._check(z3.Not(c), tmo=1500, model=False) == z3.unsat

    def concretise(self, st, v, w):
        """the constant equal to v on this path, if there is exactly one"""
        if is_const(v) or not z3.is_expr(v):
            return v
        self.sync(st.pc)
        r = self._check(tmo=2000)
        m = self.lastmodel
        if r != z3.sat or m is None:
            return v
        x = m.eval(v, model_completion=True)
        try:
            x = x.as_long()
        except AttributeError:
            return v
        if self.valid(st, v == self.dom.mk(x, w)):
            return x
        return v

    def concretise_mem(self, st):
        """replace store offsets that have a single value on this path by it"""
        todo = []
        for oid, c in st.mem.items():
            while c is not None:
                if isinstance(c, (St, Copy, Fill)) and not is_const(c.off):
                    todo.append(c.off)
                c = c.prev
        if len(todo) < 3:
            return
        self.sync(st.pc)
        r = self._check(tmo=2000)
        m = self.lastmodel
        if r != z3.sat or m is None:
            return
        vals = {}
        for t in todo:
            x = m.eval(t, model_completion=True)
            try:
                vals[t.get_id()] = (t, x.as_long())
            except AttributeError:
                return
        eqs = [t == self.dom.mk(x, 64) for t, x in vals.values()]
        if not self.valid(st, z3.And(*eqs)):
            return
        for oid, c in list(st.mem.items()):
            chain = []
            while isinstance(c, (St, Copy, Fill)):
                chain.append(c)
                c = c.prev
            for x in reversed(chain):
                o = x.off if is_const(x.off) else vals[x.off.get_id()][1]
                if isinstance(x, St):
                    c = St(c, o, x.size, x.val, x.w)
                elif isinstance(x, Copy):
                    c = Copy(c, o, x.len, x.src, x.soff)
                else:
                    c = Fill(c, o, x.len, x.val)
            st.mem[oid] = c

    def decide(self, st, c):
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        if self.valid(st, c):
            return True
        if self.valid(st, z3.Not(c)):
            return False
        return None

    # ---- spec formulas ----------------------------------------------------------
    def nnf(self, f, pos, facts, syms, st):
        if isinstance(f, bool):
            return z3.BoolVal(f == pos)
        if z3.is_expr(f):
            return f if pos else z3.Not(f)
        if isinstance(f, FNot):
            return self.nnf(f.f, not pos, facts, syms, st)
        if isinstance(f, FAnd):
            conj = (not isinstance(f, FOr)) == pos
            if conj:
                return z3.And(*[self.nnf(x, pos, facts, syms, st) for x in f.fs]) if f.fs else z3.BoolVal(True)
            out = []
            for x in f.fs:
                fl = []
                p = self.nnf(x, pos, fl, syms, st)
                if fl:
                    g = z3.Bool(fresh_name('g'))
                    syms.append(g)
                    for q in fl:
                        q.guard = g if q.guard is True else z3.And(g, q.guard)
                    facts += fl
                    p = z3.And(g, p)
                out.append(p)
            return z3.Or(*out) if out else z3.BoolVal(False)
        if isinstance(f, Forall):
            ex = isinstance(f, Exists) == pos
            lo, hi = self.unN(f.lo), self.unN(f.hi)
            if is_const(lo) and is_const(hi) and hi - lo <= 64:
                fs = [f.fn(self.N(i)) for i in range(lo, hi)]
                return self.nnf((FOr if isinstance(f, Exists) else FAnd)(fs), pos, facts, syms, st)
            k = z3.Const(fresh_name('k'), self.dom.IDX)
            rng = b_and(self.dom.cmp('ule', lo, k, 64), self.dom.cmp('ult', k, hi, 64))
            mark, fmark = len(st.pc), len(st.fresh)
            st.add(rng if rng is not True else z3.BoolVal(True))
            sdone = set(st.done)
            body = f.fn(self.N(k))
            st.done = sdone
            defs = st.pc[mark + 1:]
            del st.pc[mark:]
            fsyms = st.fresh[fmark:]
            del st.fresh[fmark:]
            if ex:
                syms.append(k)
                syms += fsyms
                sub = self.nnf(body, pos, facts, syms, st)
                return z3.And(tobool(rng), *(defs + [sub]))
            nf, ns = [], list(fsyms)
            sub = self.nnf(body, pos, nf, ns, st)
            phi = z3.Implies(tobool(rng), z3.And(*(defs + [sub])))
            if rng is not True:
                for q in nf:
                    q.guard = rng if q.guard is True else z3.And(rng, q.guard)
            dl = []
            if not is_const(lo):
                dl.append(lo)
            else:
                dl.append(self.dom.mk(lo, 64))
            if not is_const(hi):
                dl.append(self.dom.mk(self.dom.sub(hi, 1, 64, st), 64) if self.dom.name == 'bv' else simp(hi - 1))
            facts.append(F('spec', k, phi, nf, ns, defaults=dl))
            return z3.BoolVal(True)
        raise Unsupported('formula %r' % (f,))

    def N(self, x):
        from spec import N
        return N(self.dom, x, self)

    def unN(self, x):
        from spec import N
        return x.v if isinstance(x, N) else x

    def assume(self, st, f):
        facts, syms = [], []
        p = self.nnf(f, True, facts, syms, st)
        st.add(norm_bool(p))
        st.facts += facts
        st.fresh += syms

    # ---- prover -------------------------------------------------------------------
    def hard(self, forms, tmo):
        """one-shot solver with preprocessing, for queries the incremental core gives up on"""
        self.check_time()
        t = time.time()
        self.nq += 1
        if self.dom.name == 'int':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
        else:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
        s.set('timeout', tmo)
        for f in forms:
            s.add(f)
        r = s.check()
        self.lastmodel = s.model() if r == z3.sat else None
        self.tq += time.time() - t
        self.nhard = getattr(self, 'nhard', 0) + 1
        if r == z3.unknown:
            r = self.cvc5(forms, tmo)
        return r

    def cvc5(self, forms, tmo):
        import subprocess
        s = z3.Solver()
        for f in forms:
            s.add(f)
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % tmo], input='(set-logic ALL)\n' + s.to_smt2(),
                               capture_output=True, text=True, timeout=tmo / 1000.0 + 5)
            o = p.stdout.strip()
        except (subprocess.TimeoutExpired, OSError):
            o = ''
        self.tq += time.time() - t
        self.ncvc5 = getattr(self, 'ncvc5', 0) + 1
        return z3.unsat if o == 'unsat' else z3.unknown

    def check2(self, st, forms, tmo):
        """incremental first, then one-shot"""
        tmo = tmo or self.tmo
        if self.dom.name != 'int':
            r = self._check(*forms, tmo=1000)
            if r != z3.unknown:
                return r
            t = time.time()
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', tmo)
            s.add(*st.pc)
            s.add(*forms)
            self.nq += 1
            r = s.check()
            self.lastmodel = s.model() if r == z3.sat else None
            self.tq += time.time() - t
            self.check_time()
            if r == z3.unknown and tmo > 3000:
                r = self.hard(list(st.pc) + list(forms), tmo)
            return r
        q = 1000
        r = self._check(*forms, tmo=q)
        if r == z3.unknown and tmo > q or r == z3.unknown and self.dom.name == 'int':
            r = self.hard(list(st.pc) + list(forms), tmo)
        return r

    def prove(self, st, goal, rounds=4, tmo=None, wall=None):
        """-> ('ok'|'fail'|'unknown', model)"""
        if goal is True:
            return 'ok', None
        parts = None
        if isinstance(goal, FAnd) and not isinstance(goal, FOr):
            parts = goal.fs
        elif z3.is_expr(goal) and z3.is_and(goal):
            parts = goal.children()
        elif z3.is_expr(goal) and z3.is_or(goal):
            ands = [c for c in goal.children() if z3.is_and(c)]
            if len(ands) == 1:
                oth = [c for c in goal.children() if not z3.is_and(c)]
                parts = [z3.Or(*(oth + [x])) for x in ands[0].children()]
        elif isinstance(goal, FOr):
            ands = [c for c in goal.fs if (isinstance(c, FAnd) and not isinstance(c, FOr))]
            if len(ands) == 1:
                oth = [c for c in goal.fs if c is not ands[0]]
                parts = [FOr(oth + [x]) for x in ands[0].fs]
        if parts is not None and len(parts) <= 64:
            for p in parts:
                r, m = self.prove(st, norm_bool(p) if z3.is_expr(p) else p, rounds, tmo, wall)
                if r != 'ok':
                    return r, m
            return 'ok', None
        if goal is False:
            goal = z3.BoolVal(False)
        facts, syms = [], []
        save = list(st.pc)
        neg = self.nnf(goal, False, facts, syms, st)
        self.sync(st.pc)
        if not st.facts and not facts:
            r = self.check2(st, [neg], tmo)
            if r == z3.unsat:
                return 'ok', None
            return ('fail', self.small_model(st, [neg])) if r == z3.sat else ('unknown', self.lastmodel)
        r = self._check(neg, tmo=1000)
        if r == z3.unsat:
            return 'ok', None
        allf = st.facts + facts
        ground = [neg] + list(st.pc)
        inst = [neg]
        done = set()
        apps = {}
        skol = [x for x in syms if not isinstance(x, z3.FuncDeclRef) and x.sort() == self.dom.IDX]
        pool = []           # candidate instances not yet asserted
        model = self.lastmodel
        total = 0
        depth = {}
        t_end = time.time() + wall * getattr(self, 'tmul', 1) if wall else None
        for rd in range(rounds * 4):
            self.check_time()
            if t_end and time.time() > t_end:
                return 'unknown', None
            for g in ground:
                dg = depth.get(g.get_id(), 0)
                for a in uf_apps(g, None):
                    apps.setdefault(a.decl().name(), {})[a.get_id()] = a
                    if depth.get(a.get_id(), 99) > dg:
                        depth[a.get_id()] = dg
            ground = []
            if total < 3000:
                for f in allf:
                    cands = {}
                    for d, j, p in f.triggers:
                        for a in list(apps.get(d, {}).values()):
                            if j >= a.num_args():
                                continue
                            kk = (id(f), d, j, p.get_id(), a.get_id())
                            if kk in done or f.rec and depth.get(a.get_id(), 0) > 1:
                                continue
                            done.add(kk)
                            t = solve_pattern(p, f.k, a.arg(j), self.dom)
                            if t is not None:
                                cands[t.get_id()] = t
                    if (id(f), 's') not in done and (f.pats or f.name == 'spec'):
                        done.add((id(f), 's'))
                        for p in f.pats or [f.k]:
                            for sk in skol:
                                t = solve_pattern(p, f.k, sk, self.dom)
                                if t is not None:
                                    cands[t.get_id()] = t
                    if (id(f), 'd') not in done:
                        done.add((id(f), 'd'))
                        for t in f.defaults:
                            cands[t.get_id()] = t
                    for t in cands.values():
                        key = (id(f), t.get_id())
                        if key in done:
                            continue
                        done.add(key)
                        total += 1
                        phi, nest = f.inst(t)
                        pool.append((phi, nest, f, t))
            if not pool:
                break
            new, rest = [], []
            for it in pool:
                v = None
                if model is not None:
                    v = model.eval(it[0], model_completion=True)
                if v is None or not z3.is_true(v):
                    new.append(it)
                else:
                    rest.append(it)
            if not new:
                # everything holds in the candidate model; open nested facts
                new = [it for it in rest if it[1]]
                rest = [it for it in rest if not it[1]]
                if not new:
                    break
            if len(new) > 60:
                new.sort(key=lambda it: _tsize(it[3]))
                rest += new[60:]
                new = new[:60]
            pool = rest
            for phi, nest, f, t in new:
                if f.rec:
                    depth[phi.get_id()] = 1 + min([depth.get(a.get_id(), 0) for a in uf_apps(phi, None) if a.decl().name() == f.rec and a.arg(0).eq(t)] or [0])
                ground.append(phi)
                allf = allf + nest
                self._keep.append(f)
            inst += ground
            r = self.check2(st, inst, tmo)
            if r == z3.unsat:
                return 'ok', None
            model = self.lastmodel
            if r == z3.unknown:
                break
        return ('fail', self.small_model(st, inst)) if r == z3.sat else ('unknown', self.lastmodel)

    def small_model(self, st, inst):
        """a counterexample with short buffers, where there is one (so that it can be executed)"""
        m = self.lastmodel
        try:
            lens = [v for a, uf, v in getattr(self, 'inputs', []) if uf is not None and not is_const(v)]
            if lens and m is not None:
                for lim in (300, 5000, 100000):
                    if all(m.eval(v, model_completion=True).as_long() <= lim for v in lens):
                        return m
                    r = self.check2(st, inst + [norm_bool(self.dom.cmp('ule', v, lim, 64)) for v in lens], 4000)
                    if r == z3.sat and self.lastmodel is not None:
                        return self.lastmodel
        except Stop:
            pass
        return m

    def oblige(self, st, kind, goal, loc):
        """record a proof obligation on the current path, then assume it"""
        if isinstance(goal, bool) or z3.is_expr(goal):
            goal = norm_bool(goal)
        if goal is True:
            self.obl[-1].append(('ok', kind, loc))
            return
        key = (kind, goal.get_id() if z3.is_expr(goal) else id(goal))
        if z3.is_expr(goal) and key in st.done:
            return
        quick = False
        if goal is False:
            self.sync(st.pc)
            quick = self._check(tmo=2000) == z3.unsat
        elif z3.is_expr(goal):
            quick = self.valid(st, goal)
        if quick:
            self.obl[-1].append(('ok', kind, loc))
        else:
            self.obl[-1].append(('todo', kind, loc, list(st.pc), list(st.facts), goal))
        if z3.is_expr(goal):
            if not quick:
                st.add(goal)
            st.done.add(key)
            self._keepg = getattr(self, '_keepg', [])
            self._keepg.append(goal)

    def discharge(self, st0):
        """discharge everything deferred at top level"""
        todo = self.obl[0]
        self.obl[0] = []
        seen = {}
        for o in todo:
            if o[0] == 'ok':
                self.results.append(Result(o[1], o[2], 'ok'))
                continue
            if o[0] in ('cap', 'unk'):
                self.results.append(Result(o[1], o[2], 'unknown', o[0]))
                continue
            if o[0] == 'noterm':
                self.results.append(Result(o[1], o[2], 'unknown', 'no decreasing measure found'))
                continue
            _, kind, loc, pc, facts, goal = o
            s = State(self)
            s.pc, s.facts = pc, facts
            t = time.time()
            try:
                r, m = self.prove(s, goal)
            except Stop:
                r, m = 'unknown', None
            self.results.append(Result(kind, loc, r, str(goal)[:3000] if z3.is_expr(goal) or isinstance(goal, bool) else 'spec', m, time.time() - t))
            if r != 'ok' and self.stop_on_fail and r == 'fail':
                raise Stop('counterexample')

    # ---- memory -------------------------------------------------------------------
    def diff(self, a, b):
        """python int signed difference a-b if syntactically constant, else None"""
        if is_const(a) and is_const(b):
            return a - b
        if self.dom.name == 'bv':
            d = self.dom.sub(a, b, 64)
            return sgn(d, 64) if is_const(d) else None
        d = simp(self.dom.mk(a, 64) - self.dom.mk(b, 64))
        return d.as_long() if z3.is_int_value(d) else None

    def addo(self, a, b, st):
        """offset arithmetic"""
        if self.dom.name == 'bv':
            return self.dom.add(a, b, 64, st)
        e = self.dom._p(a) + self.dom._p(b)
        if is_const(e):
            return e
        return self.dom.canon(e)

    def subo(self, a, b, st):
        if self.dom.name == 'bv':
            return self.dom.sub(a, b, 64, st)
        e = self.dom._p(a) - self.dom._p(b)
        if is_const(e):
            return e
        return self.dom.canon(e)

    def base_byte(self, b, k, st):
        if b.data is not None:
            if is_const(k):
                if 0 <= k < len(b.data):
                    v = b.data[k]
                    return v
                return 0
            # ite chain
            e = None
            n = len(b.data)
            if any(not isinstance(x, int) for x in b.data):
                raise Unsupported('symbolic index into pointer table')
            if self.dom.name == 'bv' and n > 4:
                return self.table(b, k)
            if n > 32 and st is not None:
                f = self.table_fit(b, k, st)
                if f is not None:
                    return f
            kk = self.dom.mk(k, 64)
            if n > 8:
                # runs of equal or of consecutive values: (start, value, step)
                runs = []
                for i, x in enumerate(b.data):
                    if runs:
                        i0, x0, d = runs[-1]
                        if d is None and i == i0 + 1 and x - x0 in (0, 1):
                            runs[-1] = (i0, x0, x - x0)
                            continue
                        if d is not None and x == x0 + d * (i - i0):
                            continue
                    runs.append((i, x, None))
                hi = self.dom.rng(kk, 64, st)[1]
                while len(runs) > 1 and runs[-1][0] > hi:
                    runs.pop()
                if len(runs) <= 16 and st is not None and st.must(z3.And(kk >= 0, kk < n)):
                    val = lambda r: z3.IntVal(r[1]) if r[2] == 0 or r[2] is None else kk + (r[1] - r[0])
                    e = val(runs[-1])
                    for r, nx in reversed(list(zip(runs[:-1], runs[1:]))):
                        e = z3.If(kk < nx[0], val(r), e)
                    self.dom.setr(e, min(b.data), max(b.data), st)
                    return e
            e = self.dom.mk(b.data[n - 1], 8)
            for i in range(n - 2, -1, -1):
                e = z3.If(kk == i, self.dom.mk(b.data[i], 8), e)
            return e
        if b.uf is not None:
            e = b.uf(self.dom.mk(k, 64))
            if self.dom.name == 'int':
                self.dom.setr(e, 0, 255)
                if st is not None and e.get_id() not in st.done:
                    st.add(z3.And(e >= 0, e <= 255))
                    st.done.add(e.get_id())
                    self._keepg = getattr(self, '_keepg', [])
                    self._keepg.append(e)
            return e
        return self.dom.fresh(st, 'undef', 8)

    def table_fit(self, b, k, st):
        """integer encoding: closed form of a constant table, checked
        exhaustively against the table data (up to 3 exceptional entries)"""
        D = self.dom
        data = b.data
        n = len(data)
        while n and data[n - 1] == 0:
            n -= 1
        best = None
        for per in (1, 2):
            parts = []
            for p in range(per):
                seq = [(x, data[x * per + p]) for x in range((n - p + per - 1) // per)]
                cand = None
                for d in (1, 10, 100, 16):
                    for m in (10, 16, 1 << 20):
                        c = seq[0][1] - 0
                        exc = [(x, y) for x, y in seq if y != c + (x // d) % m]
                        if len(exc) <= 3 and (cand is None or len(exc) < len(cand[3])):
                            cand = (c, d, m, exc)
                parts.append(cand)
            if all(parts):
                best = (per, parts)
                break
        if best is None:
            return None
        per, parts = best
        kk = D.mk(k, 64)
        if not st.must(z3.And(kk >= 0, kk < n)):
            return None
        key = ('table', id(b), kk.get_id())
        for (k0, v, _, _) in st.divs:
            if k0 == key:
                return v
        D.setr(kk, 0, n - 1, st)
        if per == 1:
            x, r = k, 0
        else:
            lin = linear(kk)
            if lin is not None and all(c % per == 0 for v_, c in lin[0].values()):
                x = D.canon(z3.Sum(*([v_ * (c // per) for v_, c in lin[0].values()] + [z3.IntVal(lin[1] // per)])))
                r = lin[1] % per
                if not is_const(x):
                    D.setr(x, 0, (n - 1) // per, st)
            else:
                x, r = D._divmod(k, per, 64, st)
        if is_const(x):
            return data[x * per + r] if is_const(r) else None
        v = None
        for p in range(per - 1, -1, -1):
            c, d, m, exc = parts[p]
            q = x if d == 1 else D._divmod(x, d, 64, st)[0]
            if m < (1 << 20):
                q = D._divmod(q, m, 64, st)[1]
            e = D.mk(q, 64) + c
            for ex, ey in exc:
                e = z3.If(D.mk(x, 64) == ex, z3.IntVal(ey), e)
            if is_const(r):
                if r == p:
                    v = e
                continue
            v = e if v is None else z3.If(D.mk(r, 64) == p, e, v)
        v = simp(v)
        if per == 2 and not is_const(r):
            dz = self.decide(st, r == 0)
            if dz is not None:
                v = simp(z3.substitute(v, (r, z3.IntVal(0 if dz else 1))))
        D.setr(v, min(data[:n]), max(data[:n]), st)
        st.divs = st.divs + [(key, v, kk, b)]
        return v

    def table(self, b, k):
        """balanced ite tree over index bits: value of a constant table"""
        n = len(b.data)
        bits = max(1, (n - 1).bit_length())
        kk = self.dom.mk(k, 64)

        def rec(lo, bit):
            if lo >= n:
                return None
            if bit < 0:
                return z3.BitVecVal(b.data[lo], 8)
            x = rec(lo, bit - 1)
            y = rec(lo + (1 << bit), bit - 1)
            if y is None:
                return x
            if x.eq(y):
                return x
            return z3.If(z3.Extract(bit, bit, kk) == 1, y, x)
        return self.dom.canon(rec(0, bits - 1))

    def read_byte(self, c, k, st):
        """byte at offset k of content c, as a scalar"""
        D = self.dom
        pend = []           # (cond, value) newest first
        while True:
            if isinstance(c, Base):
                v = self.base_byte(c, k, st)
                break
            if isinstance(c, Hav):
                v = c.M(D.mk(c.n, 64), D.mk(k, 64))
                break
            if isinstance(c, St):
                d = self.diff(k, c.off)
                if d is not None:
                    if 0 <= d < c.size:
                        v = self.val_byte(c, d, st)
                        break
                    c = c.prev
                    continue
                if c.size == 1:
                    cond = self.decide(st, D.mk(k, 64) == D.mk(c.off, 64)) if st is not None else None
                    if cond is None:
                        cond = D.mk(k, 64) == D.mk(c.off, 64)
                    if cond is False:
                        c = c.prev
                        continue
                    v = self.val_byte(c, 0, st)
                    if cond is True:
                        break
                    pend.append((cond, v))
                    c = c.prev
                    continue
                hit = False
                for i in range(c.size):
                    cc = D.mk(k, 64) == D.mk(self.addo(c.off, i, st), 64)
                    cond = self.decide(st, cc) if st is not None else None
                    if cond is None:
                        cond = cc
                    if cond is False:
                        continue
                    v = self.val_byte(c, i, st)
                    if cond is True:
                        hit = True
                        break
                    pend.append((cond, v))
                if hit:
                    break
                c = c.prev
                continue
            if isinstance(c, (Copy, Fill)):
                rel = self.subo(k, c.off, st)
                if D.name == 'bv':
                    cc = D.cmp('ult', rel, c.len, 64)
                else:
                    cc = norm_bool(z3.And(D.mk(rel, 64) >= 0, D.mk(rel, 64) < D.mk(c.len, 64)))
                df = None if is_const(rel) and is_const(c.len) else self.diff(rel, c.len)
                if df is not None and 0 <= df < (1 << 48):
                    cond = False        # at or past the end of the written range, which is inside the object
                else:
                    cond = self.decide(st, cc)
                if cond is False:
                    c = c.prev
                    continue
                v = c.val if isinstance(c, Fill) else self.read_byte(c.src, self.addo(c.soff, rel, st), st)
                if cond is True:
                    break
                pend.append((cc, v))
                c = c.prev
                continue
            if isinstance(c, LoopW):
                s = c.site
                cc, m, bi = self.site_hit(s, c.n, k, st)
                cond = self.decide(st, cc)
                if cond is False:
                    c = c.prev
                    continue
                vv = s.V(D.mk(m, 64))
                w = s.size * 8
                if s.size == 1:
                    v = vv
                else:
                    v = D.byte(vv, w, 0, st)
                    for i in range(1, s.size):
                        v = D.ite(norm_bool(D.mk(bi, 64) == i), D.byte(vv, w, i, st), v, 8)
                if s.W is not None:
                    cc = b_and(cc, s.W(D.mk(m, 64)))
                    cond = None if cond is not False else False
                if cond is True:
                    break
                pend.append((cc, v))
                c = c.prev
                continue
            raise Unsupported('layer')
        for cond, pv in reversed(pend):
            v = D.ite(cond, pv, v, 8)
        return v

    def site_hit(self, s, n, k, st):
        """(hit condition, iteration, byte index)"""
        D = self.dom
        K, O = D.mk(k, 64), D.mk(s.off0, 64)
        a = abs(s.stride)
        if D.name == 'int':
            if s.stride > 0:
                rel = simp(K - O)
                m, bi = (rel, 0) if a == 1 else (simp(rel / a), simp(rel % a))
                hit = z3.And(rel >= 0, m < n) if s.size >= a else z3.And(rel >= 0, m < n, bi < s.size)
            else:
                rel = simp(O - K + (s.size - 1))
                m = rel if a == 1 else simp(rel / a)
                bi = 0 if s.size == 1 else simp(s.size - 1 - (rel if a == 1 else rel % a))
                hit = z3.And(rel >= 0, m < n) if s.size >= a else z3.And(rel >= 0, m < n, (0 if a == 1 else rel % a) < s.size)
            if s.size > a:
                raise Unsupported('overlapping writes')
            return norm_bool(hit), m, bi
        if s.stride > 0:
            rel = K - O
        else:
            # offsets off0 - a*m ... ; byte range [off0-a*m, off0-a*m+size)
            rel = O - K
        if a == 1 and s.size == 1:
            m = simp(rel)
            return norm_bool(z3.ULT(m, n)), m, 0
        if s.stride > 0:
            rel = simp(rel)
            for r0 in range(a):
                t = bv_quot(simp(rel - r0), a)
                if t is not None and st is not None and self.decide(st, z3.ULT(t, 1 << 60)) is True:
                    return (False if r0 >= s.size else norm_bool(z3.ULT(t, n))), t, r0
            m = simp(z3.UDiv(rel, z3.BitVecVal(a, 64)))
            bi = simp(rel - m * a)
        else:
            rel = simp(O - K + (s.size - 1))
            m = simp(z3.UDiv(rel, z3.BitVecVal(a, 64)))
            bi = simp(z3.BitVecVal(s.size - 1, 64) - (rel - m * a))
            return norm_bool(z3.And(z3.ULT(m, n), z3.ULT(rel - m * a, s.size))), m, bi
        return norm_bool(z3.And(z3.ULT(m, n), z3.ULT(bi, s.size))), m, bi

    def val_byte(self, stl, i, st):
        v = stl.val
        if isinstance(v, Ptr):
            v = self.ptrint(v, st)
            return self.dom.byte(v, 64, i, st)
        if isinstance(v, Undef):
            return self.dom.fresh(st, 'undef', 8)
        if isinstance(v, bool) or z3.is_bool(v) if not is_const(v) else isinstance(v, bool):
            v = self.b2i(v, 8)
            return v if i == 0 else 0
        return self.dom.byte(v, stl.w, i, st)

    def b2i(self, v, w):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        return self.dom.ite(v, 1, 0, w)

    def load_val(self, c, off, ty, st):
        """load of a scalar/pointer of IR type ty"""
        D = self.dom
        if ty.k == 'ptr':
            size, w = 8, 64
        elif ty.k == 'int':
            size, w = self.mod.size(ty), ty.a
        else:
            raise Unsupported('load type %r' % ty)
        cc = c
        while True:
            if isinstance(cc, St):
                d = self.diff(off, cc.off)
                if d is None:
                    break
                if d == 0 and cc.size == size:
                    v = cc.val
                    if ty.k == 'ptr':
                        if isinstance(v, Ptr):
                            return v
                        if isinstance(v, Undef):
                            return v
                        return self.int2ptr(v, st)
                    if isinstance(v, Ptr):
                        return self.ptrint(v, st)
                    if isinstance(v, Undef):
                        return D.fresh(st, 'undef', w)
                    if cc.w == w:
                        return v
                    break
                if d >= cc.size or d <= -size:
                    cc = cc.prev
                    continue
                break
            elif isinstance(cc, (Copy, Fill)) and is_const(cc.len):
                d = self.diff(off, cc.off)
                if d is None:
                    break
                if d >= cc.len or d <= -size:
                    cc = cc.prev
                    continue
                if d >= 0 and d + size <= cc.len and isinstance(cc, Copy):
                    return self.load_val(cc.src, self.addo(cc.soff, d, st), ty, st)
                break
            elif isinstance(cc, Base):
                if cc.vals is not None and is_const(off):
                    for (o, sz, v) in cc.vals:
                        if o == off and sz == size:
                            if isinstance(v, Ptr) == (ty.k == 'ptr'):
                                return v
                if ty.k == 'ptr' and cc.data is not None and is_const(off):
                    v = cc.data[off] if off < len(cc.data) else 0
                    if isinstance(v, Ptr):
                        return v
                break
            else:
                break
        if ty.k == 'ptr':
            if isinstance(cc, Base) and cc.uf is None and cc.data is None:
                raise Unsupported('load of uninitialised pointer')
        bs = [self.read_byte(c, self.addo(off, i, st), st) for i in range(size)]
        bs = [b if not isinstance(b, Ptr) else self._pb(b) for b in bs]
        v = D.join(bs, st)
        if ty.k == 'ptr':
            return self.int2ptr(v, st)
        if w == 1:
            return norm_bool(D.mk(D.trunc(v, 8, 1, st) if D.name == 'bv' else v, 1) == 1)
        if w != size * 8:
            v = D.trunc(v, size * 8, w, st)
        return v

    def _pb(self, b):
        raise Unsupported('pointer bytes')

    def base_of(self, o, st):
        if o.kind == 'null':
            return 0
        if o.base is None:
            b, cs = self.dom.named('addr_%s_%d' % (re.sub(r'\W', '_', o.name), o.id), 64)
            o.base = b
        if st is not None and ('addr', o.id) not in st.done:
            D = self.dom
            b = o.base
            st.done.add(('addr', o.id))
            B = D.mk(b, 64)
            if D.name == 'bv':
                st.add(z3.And(z3.UGE(B, 4096), z3.ULE(B, (1 << 63))))
                if o.align > 1:
                    st.add(z3.URem(B, z3.BitVecVal(o.align, 64)) == 0)
            else:
                st.add(z3.And(B >= 4096, B <= 1 << 63))
        return o.base

    def ptrint(self, p, st):
        if isinstance(p, Undef):
            return self.dom.fresh(st, 'undef', 64)
        return self.dom.add(self.base_of(p.obj, st), p.off, 64, st)

    def int2ptr(self, v, st):
        if is_const(v):
            return Ptr(NULL, v)
        # find the object whose base symbol occurs
        objs = [o for o in self.objects if o.base is not None and has_const(v, o.base)]
        if len(objs) == 1:
            off = self.dom.sub(v, objs[0].base, 64, st)
            return Ptr(objs[0], off)
        if not objs:
            return Ptr(NULL, v)
        raise Unsupported('inttoptr')

    def disjoint(self, a, b, st):
        """assume distinct live objects do not overlap"""
        if a is b or a.kind == 'null' or b.kind == 'null':
            return
        key = ('disj', min(a.id, b.id), max(a.id, b.id))
        if key in st.done:
            return
        st.done.add(key)
        D = self.dom
        A, B = D.mk(self.base_of(a, st), 64), D.mk(self.base_of(b, st), 64)
        sa, sb = D.mk(a.size, 64), D.mk(b.size, 64)
        if D.name == 'bv':
            st.add(z3.Or(z3.ULE(A + sa, B), z3.ULE(B + sb, A)))
        else:
            st.add(z3.Or(A + sa <= B, B + sb <= A))

    def new_obj(self, st, name, size, kind, writable=True, content=None, align=1):
        o = Obj(name, size, kind, writable, align)
        self.objects.append(o)
        st.mem[o.id] = content if content is not None else Base()
        return o

    objects = None

    def access(self, st, p, size, loc, write=False):
        """bounds obligation for an access of size bytes"""
        D = self.dom
        if isinstance(p, Undef):
            self.oblige(st, 'deref-undef', False, loc)
            raise Dead()
        o = p.obj
        if o.kind == 'null' or o.kind == 'func':
            self.oblige(st, 'null-deref', False, loc)
            raise Dead()
        if write and not o.writable:
            self.oblige(st, 'write-to-const:' + o.name, False, loc)
            raise Dead()
        off, osz = p.off, o.size
        if is_const(size) and size == 0:
            return
        if D.name == 'bv':
            if is_const(osz) and is_const(size):
                g = False if size > osz else D.cmp('ule', off, osz - size, 64)
            else:
                # off <= osz && size <= osz - off
                g = b_and(D.cmp('ule', off, osz, 64), D.cmp('ule', size, D.sub(osz, off, 64), 64))
                if is_const(size) and size == 1:
                    g = D.cmp('ult', off, osz, 64)
        else:
            O, S, Q = D.mk(off, 64), D.mk(size, 64), D.mk(osz, 64)
            g = norm_bool(z3.And(O >= 0, O + S <= Q))
        self.oblige(st, ('store-in-bounds:' if write else 'load-in-bounds:') + o.name, g, loc)
        if g is False:
            raise Dead()

    def load(self, st, p, ty, loc):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            return [self.load(st, Ptr(p.obj, self.addo(p.off, self.mod.field_off(ty, i), st)), e, loc) for i, e in enumerate(ty.a)]
        if ty.k == 'arr':
            es = self.mod.size(ty.b)
            return [self.load(st, Ptr(p.obj, self.addo(p.off, i * es, st)), ty.b, loc) for i in range(ty.a)]
        self.access(st, p, self.mod.size(ty), loc)
        return self.load_val(st.mem[p.obj.id], p.off, ty, st)

    def store(self, st, p, ty, v, loc):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            if isinstance(v, Undef):
                return
            for i, e in enumerate(ty.a):
                self.store(st, Ptr(p.obj, self.addo(p.off, self.mod.field_off(ty, i), st)), e, v[i], loc)
            return
        if ty.k == 'arr':
            if isinstance(v, Undef):
                return
            es = self.mod.size(ty.b)
            for i in range(ty.a):
                self.store(st, Ptr(p.obj, self.addo(p.off, i * es, st)), ty.b, v[i], loc)
            return
        size = self.mod.size(ty)
        self.access(st, p, size, loc, True)
        w = 64 if ty.k == 'ptr' else ty.a
        if w == 1:
            v, w = self.b2i(v, 8), 8
        elif w % 8:
            v = self.dom.zext(v, w, size * 8, st)
            w = size * 8
        st.mem[p.obj.id] = St(st.mem[p.obj.id], p.off, size, v, w)

    # ---- globals --------------------------------------------------------------
    def global_obj(self, name, st):
        if name in self.globals:
            o, c = self.globals[name]
            if o.id not in st.mem:
                st.mem[o.id] = c
            return o
        if name in self.mod.funcs or name in self.mod.decls:
            o = Obj(name, 0, 'func', False)
            o.fn = name
            self.objects.append(o)
            self.globals[name] = (o, Base())
            return o
        g = self.mod.globals.get(name)
        if g is None or g[0] is None:
            raise Unsupported('global ' + name)
        t, init, const = g
        size = self.mod.size(t)
        o = Obj(name, size, 'global', not const, 16)
        self.objects.append(o)
        if init is None:
            c = Base()
            if not const:
                c = Base(uf=self.memuf(name))
        else:
            data = [0] * size
            self._init(t, init, data, 0, st, o)
            c = Base(data=data)
        self.globals[name] = (o, c)
        st.mem[o.id] = c
        return o

    def memuf(self, name):
        return z3.Function(fresh_name('mem_' + re.sub(r'\W', '_', name)), self.dom.IDX, self.dom.sort(8))

    def _init(self, t, v, data, off, st, self_obj=None):
        t = self.mod.resolve(t)
        k = v[0]
        if k in ('zero', 'null', 'undef', 'none'):
            return
        if k == 'bytes':
            data[off:off + len(v[1])] = list(v[1])
            return
        if k == 'int':
            sz = self.mod.size(t)
            x = v[1] & ((1 << (8 * sz)) - 1)
            for i in range(sz):
                data[off + i] = (x >> (8 * i)) & 0xff
            return
        if k == 'agg':
            if t.k == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    self._init(et, ev, data, off + self.mod.field_off(t, i), st)
            else:
                es = self.mod.size(t.b)
                for i, (et, ev) in enumerate(v[1]):
                    self._init(et, ev, data, off + i * es, st)
            return
        if k in ('glob', 'cgep', 'ccast'):
            try:
                p = self.const_val(t, v, st)
                data[off] = p
                for i in range(1, 8):
                    data[off + i] = _PB
            except Unsupported:
                data[off] = _PB
            return
        if k == 'fp':
            data[off] = _PB
            return
        raise Unsupported('init %s' % k)

    def const_val(self, t, v, st):
        if v[0] == 'glob':
            return Ptr(self.global_obj(v[1], st), 0)
        if v[0] == 'cgep':
            bt, ops = v[1], v[2]
            p = self.const_val(ops[0][0], ops[0][1], st)
            off = p.off
            ty = bt
            for i, (it, iv) in enumerate(ops[1:]):
                idx = iv[1]
                if i == 0:
                    off += idx * self.mod.size(ty)
                else:
                    ty = self.mod.resolve(ty)
                    if ty.k == 'struct':
                        off += self.mod.field_off(ty, idx)
                        ty = ty.a[idx]
                    else:
                        ty = ty.b
                        off += idx * self.mod.size(ty)
            return Ptr(p.obj, off)
        if v[0] == 'ccast':
            x = self.const_val(v[2], v[3], st)
            if v[1] == 'ptrtoint':
                return self.ptrint(x, st)
            return x
        if v[0] == 'null':
            return Ptr(NULL, 0)
        raise Unsupported('const %s' % (v[0],))

    # ---- values -----------------------------------------------------------------
    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            r = st.frames[-1].regs
            if v[1] not in r:
                raise Unsupported('reg ' + v[1])
            x = r[v[1]]
            if isinstance(x, Undef):
                return self.undef(st, ty)
            return x
        ty = self.mod.resolve(ty)
        if k == 'int':
            if ty.k == 'int' and ty.a == 1:
                return bool(v[1])
            return v[1] & ((1 << ty.a) - 1)
        if k == 'undef':
            return self.undef(st, ty)
        if k == 'null':
            return Ptr(NULL, 0)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.val(st, t, x) for t, x in v[1]]
        if k in ('glob', 'cgep', 'ccast'):
            return self.const_val(ty, v, st)
        raise Unsupported('value %s' % k)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            return False if ty.a == 1 else 0
        if ty.k == 'ptr':
            return Ptr(NULL, 0)
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.a]
        if ty.k == 'arr':
            return [self.zero(ty.b) for _ in range(ty.a)]
        raise Unsupported('zero')

    def undef(self, st, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            if ty.a == 1:
                b = z3.Bool(fresh_name('undef'))
                st.fresh.append(b)
                return b
            return self.dom.fresh(st, 'undef', ty.a)
        if ty.k == 'ptr':
            return UNDEF
        if ty.k == 'struct':
            return [self.undef(st, e) for e in ty.a]
        if ty.k == 'arr':
            return [self.undef(st, ty.b) for _ in range(ty.a)]
        raise Unsupported('undef %r' % ty)


class Dead(Exception):
    """path ends (obligation already recorded)"""


class _PBt:
    pass


_PB = _PBt()
