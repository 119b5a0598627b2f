"""Instruction semantics, path exploration and the loop rule."""
import os, time
import z3
from smt import *
from symex import *
import ir

DBG = os.environ.get('VCDBG')


class Loop:
    __slots__ = ('fn', 'header', 'body', 'depth')

    def __init__(self, fn, header, body, depth):
        self.fn, self.header, self.body, self.depth = fn, header, body, depth


class VC(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.reject = False
        self.objects = []

    # ---------------------------------------------------------------- running
    def start(self, st, fname, args):
        fn = self.mod.funcs[fname]
        fr = Frame(fn, {}, None)
        for (t, n), a in zip(fn.params, args):
            fr.regs[n] = a
        st.frames.append(fr)

    def run(self, st, loop=None):
        """explore from st; returns (back, exits, rets)"""
        back, exits, rets = [], [], []
        work = [st]
        base = len(st.frames)
        while work:
            self.check_time()
            s = work.pop()
            try:
                if s.pend is not None:
                    tgt, s.pend = s.pend, None
                    ev = self.goto(s, tgt, loop, base, work)
                else:
                    ev = self.steps(s, loop, base, work)
            except Dead:
                self.paths += 1
                continue
            if ev == 'back':
                back.append(s)
            elif ev == 'exit':
                exits.append(s)
            elif ev == 'ret':
                rets.append(s)
                self.paths += 1
        return back, exits, rets

    def goto(self, s, tgt, loop, base, work):
        """transfer to block tgt of the current frame"""
        fr = s.frames[-1]
        if loop is not None and len(s.frames) == loop.depth:
            if tgt == loop.header:
                s.pend = tgt
                return 'back'
            if tgt not in loop.body:
                s.pend = tgt
                return 'exit'
        loops = ir.find_loops(fr.fn)
        if tgt in loops:
            outside = fr.blk not in loops[tgt]
            mode = self.mode(s, fr.fn, tgt)
            if mode == 'rule' and ((not outside and tgt in fr.counts) or (outside and self.short(s, fr, tgt, loops[tgt]))):
                mode = 'unroll'
            elif tgt in fr.counts and mode == 'rule':
                c = dict(fr.counts)
                del c[tgt]
                fr.counts = c
            if mode == 'unroll':
                c = dict(fr.counts)
                c[tgt] = 0 if outside else c.get(tgt, 0) + 1
                fr.counts = c
                if c[tgt] > self.cap:
                    self.capped = True
                    if not self.bmc:
                        self.obl[-1].append(('cap', 'unwinding', fr.fn.name + tgt))
                    raise Dead()
            elif outside:
                for e in self.loop_rule(s, Loop(fr.fn, tgt, loops[tgt], len(s.frames))):
                    work.append(e)
                return None
        self.enter(s, tgt)
        work.append(s)
        return None

    def mode(self, s, fn, hdr):
        if callable(self.loops):
            return self.loops(s, fn, hdr)
        return self.loops

    SHORT = 6

    def short(self, s, fr, hdr, body):
        """is the trip count provably at most SHORT (then plain unrolling is complete)?"""
        blk = fr.fn.blocks[hdr]
        phis = {i.dst: i for i in blk.ins if i.op == 'phi'}
        last = blk.ins[-1]
        if last.op != 'condbr' or last.a[0][0] != 'reg':
            return False
        cmpi = next((i for i in blk.ins if i.dst == last.a[0][1]), None)
        if cmpi is None or cmpi.op != 'icmp':
            return False
        pr, a, b = cmpi.a
        if not (a[0] == 'reg' and a[1] in phis):
            a, b = b, a
        if not (a[0] == 'reg' and a[1] in phis) or pr not in ('ult', 'ugt', 'ne', 'eq', 'ule', 'uge'):
            return False
        if b[0] == 'reg' and b[1] not in fr.regs:
            return False
        lp = Loop(fr.fn, hdr, body, len(s.frames))
        if b[0] == 'reg' and any(j.dst == b[1] for bb in body for j in fr.fn.blocks[bb].ins):
            return False
        stp = self.guess_stride(phis[a[1]], lp)
        if not stp:
            return False
        e = next((v for v, lb in phis[a[1]].a[0] if lb == fr.blk), None)
        if e is None or e[0] == 'undef':
            return False
        ty = cmpi.ty
        e, x = self.val(s, ty, e), self.val(s, ty, b)
        w = 64
        if isinstance(e, Ptr):
            if not isinstance(x, Ptr) or x.obj is not e.obj:
                return False
            e, x = e.off, x.off
        elif isinstance(e, Undef) or isinstance(x, (Undef, Ptr)):
            return False
        else:
            w = self.mod.resolve(ty).a
        if stp < 0:
            e, x = x, e
        d = self.dom.sub(x, e, w, s)
        if is_const(d):
            return 0 <= d <= self.SHORT * abs(stp) and d % abs(stp) == 0
        if stp not in (1, -1):
            return False
        return self.valid(s, norm_bool(self.dom.cmp('ule', d, self.SHORT, w)))

    def enter(self, s, tgt, phis=True):
        fr = s.frames[-1]
        blk = fr.fn.blocks[tgt]
        vals = []
        ip = 0
        for i in blk.ins:
            if i.op != 'phi':
                break
            ip += 1
            if phis:
                for v, lb in i.a[0]:
                    if lb == fr.blk:
                        vals.append((i.dst, self.val(s, i.ty, v)))
                        break
                else:
                    raise Unsupported('phi edge')
        for d, v in vals:
            fr.regs[d] = v
        fr.prev, fr.blk, fr.ip = fr.blk, tgt, ip

    def steps(self, s, loop, base, work):
        while True:
            fr = s.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            i = blk.ins[fr.ip]
            fr.ip += 1
            op = i.op
            if op == 'br':
                return self.goto(s, i.a[0], loop, base, work)
            if op == 'condbr':
                c = self.val(s, ir.IntTy(1), i.a[0])
                if isinstance(c, int) and not isinstance(c, bool):
                    c = bool(c)
                if not isinstance(c, bool):
                    c = norm_bool(c)
                if isinstance(c, bool):
                    return self.goto(s, i.a[1] if c else i.a[2], loop, base, work)
                t = self.feasible(s, c)
                f = self.feasible(s, z3.Not(c)) if t else True
                if t and f:
                    s2 = s.copy()
                    s2.add(b_not(c))
                    s2.pend = i.a[2]
                    s.add(c)
                    work.append(s2)
                    return self.goto(s, i.a[1], loop, base, work)
                if t:
                    return self.goto(s, i.a[1], loop, base, work)
                return self.goto(s, i.a[2], loop, base, work)
            if op == 'switch':
                t, v, d, cs = i.a
                x = self.val(s, t, v)
                if is_const(x):
                    for c, l in cs:
                        if (c & ((1 << t.a) - 1)) == x:
                            return self.goto(s, l, loop, base, work)
                    return self.goto(s, d, loop, base, work)
                rest = []
                groups = {}
                for c, l in cs:
                    groups.setdefault(l, []).append(self.dom.mk(c & ((1 << t.a) - 1), t.a))
                for l, vals in groups.items():
                    c = norm_bool(z3.Or(*[x == q for q in vals]))
                    rest.append(b_not(c))
                    if self.feasible(s, c):
                        s2 = s.copy()
                        s2.add(c)
                        s2.pend = l
                        work.append(s2)
                c = norm_bool(z3.And(*[tobool(r) for r in rest])) if rest else True
                if self.feasible(s, c):
                    s.add(c)
                    return self.goto(s, d, loop, base, work)
                return None
            if op == 'ret':
                v = self.val(s, i.ty, i.a[0]) if i.a[0] is not None else None
                if len(s.frames) == 1:
                    s.ret = v
                    return 'ret'
                dst = fr.dst
                s.frames.pop()
                if dst is not None:
                    s.frames[-1].regs[dst] = v
                continue
            if op == 'unreachable':
                self.oblige(s, 'unreachable', False, fr.fn.name + ' ' + i.text)
                raise Dead()
            r = self.exec(s, fr, i, work)
            if r == 'fork':
                return None

    # ---------------------------------------------------------------- instructions
    def exec(self, s, fr, i, work):
        D = self.dom
        op = i.op
        R = fr.regs
        if op in ir.BIN:
            ty = self.mod.resolve(i.ty)
            if ty.k != 'int':
                raise Unsupported('vector op')
            w = ty.a
            a, b = self.val(s, ty, i.a[0]), self.val(s, ty, i.a[1])
            if w == 1:
                a, b = self.tob(a), self.tob(b)
                if op == 'and':
                    R[i.dst] = norm_bool(b_and(a, b)) if not isinstance(b_and(a, b), bool) else b_and(a, b)
                elif op == 'or':
                    r = b_or(a, b)
                    R[i.dst] = r if isinstance(r, bool) else norm_bool(r)
                elif op == 'xor' or op == 'add' or op == 'sub':
                    R[i.dst] = norm_bool(z3.Xor(tobool(a), tobool(b)))
                else:
                    raise Unsupported('i1 ' + op)
                return
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.oblige(s, 'div-by-zero', D.cmp('ne', b, 0, w), self.loc(fr, i))
            if op in ('shl', 'lshr', 'ashr') and not is_const(b):
                self.oblige(s, 'shift-range', D.cmp('ult', b, w, w), self.loc(fr, i))
            m = {'and': D.and_, 'or': D.or_}.get(op) or getattr(D, op)
            R[i.dst] = m(a, b, w, s)
            return
        if op == 'icmp':
            ty = self.mod.resolve(i.ty)
            pr, x, y = i.a
            a, b = self.val(s, ty, x), self.val(s, ty, y)
            if ty.k == 'ptr':
                R[i.dst] = self.ptrcmp(s, pr, a, b)
                return
            if ty.a == 1:
                a, b = self.tob(a), self.tob(b)
                e = norm_bool(tobool(a) == tobool(b))
                if pr == 'ne':
                    e = b_not(e)
                elif pr != 'eq':
                    a, b = self.b2i(a, 8), self.b2i(b, 8)
                    e = D.cmp({'s': 'u'}.get(pr[0], pr[0]) + pr[1:], a, b, 8)
                R[i.dst] = e
                return
            if D.name == 'int':
                R[i.dst] = D.cmp(pr, a, b, ty.a, s)
            else:
                R[i.dst] = D.cmp(pr, a, b, ty.a)
            return
        if op in ('zext', 'sext', 'trunc'):
            t1, x = i.a
            t1 = self.mod.resolve(t1)
            a = self.val(s, t1, x)
            w1, w2 = t1.a, self.mod.resolve(i.ty).a
            if op == 'trunc':
                if w2 == 1:
                    if D.name == 'bv':
                        R[i.dst] = norm_bool(D.mk(D.trunc(a, w1, 1, s), 1) == 1)
                    else:
                        R[i.dst] = norm_bool(D.mk(D.urem(a, 2, w1, s), 1) == 1)
                else:
                    R[i.dst] = D.trunc(a, w1, w2, s)
                return
            if w1 == 1:
                a = self.tob(a)
                R[i.dst] = D.ite(a, 1 if op == 'zext' else (1 << w2) - 1, 0, w2)
                return
            R[i.dst] = getattr(D, op)(a, w1, w2, s)
            return
        if op == 'load':
            p = self.val(s, ir.PTR, i.a[0])
            R[i.dst] = self.load(s, p, i.ty, self.loc(fr, i))
            return
        if op == 'store':
            v = self.val(s, i.ty, i.a[0])
            p = self.val(s, ir.PTR, i.a[1])
            self.store(s, p, i.ty, v, self.loc(fr, i))
            return
        if op == 'gep':
            ops = i.a[0]
            p = self.val(s, ir.PTR, ops[0][1])
            if isinstance(p, Undef):
                R[i.dst] = p
                return
            off = p.off
            ty = i.ty
            for j, (it, iv) in enumerate(ops[1:]):
                it = self.mod.resolve(it)
                idx = self.val(s, it, iv)
                if j > 0:
                    ty = self.mod.resolve(ty)
                    if ty.k == 'struct':
                        off = self.addo(off, self.mod.field_off(ty, idx), s)
                        ty = ty.a[idx]
                        continue
                    ty = ty.b
                sz = self.mod.size(ty)
                off = self.addo(off, self.scale(idx, it.a, sz, s), s)
            R[i.dst] = Ptr(p.obj, off)
            return
        if op == 'select':
            c = self.tob(self.val(s, ir.IntTy(1), i.a[0]))
            a, b = self.val(s, i.ty, i.a[1]), self.val(s, i.ty, i.a[2])
            c = norm_bool(c)
            if isinstance(c, bool):
                R[i.dst] = a if c else b
                return
            ty = self.mod.resolve(i.ty)
            if D.name == 'int' and ty.k == 'int' and ty.a == 64:
                if s.must(c):
                    R[i.dst] = a
                    return
                if s.must(z3.Not(c)):
                    R[i.dst] = b
                    return
                if D.alias(a, s) or D.alias(b, s):
                    s2 = s.copy()
                    s2.add(b_not(c))
                    s2.frames[-1].regs[i.dst] = b
                    s.add(c)
                    R[i.dst] = a
                    work.append(s2)
                    work.append(s)
                    return 'fork'
            if ty.k == 'int':
                R[i.dst] = b_ite(c, self.tob(a), self.tob(b)) if ty.a == 1 else D.ite(c, a, b, ty.a)
                return
            if ty.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                R[i.dst] = Ptr(a.obj, D.ite(c, a.off, b.off, 64))
                return
            # different objects: fork
            if self.feasible(s, z3.Not(c)):
                s2 = s.copy()
                s2.add(b_not(c))
                s2.frames[-1].regs[i.dst] = b
                if not self.feasible(s, c):
                    work.append(s2)
                    return 'fork'
                work.append(s2)
            s.add(c)
            R[i.dst] = a
            return
        if op == 'alloca':
            n = i.a[0]
            k = 1
            if n != 1:
                k = self.val(s, ir.IntTy(64), n)
                if not is_const(k):
                    raise Unsupported('vla')
            o = self.new_obj(s, fr.fn.name + i.dst, self.mod.size(i.ty) * k, 'alloca', align=16)
            R[i.dst] = Ptr(o, 0)
            return
        if op == 'extractvalue':
            v = self.val(s, i.ty, i.a[0])
            for x in i.a[1]:
                v = v[x]
            R[i.dst] = v
            return
        if op == 'insertvalue':
            v = self.val(s, i.ty, i.a[0])
            b = self.val(s, i.a[1], i.a[2])

            def ins(v, idx):
                v = list(v)
                if len(idx) == 1:
                    v[idx[0]] = b
                else:
                    v[idx[0]] = ins(v[idx[0]], idx[1:])
                return v
            R[i.dst] = ins(v, i.a[3])
            return
        if op == 'freeze':
            R[i.dst] = self.val(s, i.ty, i.a[0])
            return
        if op == 'ptrtoint':
            p = self.val(s, i.a[0], i.a[1])
            R[i.dst] = self.ptrint(p, s)
            return
        if op == 'inttoptr':
            R[i.dst] = self.int2ptr(self.val(s, i.a[0], i.a[1]), s)
            return
        if op in ('bitcast', 'addrspacecast'):
            R[i.dst] = self.val(s, i.a[0], i.a[1])
            return
        if op == 'call':
            return self.call(s, fr, i, work)
        raise Unsupported('%s: %s' % (op, i.text))

    def tob(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return bool(x & 1)
        if z3.is_bool(x):
            return x
        return norm_bool(x == 1)

    def scale(self, idx, w, sz, s):
        D = self.dom
        if is_const(idx):
            return (sgn(idx, w) * sz) & ((1 << 64) - 1) if D.name == 'bv' else sgn(idx, w) * sz
        if D.name == 'bv':
            if w < 64:
                idx = D.sext(idx, w, 64)
            return D.mul(idx, sz, 64) if sz != 1 else idx
        v, lo, hi = D.signed(idx, w, s)
        return v * sz if sz != 1 else v

    def ptrcmp(self, s, pr, a, b):
        D = self.dom
        if isinstance(a, Undef) or isinstance(b, Undef):
            u = z3.Bool(fresh_name('undef'))
            s.fresh.append(u)
            return u
        if a.obj is b.obj:
            if pr in ('eq', 'ne'):
                return D.cmp(pr, a.off, b.off, 64)
            if D.name == 'bv' and pr[0] == 'u':
                # same object: compare addresses via offsets (offsets are < 2^63 within objects)
                return D.cmp('s' + pr[1:], a.off, b.off, 64)
            return D.cmp(pr, a.off, b.off, 64)
        if pr in ('eq', 'ne'):
            n, o = (a, b) if a.obj.kind == 'null' else (b, a)
            if n.obj.kind == 'null' and is_const(n.off) and n.off == 0:
                return pr == 'ne'
            if n.obj.kind == 'func' or o.obj.kind == 'func':
                return pr == 'ne'
        self.disjoint(a.obj, b.obj, s)
        return D.cmp(pr, self.ptrint(a, s), self.ptrint(b, s), 64)

    def loc(self, fr, i):
        return '%s: %s' % (fr.fn.name, i.text)

    # ---------------------------------------------------------------- calls
    def call(self, s, fr, i, work):
        callee, args = i.a
        D = self.dom
        R = fr.regs
        if callee[0] == 'local':
            p = self.val(s, ir.PTR, ('reg', callee[1]))
            if not isinstance(p, Ptr) or p.obj.kind != 'func':
                if isinstance(p, Ptr) and p.obj.kind == 'null':
                    self.oblige(s, 'null-call', False, self.loc(fr, i))
                    raise Dead()
                raise Unsupported('indirect call')
            name = p.obj.fn
        else:
            name = callee[1]
        nm = name.strip('@"')

        def arg(k):
            return self.val(s, args[k][0], args[k][1])
        if nm in self.summaries:
            r = self.summaries[nm](self, s, [arg(k) for k in range(len(args))], self.loc(fr, i))
            if i.dst is not None:
                R[i.dst] = r
            return
        if nm.startswith(('llvm.ctlz.', 'llvm.cttz.')) and self.loops == 'unroll' and not is_const(arg(0)):
            # case split on the result: everything sized by it becomes concrete
            w = self.mod.resolve(i.ty).a
            x = D.mk(arg(0), w)
            out = []
            for j in range(w + 1):
                if j == w:
                    c = x == 0
                elif D.name == 'int':
                    if nm[7] != 'l':
                        raise Unsupported('cttz')
                    c = z3.And(x >= (1 << (w - 1 - j)), x < (1 << (w - j)))
                elif nm[7] == 'l':
                    c = z3.Extract(w - 1, w - 1 - j, x) == 1
                else:
                    c = z3.Extract(j, 0, x) == (1 << j)
                if self.feasible(s, c):
                    s2 = s.copy()
                    s2.add(c)
                    s2.frames[-1].regs[i.dst] = j
                    out.append(s2)
            work += reversed(out)
            return 'fork'
        if nm.startswith('llvm.'):
            return self.intrinsic(s, fr, i, nm, args, arg)
        if 'handle_error' in nm:
            where = ''
            try:
                ln = [a for a in args if a[0].k == 'int']
                where = 'line %s' % (ln[0][1][1],)
                p = arg(0)
                c = s.mem[p.obj.id]
                f = bytes(x for x in c.data).split(b'\0')[0].decode()
                where = f.split('/src/')[-1] + ':' + str(ln[0][1][1])
            except Exception:
                pass
            if not self.reject:
                self.oblige(s, 'assertion', False, where)
            raise Dead()
        if nm in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual'):
            self.oblige(s, 'abort', False, self.loc(fr, i))
            raise Dead()
        if nm == '_ZN2c415get_error_flagsEv':
            R[i.dst] = D.fresh(s, 'eflags', 32)
            return
        b = getattr(self, 'ext_' + nm, None)
        if b is not None:
            r = b(s, [arg(k) for k in range(len(args))], self.loc(fr, i))
            if i.dst is not None:
                R[i.dst] = r
            return
        if name in self.mod.funcs:
            f = self.mod.funcs[name]
            nf = Frame(f, {}, i.dst)
            av = [arg(k) for k in range(len(args))]
            for k, (t, n) in enumerate(f.params):
                v = av[k]
                # byval aggregate copies are made by clang at the call site as pointers
                nf.regs[n] = v
            if len(s.frames) > 40:
                raise Unsupported('recursion')
            s.frames.append(nf)
            return
        raise Unsupported('call to ' + nm)

    def intrinsic(self, s, fr, i, nm, args, arg):
        D = self.dom
        R = fr.regs
        base = nm.split('.')
        k = base[1]
        if k in ('lifetime', 'dbg', 'assume', 'invariant', 'experimental', 'donothing', 'va_start', 'va_end', 'prefetch'):
            if nm.startswith('llvm.assume'):
                self.oblige(s, 'llvm.assume', arg(0), self.loc(fr, i))
            return
        if k == 'expect':
            R[i.dst] = arg(0)
            return
        if k in ('ubsantrap', 'trap', 'debugtrap'):
            kind = arg(0) if args else -1
            self.oblige(s, 'ub-trap:%s' % kind, False, fr.fn.name)
            raise Dead()
        if k in ('memcpy', 'memmove'):
            self.memcpy(s, arg(0), arg(1), arg(2), self.loc(fr, i), k == 'memmove')
            return
        if k == 'memset':
            self.memset(s, arg(0), arg(1), arg(2), self.loc(fr, i))
            return
        ty = self.mod.resolve(i.ty)
        if k in ('umin', 'umax', 'smin', 'smax'):
            a, b = arg(0), arg(1)
            c = D.cmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], a, b, ty.a)
            R[i.dst] = D.ite(c, a, b, ty.a)
            return
        if k == 'usub' and base[2] == 'sat':
            a, b = arg(0), arg(1)
            R[i.dst] = D.ite(D.cmp('ult', a, b, ty.a), 0, D.sub(a, b, ty.a, s), ty.a)
            return
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and base[2] == 'with':
            w = ty.a[0].a
            r, o = D.ovf(k, arg(0), arg(1), w, s)
            R[i.dst] = [r, o]
            return
        if k == 'abs':
            a = arg(0)
            w = ty.a
            R[i.dst] = D.ite(D.cmp('slt', a, 0, w), D.sub(0, a, w, s), a, w)
            return
        if k in ('ctlz', 'cttz', 'ctpop') and D.name == 'bv':
            w = ty.a
            x = D.mk(arg(0), w)
            if k == 'ctpop':
                e = z3.Sum([z3.ZeroExt(w - 1, z3.Extract(j, j, x)) for j in range(w)])
            else:
                e = z3.BitVecVal(w, w)
                rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
                for j in rng:
                    e = z3.If(z3.Extract(j, j, x) == 1, z3.BitVecVal(w - 1 - j if k == 'ctlz' else j, w), e)
            R[i.dst] = D.canon(e)
            return
        if k in ('fshl', 'fshr') and D.name == 'bv':
            w = ty.a
            a, b, c = D.mk(arg(0), w), D.mk(arg(1), w), D.mk(arg(2), w)
            c = z3.URem(c, z3.BitVecVal(w, w))
            x = z3.Concat(a, b)
            C = z3.ZeroExt(w, c)
            e = z3.Extract(2 * w - 1, w, x << C) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(x, C))
            R[i.dst] = D.canon(e)
            return
        if k == 'objectsize':
            R[i.dst] = (1 << ty.a) - 1
            return
        if k == 'is' and base[2] == 'constant':
            R[i.dst] = False
            return
        raise Unsupported('intrinsic ' + nm)

    def memcpy(self, s, d, p, n, loc, move=False):
        D = self.dom
        z = D.cmp('eq', n, 0, 64)
        if z is True:
            return
        if z is not False and (d.obj.kind == 'null' or p.obj.kind == 'null'):
            # zero-length copy with a null operand: accept only when n is provably 0
            self.oblige(s, 'memcpy-null', z, loc)
            return
        self.access_opt(s, p, n, loc, False)
        self.access_opt(s, d, n, loc, True)
        if not move and d.obj is p.obj:
            # memcpy must not overlap
            a, b = d.off, p.off
            g = b_or(D.cmp('eq', n, 0, 64), b_or(D.cmp('ule', self.addo(a, n, s), b, 64), D.cmp('ule', self.addo(b, n, s), a, 64)))
            self.oblige(s, 'memcpy-overlap', g, loc)
        s.mem[d.obj.id] = Copy(s.mem[d.obj.id], d.off, n, s.mem[p.obj.id], p.off)

    def access_opt(self, s, p, n, loc, write):
        """bounds of an n byte access, n possibly zero"""
        D = self.dom
        z = D.cmp('eq', n, 0, 64)
        if z is True:
            return
        if z is False or isinstance(p, Undef) or p.obj.kind in ('null', 'func'):
            if z is not False:
                self.oblige(s, 'null-access', z, loc)
                return
            self.access(s, p, n, loc, write)
            return
        if write and not p.obj.writable:
            self.oblige(s, 'write-to-const:' + p.obj.name, z, loc)
            return
        O, N_, Q = D.mk(p.off, 64), D.mk(n, 64), D.mk(p.obj.size, 64)
        if D.name == 'bv':
            g = z3.Or(N_ == 0, z3.And(z3.ULE(O, Q), z3.ULE(N_, Q - O)))
        else:
            g = z3.Or(N_ == 0, z3.And(O >= 0, O + N_ <= Q))
        self.oblige(s, ('store-in-bounds:' if write else 'load-in-bounds:') + p.obj.name, g, loc)

    def memset(self, s, d, v, n, loc):
        z = self.dom.cmp('eq', n, 0, 64)
        if z is True:
            return
        self.access_opt(s, d, n, loc, True)
        if isinstance(d, Undef) or d.obj.kind == 'null':
            return
        s.mem[d.obj.id] = Fill(s.mem[d.obj.id], d.off, n, v)

    # library functions (trusted contracts of libc) -------------------------------
    def ext_memcpy(self, s, a, loc):
        self.memcpy(s, a[0], a[1], a[2], loc)
        return a[0]

    def ext_memmove(self, s, a, loc):
        self.memcpy(s, a[0], a[1], a[2], loc, True)
        return a[0]

    def ext_memset(self, s, a, loc):
        self.memset(s, a[0], self.dom.trunc(a[1], 32, 8, s), a[2], loc)
        return a[0]

    def readN(self, s, p, k):
        """spec-level byte read (no obligation)"""
        return self.read_byte(s.mem[p.obj.id], self.addo(p.off, k, s), s)

    def ext_memcmp(self, s, a, loc):
        """memcmp(p,q,n): the result's sign is given by the first difference"""
        D = self.dom
        p, q, n = a
        self.access_opt(s, p, n, loc, False)
        self.access_opt(s, q, n, loc, False)
        r = D.fresh(s, 'memcmp', 32)
        if D.cmp('eq', n, 0, 64) is True or p.obj.kind == 'null' or q.obj.kind == 'null':
            s.add(D.cmp('eq', r, 0, 32))
            return r
        f = D.fresh(s, 'fdiff', 64)
        N = self.N
        nn, ff = N(n), N(f)

        def rd(x, k):
            return N(D.zext(self.readN(s, x, self.unN(k)), 8, 64, s))
        eq = FAnd([D.cmp('eq', r, 0, 32), D.cmp('eq', f, n, 64)])
        lt = FAnd([D.cmp('slt', r, 0, 32), D.cmp('ult', f, n, 64), _LazyF(lambda: (rd(p, ff) < rd(q, ff)))])
        gt = FAnd([D.cmp('sgt', r, 0, 32), D.cmp('ult', f, n, 64), _LazyF(lambda: (rd(p, ff) > rd(q, ff)))])
        mark = len(s.pc)
        same = Forall(0, ff, lambda k: rd(p, k) == rd(q, k))
        fs = FAnd([FOr([eq, _force(lt), _force(gt)]), same])
        self.assume(s, fs)
        return r

    def ext_toupper(self, s, a, loc, lo=97, hi=122, d=-32):
        """ISO C, "C" locale: the argument must be an unsigned char value (or EOF)"""
        D = self.dom
        x = a[0]
        self.oblige(s, 'libc precondition (ctype argument is an unsigned char)', D.cmp('ule', x, 255, 32, s), loc)
        s.add(tobool(D.cmp('ule', x, 255, 32, s)))
        c = b_and(D.cmp('uge', x, lo, 32, s), D.cmp('ule', x, hi, 32, s))
        return D.ite(c, D.add(x, d % (1 << 32), 32, s), x, 32) if not isinstance(c, bool) else (D.add(x, d % (1 << 32), 32, s) if c else x)

    def ext_tolower(self, s, a, loc):
        return self.ext_toupper(s, a, loc, 65, 90, 32)

    def ext_strlen(self, s, a, loc):
        D = self.dom
        p = a[0]
        if isinstance(p, Ptr) and p.obj.kind == 'global' and isinstance(s.mem.get(p.obj.id), Base):
            d = s.mem[p.obj.id].data
            if d is not None and is_const(p.off):
                j = p.off
                while j < len(d) and d[j] != 0:
                    j += 1
                if j < len(d):
                    return j - p.off
        self.access(s, p, 1, loc)
        n = D.fresh(s, 'strlen', 64)
        # trusted: the string is terminated inside the object
        z = self.readN(s, p, n)
        self.oblige(s, 'strlen-terminated', Exists(self.N(p.off), self.N(p.obj.size), lambda k: self.N(D.zext(self.read_byte(s.mem[p.obj.id], self.unN(k), s), 8, 64, s)) == 0), loc)
        s.add(D.cmp('ult', self.addo(p.off, n, s), p.obj.size, 64))
        s.add(D.cmp('eq', z, 0, 8))
        self.assume(s, Forall(0, self.N(n), lambda k: self.N(D.zext(self.readN(s, p, self.unN(k)), 8, 64, s)) != 0))
        return n

    # ---------------------------------------------------------------- loop rule
    def loop_rule(self, st, lp):
        """Inductive treatment of an arbitrary number of iterations.
        Returns the exit states (each for a symbolic iteration number n)."""
        D = self.dom
        fr0 = st.frames[-1]
        blk = lp.fn.blocks[lp.header]
        phis = [i for i in blk.ins if i.op == 'phi']
        entry = []
        for i in phis:
            for v, lb in i.a[0]:
                if lb == fr0.blk:
                    entry.append(self.val(st, i.ty, v) if not (v[0] == 'undef') else UNDEF)
                    break
            else:
                raise Unsupported('phi edge')
        key = (lp.fn.name, lp.header, tuple(e.obj.name if isinstance(e, Ptr) else '' for e in entry))
        old = self.plans.get(key)
        plan = self.init_plan(phis, entry, lp)
        if old is not None:
            for i, e in zip(phis, entry):
                if i.dst in old.mode and not isinstance(e, Undef) and old.mode[i.dst][0] != 'undef':
                    plan.mode[i.dst] = old.mode[i.dst]
            plan.noaff = set(old.noaff)
            plan.only = [c.name for c in old.cands or []]
        for attempt in range(12):
            r = self.try_loop(st, lp, phis, entry, plan)
            if isinstance(r, Plan):
                plan = r
                continue
            self.plans[key] = plan
            self.stats['loops_rule'] += 1
            return r
        raise Unsupported('loop plan did not stabilise')

    def init_plan(self, phis, entry, lp):
        plan = Plan()
        for i, e in zip(phis, entry):
            plan.mode[i.dst] = ('aff', self.guess_stride(i, lp))
            ty = self.mod.resolve(i.ty)
            if plan.mode[i.dst][1] is None or ty.k not in ('int', 'ptr') or (ty.k == 'int' and ty.a == 1):
                plan.mode[i.dst] = ('any',)
            if isinstance(e, Undef):
                plan.mode[i.dst] = ('undef',)
        return plan

    def guess_stride(self, phi, lp):
        """syntactic guess for phi' = phi + c"""
        f = lp.fn
        defs = {}
        for b in lp.body:
            for j in f.blocks[b].ins:
                if j.dst:
                    defs[j.dst] = j
        out = set()
        for v, lb in phi.a[0]:
            if lb not in lp.body:
                continue
            if v[0] != 'reg':
                return None
            acc = 0
            cur = v[1]
            for _ in range(8):
                if cur == phi.dst:
                    break
                j = defs.get(cur)
                if j is None:
                    return None
                if j.op == 'add' and j.a[1][0] == 'int' and j.a[0][0] == 'reg':
                    acc += j.a[1][1]
                    cur = j.a[0][1]
                elif j.op == 'gep' and len(j.a[0]) == 2 and j.a[0][1][1][0] == 'int' and j.a[0][0][1][0] == 'reg':
                    acc += j.a[0][1][1][1] * self.mod.size(j.ty)
                    cur = j.a[0][0][1][1]
                elif j.op == 'extractvalue' and j.a[0][0] == 'reg' and j.a[1] == [0]:
                    q = defs.get(j.a[0][1])
                    if q is None or q.op != 'call' or '.with.overflow' not in str(q.a[0][1]):
                        return None
                    sg = -1 if 'sub' in q.a[0][1] else 1
                    if 'mul' in q.a[0][1] or q.a[1][1][1][0] != 'int' or q.a[1][0][1][0] != 'reg':
                        return None
                    acc += sg * q.a[1][1][1][1]
                    cur = q.a[1][0][1][1]
                else:
                    return None
            else:
                return None
            if cur != phi.dst:
                return None
            out.add(acc)
        return out.pop() if len(out) == 1 else None

    def try_loop(self, st, lp, phis, entry, plan):
        """one attempt with a plan; returns a new Plan or the list of exit states"""
        D = self.dom
        h = st.copy()
        fr = h.frames[-1]
        cells = {}
        phis, entry = list(phis), list(entry)
        for oid, sl in plan.mem.items():
            if isinstance(sl, tuple) and sl[0] == 'cells' and oid in h.mem:
                for (off, size, ty) in sl[1]:
                    ph = ir.Instr('phi', '$cell_%d_%s' % (oid, off), ty, ([],), '')
                    ev = self.load_val(h.mem[oid], off, ty, st)
                    if isinstance(ev, Undef) and ty.k == 'ptr':
                        raise Unsupported('undefined pointer cell')
                    cells[ph.dst] = (oid, off, size, ty)
                    phis.append(ph)
                    entry.append(ev)
                    plan.mode.setdefault(ph.dst, ('any',))
        pm, fm, sm = len(h.pc), len(h.facts), len(h.fresh)
        n = z3.Const(fresh_name('n'), D.IDX)
        h.fresh.append(n)
        if D.name == 'int':
            h.add(n >= 0)
            D.setr(n, 0, (1 << 64) - 1)
        P = {}
        hv = {}
        for i, e in zip(phis, entry):
            md = plan.mode[i.dst]
            ty = self.mod.resolve(i.ty)
            if md[0] == 'aff':
                s = md[1]
                if isinstance(e, Ptr):
                    hv[i.dst] = Ptr(e.obj, self.aff(e.off, s, n, 64, h, True))
                else:
                    hv[i.dst] = self.aff(e, s, n, ty.a, h)
            elif md[0] == 'undef':
                hv[i.dst] = UNDEF
            else:
                if isinstance(e, Ptr):
                    uf = z3.Function(fresh_name('P_' + i.dst[1:]), D.IDX, D.sort(64))
                    hv[i.dst] = Ptr(e.obj, uf(n))
                elif ty.k == 'int' and ty.a == 1:
                    uf = z3.Function(fresh_name('P_' + i.dst[1:]), D.IDX, z3.BoolSort())
                    hv[i.dst] = uf(n)
                elif ty.k == 'int':
                    uf = z3.Function(fresh_name('P_' + i.dst[1:]), D.IDX, D.sort(ty.a))
                    hv[i.dst] = uf(n)
                    if D.name == 'int':
                        h.add(z3.And(uf(n) >= 0, uf(n) < (1 << ty.a)))
                        D.setr(hv[i.dst], 0, (1 << ty.a) - 1)
                else:
                    raise Unsupported('phi type')
                h.fresh.append(uf)
                P[i.dst] = uf
        zero = D.mk(0, 64)
        for i, e in zip(phis, entry):
            if i.dst in P and not isinstance(e, Undef):
                ev = e.off if isinstance(e, Ptr) else e
                ty = self.mod.resolve(i.ty)
                if ty.k == 'int' and ty.a == 1:
                    h.add(P[i.dst](zero) == tobool(self.tob(ev)))
                else:
                    h.add(P[i.dst](zero) == D.mk(ev, 64 if ty.k == 'ptr' else ty.a))
        # memory written by the loop
        sites = {}
        havs = {}
        for oid, sl in plan.mem.items():
            if oid not in h.mem:
                continue
            if isinstance(sl, tuple):
                for d, (o2, off, size, ty) in cells.items():
                    if o2 == oid:
                        h.mem[oid] = St(h.mem[oid], off, size, hv[d], size * 8)
                continue
            if sl == 'havoc':
                M = z3.Function(fresh_name('M'), D.IDX, D.IDX, D.sort(8))
                h.fresh.append(M)
                havs[oid] = (M, h.mem[oid])
                h.mem[oid] = Hav(M, n)
                continue
            c = h.mem[oid]
            lst = []
            for (off0, stride, size, cond) in sl:
                V = z3.Function(fresh_name('V'), D.IDX, D.sort(size * 8))
                h.fresh.append(V)
                W = None
                if cond:
                    W = z3.Function(fresh_name('W'), D.IDX, z3.BoolSort())
                    h.fresh.append(W)
                sx = Site(off0, stride, size, V, W)
                lst.append(sx)
                c = LoopW(c, sx, n)
            sites[oid] = lst
            h.mem[oid] = c
        hdrmem = dict(h.mem)
        # candidate invariants
        cands = plan.cands
        if cands is None:
            cands = self.candidates(st, phis, entry, plan, P, lp)
            if plan.only is not None:
                cands = [c for c in cands if c.name in plan.only]
            plan.cands = cands
        env0 = {i.dst: (e.off if isinstance(e, Ptr) else e) for i, e in zip(phis, entry)}
        envn = {k: (v.off if isinstance(v, Ptr) else v) for k, v in hv.items()}
        invs = []
        if not plan.checked0:
            keep = []
            for c in cands:
                g = c.f(env0, D.mk(0, 64), st)
                if g is not None and (g is True or self.proves(st, g)):
                    keep.append(c)
            if len(keep) != len(cands):
                cands = plan.cands = keep
            plan.checked0 = True
        else:
            for c in list(cands):
                g = c.f(env0, D.mk(0, 64), st)
                if not (g is True or (g is not None and self.proves(st, g))):
                    cands = plan.cands = [x for x in cands if x is not c]
        for c in cands:
            g = c.f(envn, n, h)
            if g is not None and g is not True:
                h.add(g)
                invs.append(g)
        if not self.feasible(h):
            raise Unsupported('contradictory invariants')
        for k, v in hv.items():
            if k not in cells:
                fr.regs[k] = v
        fr.prev, fr.blk, fr.ip = fr.blk, lp.header, len(phis) - len(cells)
        bm = len(h.pc)
        h0 = h.copy()
        self.obl.append([])
        try:
            back, exits, rets = self.run(h, lp)
        finally:
            obl = self.obl.pop()
        if rets:
            exits = exits + rets
            raise Unsupported('return inside loop')
        # ---- examine back edges
        newplan = None
        bvals = []
        for b in back:
            frb = b.frames[-1]
            row = {}
            for i in phis:
                if i.dst in cells:
                    oid, off, size, ty = cells[i.dst]
                    row[i.dst] = self.load_val(b.mem[oid], off, ty, b)
                    continue
                for v, lb in i.a[0]:
                    if lb == frb.blk:
                        row[i.dst] = self.val(b, i.ty, v) if v[0] != 'undef' else UNDEF
                        break
            bvals.append(row)
        one = D.mk(1, 64)
        for i, e in zip(phis, entry):
            md = plan.mode[i.dst]
            ty = self.mod.resolve(i.ty)
            if md[0] == 'undef':
                # entry undefined: value is whatever the last iteration left
                if any(not isinstance(r[i.dst], Undef) for r in bvals) and not all(self.same(r[i.dst], hv[i.dst]) for r in bvals):
                    np = newplan or plan.copy()
                    np.mode[i.dst] = ('any',)
                    newplan = np
                continue
            if md[0] == 'aff':
                for b, r in zip(back, bvals):
                    ok = self.is_next(b, r[i.dst], hv[i.dst], md[1], ty, e, n)
                    if not ok:
                        np = newplan or plan.copy()
                        np.mode[i.dst] = ('any',)
                        np.cands = None
                        newplan = np
                        break
            else:
                # can it be promoted to affine?
                ds = set()
                for r in bvals:
                    if isinstance(r[i.dst], Undef):
                        ds.add(None)
                        continue
                    if isinstance(e, Undef):
                        ds.add(None)
                        continue
                    x, y = r[i.dst], hv[i.dst]
                    if isinstance(x, Ptr):
                        if x.obj is not e.obj:
                            raise Unsupported('pointer phi changes object')
                        x, y = x.off, y.off
                    if ty.k == 'int' and ty.a == 1:
                        ds.add(0 if (not isinstance(x, bool) and x.eq(y)) else None)
                        continue
                    w = 64 if ty.k == 'ptr' else ty.a
                    d = D.sub(x, y, w, st) if D.name == 'bv' else simp(D.mk(x, w) - D.mk(y, w))
                    if not is_const(d) and D.name == 'int':
                        d = d.as_long() if z3.is_int_value(d) else d
                    ds.add(sgn(d, w) if is_const(d) else None)
                if len(ds) == 1 and None not in ds and i.dst not in plan.noaff and not (ty.k == 'int' and ty.a == 1):
                    np = newplan or plan.copy()
                    np.mode[i.dst] = ('aff', ds.pop())
                    np.cands = None
                    newplan = np
                elif not back:
                    pass
        if newplan is not None:
            if DBG:
                print('   replan', lp.header, newplan.mode)
            for i in phis:
                if plan.mode[i.dst][0] == 'aff' and newplan.mode[i.dst][0] == 'any':
                    newplan.noaff.add(i.dst)
            for i in phis:
                if i.dst in cells and newplan.mode[i.dst][0] == 'aff' and plan.mode[i.dst][0] == 'any' and i.dst in plan.noaff:
                    newplan.mode[i.dst] = ('any',)
            return newplan
        # memory
        want = {}
        for b in back:
            for oid, c in b.mem.items():
                if oid not in hdrmem or c is hdrmem[oid]:
                    continue
                if plan.mem.get(oid) == 'havoc':
                    continue
                if self.only_cells(c, hdrmem[oid], n, h0, sm) and not isinstance(want.get(oid), list) and (not isinstance(plan.mem.get(oid), list)):
                    w0 = want.setdefault(oid, ('cells', []))
                    if w0 != 'havoc':
                        for x in self.only_cells(c, hdrmem[oid], n, h0, sm):
                            if x not in w0[1]:
                                w0[1].append(x)
                    continue
                if isinstance(want.get(oid), tuple) or isinstance(plan.mem.get(oid), tuple):
                    want[oid] = 'havoc'
                    continue
                if want.get(oid) == 'havoc':
                    continue
                lst = want.setdefault(oid, [])
                stores = []
                x = c
                while x is not hdrmem[oid]:
                    if not isinstance(x, St) or isinstance(x.val, (Ptr, Undef)):
                        stores = None
                        break
                    stores.append(x)
                    x = x.prev
                if stores is None:
                    want[oid] = 'havoc'
                    break
                if want[oid] == 'havoc':
                    break
                mine = []
                for x in reversed(stores):
                    o0, sd = self.affine_in(x.off, n)
                    if o0 is None or sd == 0:
                        want[oid] = 'havoc'
                        break
                    mine = [m for m in mine if not (m[1] == sd and self.diff(m[0], o0) == 0 and m[2] == x.size)]
                    mine.append((o0, sd, x.size, x))
                if want[oid] == 'havoc':
                    break
                lst.append((b, mine))
            for oid in list(want):
                pass
        newmem = {}
        site_vals = {}
        for oid, lst in want.items():
            if lst == 'havoc' or isinstance(lst, tuple):
                newmem[oid] = lst
                continue
            keys = []
            for b, mine in lst:
                for m in mine:
                    if not any(k[1] == m[1] and k[2] == m[2] and self.diff(k[0], m[0]) == 0 for k in keys):
                        keys.append(m[:3])
            res = []
            for k in keys:
                cnt = 0
                for b in back:
                    for bb, mine in lst:
                        if bb is b and any(k[1] == m[1] and k[2] == m[2] and self.diff(k[0], m[0]) == 0 for m in mine):
                            cnt += 1
                res.append((k[0], k[1], k[2], cnt != len(back)))
            newmem[oid] = res
        for oid in plan.mem:
            if plan.mem[oid] == 'havoc':
                newmem[oid] = 'havoc'
        if self.memplan_differs(plan.mem, newmem, st):
            np = plan.copy()
            np.mem = newmem
            for oid, v in plan.mem.items():
                if oid not in newmem:
                    np.mem[oid] = v
            np.memtries += 1
            np.cands = None
            if np.memtries > 5:
                for oid in np.mem:
                    np.mem[oid] = 'havoc'
            if DBG:
                print('   memplan', {k: (v if v == 'havoc' or isinstance(v, tuple) else [(str(a), s_, z_, c_) for a, s_, z_, c_ in v]) for k, v in np.mem.items()})
            return np
        # ---- candidate preservation (Houdini)
        bad = []
        for c in cands:
            for b, r in zip(back, bvals):
                env = {}
                for k, v in r.items():
                    env[k] = v.off if isinstance(v, Ptr) else v
                g = c.f(env, D.add(n, 1, 64, b) if D.name == 'bv' else n + 1, b)
                if g is True:
                    continue
                if g is None or not self.proves(b, g):
                    bad.append(c)
                    break
        if bad:
            if DBG:
                print('   dropping', [c.name for c in bad])
            np = plan.copy()
            np.cands = [c for c in cands if c not in bad]
            return np
        # ---- history fact
        H, extra = self.history(h0, lp, phis, entry, plan, P, hv, n, back, bvals, pm, bm, fm, sm, sites, havs, invs, hdrmem)
        # write disjointness
        for oid, lst in list(sites.items()):
            if not self.sites_disjoint(h0, lst, n, H):
                np = plan.copy()
                np.mem[oid] = 'havoc'
                return np
        # ---- termination
        self.obl.append([])
        self.termination(lp, back, bvals, hv, phis, n, H, fm)
        obl += self.obl.pop()
        if DBG:
            print('  loop', lp.header, plan.mode, 'back', len(back), 'exits', len(exits), 'cands', [c.name for c in cands], 'mem', {k: len(v) for k, v in plan.mem.items()})
        # publish obligations with the history fact
        for o in obl:
            if o[0] == 'todo':
                _, kind, loc, pc, facts, goal = o
                self.obl[-1].append(('todo', kind, loc, pc, facts[:fm] + [H] + extra + facts[fm:], goal))
            else:
                self.obl[-1].append(o)
        for c in cands:
            self.obl[-1].append(('ok', 'loop-invariant:' + c.name, lp.fn.name + lp.header))
        for e in exits:
            e.facts[fm:fm] = [H] + extra
        return exits

    def proves(self, st, g, tmo=3000):
        r, _ = self.prove(st, g, rounds=3, tmo=tmo, wall=6)
        return r == 'ok'

    def addr_regs(self, fn):
        """registers that (transitively) feed an address computation"""
        cache = self.__dict__.setdefault('_addr', {})
        if fn.name in cache:
            return cache[fn.name]
        defs, work = {}, []

        def regs(x, out):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'reg':
                out.append(x[1])
            elif isinstance(x, (list, tuple)):
                for y in x:
                    regs(y, out)
            return out
        for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
            for j in b.ins:
                if j.dst:
                    defs[j.dst] = j
        # stores of values are not addresses: only gep/load operands and the arguments of memory functions count
        work = []
        for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
            for j in b.ins:
                if j.op in ('gep', 'load') or j.op == 'call' and 'mem' in str(j.a[0]):
                    work += regs(j.a, [])
        seen = set()
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            j = defs.get(r)
            if j is not None and j.op != 'load':
                regs(j.a, work)
        cache[fn.name] = seen
        return seen

    def pick(self, s, c, a, b):
        c = norm_bool(c)
        if not isinstance(c, bool):
            d = self.decide(s, c)
            if d is not None:
                c = d
        if isinstance(c, bool):
            return a if c else b
        return self.dom.ite(c, a, b, 64)

    def same(self, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return isinstance(a, Undef) and isinstance(b, Undef)
        if isinstance(a, Ptr):
            return isinstance(b, Ptr) and a.obj is b.obj and self.diff(a.off, b.off) == 0
        if is_const(a) or is_const(b):
            return is_const(a) and is_const(b) and a == b
        return a.eq(b)

    def aff(self, e, s, n, w, st, ptr=False):
        D = self.dom
        if s == 0:
            return e
        if D.name == 'bv':
            m = n if w == 64 else z3.Extract(w - 1, 0, n)
            return D.canon(D.mk(e, w) + z3.BitVecVal(s, w) * m)
        if s < 0 and w == 64 and not ptr:
            # counts down, possibly to below zero: follow the signed reading
            y0, lo, hi = D.signed(e, 64, st)
            if hi > 1 << 62 and not is_const(y0) and st.must(D.mk(y0, 64) <= 1 << 62):
                hi = 1 << 62
            if not is_const(y0) and hi <= 1 << 62 and (lo >= s or st.must(D.mk(y0, 64) >= s)):
                y = D.canon(D.mk(y0, 64) + s * n)
                x = z3.If(y < 0, y + (1 << 64), y)
                st.add(y >= s)
                D.setr(x, 0, (1 << 64) - 1)
                st.sal[x.get_id()] = (x, y, s, hi)
                return x
        r = D.canon(D.mk(e, w) + s * n)
        if not is_const(r):
            D.setr(r, 0, (1 << w) - 1)
            st.add(z3.And(r >= 0, r < (1 << w)))
        return r

    def is_next(self, b, x, y, s, ty, e, n):
        """back-edge value x equals header value y + stride"""
        D = self.dom
        if isinstance(x, Undef):
            return False
        if isinstance(x, Ptr):
            if not isinstance(y, Ptr) or x.obj is not y.obj:
                return False
            x, y = x.off, y.off
        w = 64 if ty.k == 'ptr' else ty.a
        if D.name == 'bv':
            d = D.sub(D.sub(x, y, w), s & ((1 << w) - 1), w)
            if is_const(d):
                return d == 0
            return self.proves(b, D.mk(d, w) == 0)
        al = D.alias(y, b) if w == 64 else None
        if al:
            z = al[1] + s
            xs = D.signed(x, 64, b)[0]
            return self.proves(b, z3.And(D.mk(xs, 64) == z, z >= s))
        g = norm_bool(D.mk(x, w) == D.mk(y, w) + s)
        return g is True or self.proves(b, tobool(g))

    def affine_in(self, off, n):
        """(off at n=0, constant stride) or (None,None)"""
        D = self.dom
        if is_const(off):
            return off, 0
        z = D.mk(0, 64)
        o0 = D.canon(z3.substitute(off, (n, z)))
        d = simp(z3.substitute(off, (n, n + D.mk(1, 64))) - off)
        if D.name == 'bv' and z3.is_bv_value(d):
            return o0, d.as_signed_long()
        if D.name == 'int' and z3.is_int_value(d):
            return o0, d.as_long()
        return None, None

    def only_cells(self, c, hdr, n, h0, sm):
        """stores at constant, loop-independent offsets of fixed size, mutually equal or disjoint"""
        out = []
        x = c
        while x is not hdr:
            if not isinstance(x, St) or not is_const(x.off) or isinstance(x.val, Undef):
                return None
            ty = ir.PTR if isinstance(x.val, Ptr) else ir.IntTy(x.size * 8)
            k = (x.off, x.size, ty)
            if k not in out:
                for (o, z, t) in out:
                    if o < x.off + x.size and x.off < o + z:
                        return None
                out.append(k)
            x = x.prev
        return out

    def memplan_differs(self, a, b, st):
        for oid, v in b.items():
            u = a.get(oid)
            if u is None:
                return True
            if u == 'havoc':
                continue
            if isinstance(v, tuple) and isinstance(u, tuple):
                if any(x not in u[1] for x in v[1]):
                    v[1].extend(x for x in u[1] if x not in v[1])
                    return True
                continue
            if isinstance(u, tuple) or isinstance(v, tuple):
                return True
            if v == 'havoc':
                return True
            if len(u) != len(v):
                return True
            for (o1, s1, z1, c1) in v:
                if not any(s1 == s2 and z1 == z2 and self.diff(o1, o2) == 0 and (c2 or not c1) for (o2, s2, z2, c2) in u):
                    return True
        return False

    def sites_disjoint(self, h, lst, n, H):
        """stores of different iterations never hit the same byte"""
        D = self.dom
        for ai, a in enumerate(lst):
            if abs(a.stride) < a.size:
                return False
            for b in lst[ai + 1:]:
                if a.stride == b.stride:
                    d = self.diff(a.off0, b.off0)
                    if d is not None:
                        sd = abs(a.stride)
                        r = d % sd
                        if r >= b.size and sd - r >= a.size:
                            continue
                # two different sites: need m1 != m2 -> disjoint; same iteration: later store wins in layer order
                m1 = z3.Const(fresh_name('m1'), D.IDX)
                m2 = z3.Const(fresh_name('m2'), D.IDX)
                s = h.copy()
                s.facts.append(H)
                ule = z3.ULE if D.name == 'bv' else (lambda x, y: x <= y)
                for q in (m1, m2):
                    s.add(z3.ULT(q, n) if D.name == 'bv' else z3.And(q >= 0, q < n))
                s.add(m1 != m2)
                oa = D.mk(a.off0, 64) + a.stride * m1
                ob = D.mk(b.off0, 64) + b.stride * m2
                for f in (H,):
                    p1, n1 = f.inst(m1)
                    p2, n2 = f.inst(m2)
                    s.add(p1)
                    s.add(p2)
                    s.facts += n1 + n2
                g = z3.Or(ule(oa + a.size, ob), ule(ob + b.size, oa))
                if not self.proves(s, g):
                    return False
            if abs(a.stride) > 1:
                pass
        return True

    def history(self, h, lp, phis, entry, plan, P, hv, n, back, bvals, pm, bm, fm, sm, sites, havs, invs, hdrmem):
        """for all m < n: iteration m took one of the back-edge paths"""
        D = self.dom
        m = z3.Const(fresh_name('m'), D.IDX)
        own = [s for s in h.fresh[sm:]]
        ownids = set(id(x) for x in own)
        nown = len(h.fresh)
        alts, nested, syms = [], [], []
        extra = []
        np1 = n + D.mk(1, 64)
        for b, r in zip(back, bvals):
            cs = list(b.pc[bm:])
            for i in phis:
                if i.dst in P:
                    v = r[i.dst]
                    if isinstance(v, Undef):
                        continue
                    v = v.off if isinstance(v, Ptr) else v
                    ty = self.mod.resolve(i.ty)
                    if ty.k == 'int' and ty.a == 1:
                        cs.append(P[i.dst](np1) == tobool(self.tob(v)))
                    else:
                        cs.append(P[i.dst](np1) == D.mk(v, 64 if ty.k == 'ptr' else ty.a))
            for oid, lst in sites.items():
                wr = []
                x = b.mem[oid]
                while x is not hdrmem[oid]:
                    wr.append(x)
                    x = x.prev
                for sx in lst:
                    hit = None
                    for x in wr:
                        o0, sd = self.affine_in(x.off, n)
                        if o0 is not None and sd == sx.stride and self.diff(o0, sx.off0) == 0 and x.size == sx.size:
                            hit = x
                            break
                    if hit is not None:
                        v = hit.val
                        if isinstance(v, bool) or (not is_const(v) and z3.is_bool(v)):
                            v = self.b2i(v, 8)
                        cs.append(sx.V(n) == D.mk(v, sx.size * 8))
                        if sx.W is not None:
                            cs.append(sx.W(n))
                    else:
                        cs.append(z3.Not(sx.W(n)))
            fl = list(b.facts[fm:])
            for oid, (M, c0) in havs.items():
                k = z3.Const(fresh_name('k'), D.IDX)
                mk_, fk_ = len(b.pc), len(b.fresh)
                v = self.read_byte(b.mem[oid], k, b)
                if len(b.pc) != mk_:
                    extra = b.pc[mk_:]
                    del b.pc[mk_:]
                else:
                    extra = []
                phi = z3.And(*(extra + [M(np1, k) == D.mk(v, 8)]))
                sy = b.fresh[fk_:]
                del b.fresh[fk_:]
                fl.append(F('mem', k, phi, [], sy))
            sy = b.fresh[nown:]
            phi = z3.And(*cs) if len(cs) != 1 else cs[0]
            if len(back) > 1 and fl:
                g = z3.Bool(fresh_name('sel'))
                syms.append(g)
                phi = z3.And(g, phi)
                fl = [self.guarded(f, g) for f in fl]
            alts.append(phi)
            nested += fl
            syms += sy
        inv = list(invs)
        body = z3.Or(*alts) if len(alts) > 1 else (alts[0] if alts else z3.BoolVal(False))
        allb = z3.And(*(inv + [body])) if inv else body
        lt = (z3.ULT(m, n) if D.name == 'bv' else z3.And(m >= 0, m < n))
        nn = z3.Const(fresh_name('nn'), D.IDX)
        # rename n -> m inside the body only
        sub = lambda e: z3.substitute(e, (n, m))
        phi = z3.Implies(lt, sub(allb))
        nest = [f.subst([(n, m)], []) for f in nested]
        nest = [self.guarded(f, lt) for f in nest]
        trig = make_triggers([phi], m)
        dflt = [simp(n - D.mk(1, 64)), D.mk(0, 64)]
        # V/W/P triggers
        have = set((d, j) for d, j, _ in trig)
        for oid, lst in sites.items():
            for sx in lst:
                trig.append((sx.V.name(), 0, m))
                if sx.W is not None:
                    trig.append((sx.W.name(), 0, m))
        for oid, (M, c0) in havs.items():
            trig.append((M.name(), 0, m + 1))
        for oid, (M, c0) in havs.items():
            k = z3.Const(fresh_name('k'), D.IDX)
            v = self.read_byte(c0, k, h)
            extra.append(F('mem0', k, M(D.mk(0, 64), k) == D.mk(v, 8)))
        pats = [m]
        for i in phis:
            if plan.mode[i.dst][0] == 'aff' and plan.mode[i.dst][1] != 0:
                x = hv[i.dst]
                x = x.off if isinstance(x, Ptr) else x
                if not is_const(x) and x.sort() == D.IDX:
                    pats.append(z3.substitute(x, (n, m)))
        return F('loop' + lp.header, m, phi, nest, syms, trig, dflt, pats=pats), extra

    def guarded(self, f, g):
        return F(f.name, f.k, f.phi, f.nested, f.syms, f.triggers, f.defaults, g if f.guard is True else z3.And(g, f.guard), f.pats)

    def termination(self, lp, back, bvals, hv, phis, n, H, fm):
        D = self.dom
        loc = lp.fn.name + lp.header
        if not back:
            return
        sc = []
        for i in phis:
            ty = self.mod.resolve(i.ty)
            if ty.k == 'ptr' or (ty.k == 'int' and ty.a > 1):
                x = hv[i.dst]
                if isinstance(x, Undef):
                    continue
                w = 64 if ty.k == 'ptr' else ty.a
                sc.append((i.dst, w))

        def get(env, k):
            v = env[k]
            return v.off if isinstance(v, Ptr) else v
        tests = []
        for k, w in sc:
            tests.append((k + ' up', w, lambda env, k=k: get(env, k), 'ult'))
            tests.append((k + ' down', w, lambda env, k=k: get(env, k), 'ugt'))
            if D.name == 'bv':
                # counting down to -1
                tests.append((k + '+1 down', w, lambda env, k=k, w=w: D.add(get(env, k), 1, w, None), 'ugt'))
        for a, w in sc:
            for b, w2 in sc:
                if a < b and w == 64 and w2 == 64:
                    tests.append((a + '-' + b, 64, lambda env, a=a, b=b: D.sub(get(env, a), get(env, b), 64, None) if D.name == 'bv' else None, 'ult'))
                    tests.append((b + '-' + a, 64, lambda env, a=a, b=b: D.sub(get(env, a), get(env, b), 64, None) if D.name == 'bv' else None, 'ugt'))
        for nm, w, fn, pr in tests:
            ok = True
            for b, r in zip(back, bvals):
                if any(isinstance(v, Undef) for v in (r[k] for k, _ in sc)):
                    ok = False
                    break
                x = fn({k: v for k, v in hv.items()})
                y = fn(r)
                if x is None:
                    ok = False
                    break
                g = D.cmp(pr, x, y, w)
                if g is True:
                    continue
                s = State(self)
                s.pc, s.facts = b.pc, b.facts[:fm] + [H] + b.facts[fm:]
                if g is False or not self.proves(s, tobool(g)):
                    ok = False
                    break
            if ok:
                self.obl[-1].append(('ok', 'termination', loc))
                return
        if D.name == 'int':
            for k, w in sc:
                v = hv[k]
                if isinstance(v, Ptr) or w != 64 or not all(D.alias(v, b) for b in back) or any(isinstance(r[k], Undef) for r in bvals):
                    continue
                ok = True
                for b, r in zip(back, bvals):
                    y = D.alias(v, b)[1]
                    s = State(self)
                    s.pc, s.facts = b.pc, b.facts[:fm] + [H] + b.facts[fm:]
                    if not self.proves(s, z3.And(y >= 0, D.mk(D.signed(r[k], 64, b)[0], 64) < y)):
                        ok = False
                        break
                if ok:
                    self.obl[-1].append(('ok', 'termination', loc))
                    return
        b = back[0]
        if self.dom.name == 'int':
            self.obl[-1].append(('unk', 'termination', loc))
        else:
            self.obl[-1].append(('noterm', 'termination', loc))

    # ---------------------------------------------------------------- candidates
    def candidates(self, st, phis, entry, plan, P, lp):
        D = self.dom
        out = []
        if D.name != 'bv':
            return out
        aff = [i for i in phis if plan.mode[i.dst][0] == 'aff']
        # iteration counter stays small (objects are < 2^56 bytes)
        out.append(Cand('n<=2^57', lambda env, n, s: norm_bool(z3.ULE(n, 1 << 57))))
        if any(self.mod.resolve(i.ty).k == 'int' and self.mod.resolve(i.ty).a < 64 for i in aff):
            for nm, t in self.nterms:
                out.append(Cand('n<=%s' % nm, lambda env, n, s, t=t: norm_bool(z3.ULE(D.mk(n, 64), t))))
        idxs = []
        for i in aff:
            ty = self.mod.resolve(i.ty)
            if (ty.k == 'ptr') or (ty.k == 'int' and ty.a == 64):
                idxs.append(i.dst)
        for i, e in zip(phis, entry):
            if plan.mode[i.dst][0] == 'aff' and plan.mode[i.dst][1] != 0 and not isinstance(e, Undef):
                ty = self.mod.resolve(i.ty)
                w = 64 if ty.k == 'ptr' else ty.a
                ee = e.off if isinstance(e, Ptr) else e
                for t in self.terms:
                    if w == 64:
                        out.append(Cand('%s<=%s' % (i.dst, t), lambda env, n, s, d=i.dst, t=t: D.cmp('ule', env[d], t, 64)))
                if plan.mode[i.dst][1] > 0:
                    out.append(Cand('%s>=entry' % i.dst, lambda env, n, s, d=i.dst, ee=ee, w=w: D.cmp('uge', env[d], ee, w)))
                else:
                    out.append(Cand('%s<=entry' % i.dst, lambda env, n, s, d=i.dst, ee=ee, w=w: D.cmp('ule', env[d], ee, w)))
                    out.append(Cand('%s+1<=entry+1' % i.dst, lambda env, n, s, d=i.dst, ee=ee, w=w: D.cmp('ule', D.add(env[d], 1, w), D.add(ee, 1, w), w)))
        for i, e in zip(phis, entry):
            if i.dst not in P:
                continue
            ty = self.mod.resolve(i.ty)
            w = 64 if ty.k == 'ptr' else ty.a
            if w == 1:
                continue
            d = i.dst
            if isinstance(e, Undef):
                continue
            ee = e.off if isinstance(e, Ptr) else e
            for uf, fw, name in self.folds:
                if fw == w:
                    for x in idxs:
                        out.append(Cand('%s==%s(%s)' % (d, name, x), lambda env, n, s, d=d, x=x, uf=uf, w=w: D.mk(env[d], w) == uf(D.mk(env[x], 64))))
                    out.append(Cand('%s==%s(n)' % (d, name), lambda env, n, s, d=d, uf=uf, w=w: D.mk(env[d], w) == uf(D.mk(n, 64))))
            if self.fold_only and any(fw == w for _, fw, _ in self.folds):
                continue
            out.append(Cand('%s>=entry' % d, lambda env, n, s, d=d, ee=ee, w=w: D.cmp('uge', env[d], ee, w)))
            out.append(Cand('%s<=entry' % d, lambda env, n, s, d=d, ee=ee, w=w: D.cmp('ule', env[d], ee, w)))
            if w == 64:
                for q, cu in enumerate(self.cursors):
                    out.append(Cand('cursor%d(%s)' % (q, d), lambda env, n, s, d=d, cu=cu: norm_bool(z3.Or(D.mk(env[d], 64) == D.mk((1 << 64) - 1, 64), tobool(cu(env[d]))))))
                for t in self.terms:
                    out.append(Cand('%s<=%s' % (d, t), lambda env, n, s, d=d, t=t: D.cmp('ule', env[d], t, 64)))
                for x in idxs:
                    out.append(Cand('%s<=%s' % (d, x), lambda env, n, s, d=d, x=x: D.cmp('ule', env[d], env[x], 64)))
                    out.append(Cand('%s>=%s' % (d, x), lambda env, n, s, d=d, x=x: D.cmp('uge', env[d], env[x], 64)))
                for j, e2 in zip(phis, entry):
                    if j.dst in P and j.dst != d and self.mod.resolve(j.ty).k in ('int', 'ptr') and not isinstance(e2, Undef):
                        if self.mod.resolve(j.ty).k == 'int' and self.mod.resolve(j.ty).a != 64:
                            continue
                        out.append(Cand('%s<=%s' % (d, j.dst), lambda env, n, s, d=d, x=j.dst: D.cmp('ule', env[d], env[x], 64)))
                        # constant sum / difference of two variables (cursor + remaining length)
                        e2o = e2.off if isinstance(e2, Ptr) else e2
                        if d < j.dst:
                            out.append(Cand('%s+%s=const' % (d, j.dst), lambda env, n, s, d=d, x=j.dst, a=ee, b=e2o: D.cmp('eq', D.add(env[d], env[x], 64), D.add(a, b, 64), 64)))
                            out.append(Cand('%s-%s=const' % (d, j.dst), lambda env, n, s, d=d, x=j.dst, a=ee, b=e2o: D.cmp('eq', D.sub(env[d], env[x], 64), D.sub(a, b, 64), 64)))
        for uf, fw, name in self.recs:
            ents = {i.dst: (e.off if isinstance(e, Ptr) else e) for i, e in zip(phis, entry) if not isinstance(e, Undef)}
            R = lambda x, uf=uf: uf(D.mk(x, 64))
            addr = self.addr_regs(lp.fn)
            for x in idxs:
                if x in ents and x in addr:
                    out.append(Cand('%s(%s)=const' % (name, x), lambda env, n, s, x=x, R=R: R(env[x]) == R(ents[x])))
            for i in phis:
                ty = self.mod.resolve(i.ty)
                if ty.k != 'int' or ty.a != fw or not is_const(ents.get(i.dst)):
                    continue
                for j in phis:
                    tj = self.mod.resolve(j.ty)
                    if j.dst == i.dst or j.dst not in ents or j.dst not in addr or not (tj.k == 'ptr' or tj.k == 'int' and tj.a == 64):
                        continue
                    for lim in [None] + [t for t in self.terms if str(t).endswith('_len')]:
                        m = (lambda x, s: x) if lim is None else (lambda x, s, lim=lim: self.pick(s, D.cmp('ule', x, lim, 64), x, lim))
                        out.append(Cand('%s+%s(%s)=const' % (i.dst, name, j.dst), lambda env, n, s, d=i.dst, x=j.dst, R=R, m=m, fw=fw:
                                        D.mk(D.add(env[d], R(m(env[x], s)), fw), fw) == D.mk(D.add(ents[d], R(m(ents[x], s)), fw), fw)))
        for t in self.inv_templates:
            out += t(self, st, phis, entry, plan, P, lp)
        return out


class Cand:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f


class Plan:
    def __init__(self):
        self.mode = {}
        self.mem = {}
        self.cands = None
        self.checked0 = False
        self.noaff = set()
        self.memtries = 0
        self.only = None

    def copy(self):
        p = Plan()
        p.mode, p.mem, p.cands, p.noaff = dict(self.mode), dict(self.mem), self.cands, set(self.noaff)
        p.memtries = self.memtries
        p.only = None
        return p


class _LazyF:
    def __init__(self, f):
        self.f = f


def _force(fa):
    return FAnd([x.f() if isinstance(x, _LazyF) else x for x in fa.fs])
