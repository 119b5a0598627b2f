"""Running the natively compiled code on concrete inputs; the contract itself
is the oracle.  Every buffer ends (or starts) at an inaccessible page and is
surrounded by canaries; each batch runs in a forked child with a time limit."""
import os, sys, ctypes, mmap, random, signal, struct, time, pickle, json
from contract import *
import spec
from smt import sgn

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
CAN = 0xA5


class Arena:
    def __init__(self, pages=72):
        self.n = pages * PAGE
        tot = self.n + 2 * PAGE
        p = libc.mmap(None, tot, 3, 0x22, -1, 0)
        self.lo = p + PAGE
        self.hi = self.lo + self.n
        libc.mprotect(p, PAGE, 0)
        libc.mprotect(self.hi, PAGE, 0)
        self.win = None

    def place(self, data, right, align=1):
        n = len(data)
        if n + 128 > self.n:
            raise ValueError('too big')
        if right:
            a = self.hi - n
            a -= a % align
            self.wlo, self.whi = max(self.lo, a - 64), self.hi
        else:
            a = self.lo
            self.wlo, self.whi = self.lo, min(self.hi, a + n + 64)
        ctypes.memset(self.wlo, CAN, self.whi - self.wlo)
        if n:
            ctypes.memmove(a, bytes(data), n)
        self.addr, self.len = a, n
        return a

    def get(self):
        return ctypes.string_at(self.addr, self.len)

    def canary_ok(self):
        l = ctypes.string_at(self.wlo, self.addr - self.wlo)
        r = ctypes.string_at(self.addr + self.len, self.whi - self.addr - self.len)
        return l.count(CAN) == len(l) and r.count(CAN) == len(r)


class CBuf:
    def __init__(self, data, ln, is_null=False, env=None, addr=0):
        self.data, self.len, self.is_null = data, ln, is_null
        self.env, self.addr = env, addr

    def __getitem__(self, k):
        return self.data[k] if 0 <= k < len(self.data) else 0

    def u(self, off, n, signed=False):
        v = int.from_bytes(self.data[off:off + n], 'little')
        if signed:
            s = sgn(v, 8 * n)
            return SI(s < 0, abs(s), v)
        return v

    def ptr(self, off):
        return CPtr(self.env, int.from_bytes(self.data[off:off + 8], 'little'))


class CPtr:
    def __init__(self, env, a):
        self.env, self.a = env, a
        self.is_null = a == 0
        self.undef = False
        self.in_ = None

    def inside(self, name):
        b = self.env.args.get(name)
        if b is None or b.is_null:
            return False
        return b.addr <= self.a <= b.addr + len(b.data)

    @property
    def off(self):
        for k, b in self.env.args.items():
            if isinstance(b, CBuf) and not b.is_null and b.addr <= self.a <= b.addr + len(b.data):
                return self.a - b.addr
        return -1


class CEnv(Env):
    sym = False

    def __init__(self):
        self.args, self.olds, self.g = {}, {}, {}
        self.ret = None

    def fold(self, name, w, init, step, spec_only=False):
        f = CFold(name, w, init, step)
        self.g[name] = f
        return f

    def recfun(self, name, w, axioms, conc, cand=True):
        memo = {}
        M = (1 << w) - 1

        def R(k):
            # conc is a recursion towards larger k: evaluate from the top to keep the python stack flat
            if k not in memo:
                memo[k] = conc(R, k) & M
            return memo[k]
        self.g[name] = R
        return R

    def num(self, x):
        return x

    def lemma(self, name, f, lim=1 << 57):
        pass

    def __getattr__(self, k):
        try:
            return self.__dict__['args'][k]
        except KeyError:
            raise AttributeError(k)

    def old(self, name):
        return self.olds[name]

    def is_buf(self, name):
        return name in self.args


def cty(a):
    w = a.w
    if isinstance(a, B) or w == 1:
        return ctypes.c_bool
    if isinstance(a, I):
        return {8: ctypes.c_int8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[w]
    return {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w]


class Runner:
    """executes one contract natively (inside the forked child)"""

    def __init__(self, lib, c):
        self.c = c
        self.f = getattr(lib, c.fn)
        at = []
        for a in c.args:
            if isinstance(a, Buf):
                at += [ctypes.c_void_p, ctypes.c_size_t]
            elif isinstance(a, (Out, PtrIn)):
                at.append(ctypes.c_void_p)
            else:
                at.append(cty(a))
        self.f.argtypes = at
        self.f.restype = None if c.ret is None else cty(c.ret)
        self.ar = {a.name: Arena() for a in c.args if isinstance(a, (Buf, Out))}

    def prestate(self, case, right=True):
        c = self.c
        e = CEnv()
        for a in c.args:
            if isinstance(a, Buf):
                d = case[a.name]
                if d is None:
                    e.args[a.name] = CBuf(b'', 0, True, e)
                else:
                    dd = d + b'\0' if a.term else d
                    ad = self.ar[a.name].place(dd, right, a.elem if a.elem in (1, 2, 4, 8, 16) else 1)
                    e.args[a.name] = CBuf(d, len(d) // a.elem, False, e, ad)
            elif isinstance(a, Out):
                d = case.get(a.name)
                if d is None:
                    d = bytes(a.size)
                ad = self.ar[a.name].place(d, right, 16 if a.size % 16 == 0 else 8 if a.size % 8 == 0 else 1)
                e.args[a.name] = CBuf(d, a.size, False, e, ad)
            elif isinstance(a, I):
                v = case[a.name]
                e.args[a.name] = SI(v < 0, abs(v), v & ((1 << a.w) - 1))
            elif isinstance(a, K):
                pass
            else:
                e.args[a.name] = case[a.name]
        e.olds = dict(e.args)
        return e

    def pre_ok(self, e):
        if self.c.ghost:
            self.c.ghost(e)
        if self.c.requires:
            return all(bool(x) for x in spec._flat([self.c.requires(e)]))
        return True

    def run(self, case, right, mark=None):
        """None if precondition false, [] if ok, else list of failed labels"""
        c = self.c
        e = self.prestate(case, right)
        if not self.pre_ok(e):
            return None
        argv = []
        for a in c.args:
            if isinstance(a, Buf):
                b = e.args[a.name]
                argv += [None if b.is_null else b.addr, b.len]
            elif isinstance(a, Out):
                argv.append(e.args[a.name].addr)
            elif isinstance(a, PtrIn):
                b = e.args[a.buf]
                argv.append((b.addr if not b.is_null else 0) + case[a.name])
            elif isinstance(a, K):
                argv.append(a.val)
            else:
                argv.append(case[a.name])
        if mark:
            mark()
        r = self.f(*argv)
        if mark:
            mark()
        bad = []
        e2 = CEnv()
        e2.g = e.g
        e2.olds = e.args
        for a in c.args:
            if a.name is None:
                continue
            v = e.args[a.name]
            if isinstance(a, (Buf, Out)) and not v.is_null:
                ar = self.ar[a.name]
                d = ar.get()
                if not ar.canary_ok():
                    bad.append('canary:' + a.name)
                if isinstance(a, Buf) and a.term:
                    d = d[:-1]
                if isinstance(a, Buf) and not a.mut and d != v.data:
                    bad.append('const-modified:' + a.name)
                e2.args[a.name] = CBuf(d, v.len, False, e2, v.addr)
            else:
                e2.args[a.name] = v
        for x in e2.olds.values():
            if isinstance(x, CBuf):
                x.env = e2
        if c.ret is None:
            pass
        elif isinstance(c.ret, I):
            e2.ret = SI(r < 0, abs(r), r & ((1 << c.ret.w) - 1))
        else:
            e2.ret = r
        self.last = e2
        if c.ensures:
            for label, f in c.ensures(e2):
                if f is not True and not (f is not False and bool(f)):
                    bad.append('post:' + label)
        return bad


def interesting(w, rng):
    k = rng.random()
    if k < .25:
        return rng.getrandbits(rng.randint(1, w))
    if k < .4:
        v = 10 ** rng.randint(0, 20) + rng.randint(-1, 1)
    elif k < .6:
        v = (1 << rng.randint(0, w)) + rng.randint(-2, 2)
    elif k < .75:
        v = rng.randint(0, 20)
    elif k < .85:
        v = -rng.randint(1, 10)
    else:
        v = rng.getrandbits(w)
    return v & ((1 << w) - 1)


DEF_ALPH = b"0123456789+-.eEaxXobB \t\r\n\"'{},;:/abcABC=\\\0\xff_zZ"


def gen_buf(a, rng, case):
    if a.null and rng.random() < .06:
        return None
    mx = a.maxlen if a.maxlen is not None else None
    r = rng.random()
    n = rng.randint(0, 4) if r < .4 else rng.randint(0, 12) if r < .85 else rng.randint(0, 70)
    n = max(n, a.minlen)
    if mx is not None:
        n = min(n, mx)
    nb = n * a.elem
    al = a.alphabet
    r = rng.random()
    if al is not None and r < .85:
        sub = al if rng.random() < .5 else bytes(rng.choice(al) for _ in range(rng.randint(1, 4)))
        return bytes(rng.choice(sub) for _ in range(nb))
    if r < .6:
        sub = bytes(rng.choice(DEF_ALPH) for _ in range(rng.randint(1, 3)))
        return bytes(rng.choice(sub) for _ in range(nb))
    if r < .8:
        return bytes(rng.choice(DEF_ALPH) for _ in range(nb))
    return bytes(rng.getrandbits(8) for _ in range(nb))


def gen_case(c, rng):
    case = {}
    for a in c.args:
        if isinstance(a, Buf):
            case[a.name] = gen_buf(a, rng, case)
        elif isinstance(a, Out):
            case[a.name] = bytes(rng.getrandbits(8) for _ in range(a.size))
        elif isinstance(a, B):
            case[a.name] = rng.random() < .5
        elif isinstance(a, U):
            lens = [len(v) for v in case.values() if isinstance(v, bytes)]
            if a.vals is not None and rng.random() < .9:
                case[a.name] = rng.choice(a.vals)
            elif a.w == 64 and lens and rng.random() < .6:
                case[a.name] = max(0, rng.choice(lens) + rng.randint(-2, 1)) if rng.random() < .5 else rng.randint(0, max(1, max(lens)))
            else:
                case[a.name] = interesting(a.w, rng)
        elif isinstance(a, I):
            if a.vals is not None and rng.random() < .9:
                case[a.name] = rng.choice(a.vals)
            else:
                case[a.name] = sgn(interesting(a.w, rng), a.w)
        elif isinstance(a, PtrIn):
            b = case[a.buf]
            case[a.name] = rng.randint(0, len(b)) if b else 0
    if c.gen:
        upd = c.gen(rng, case)
        if upd:
            case.update(upd)
    return case


def in_child(so, c, cases, per_case_s=3, total_s=60):
    """run the cases; returns list of (index, [labels]) failures and #executed"""
    mm = mmap.mmap(-1, 64)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            spec._SYM[0] = False
            lib = ctypes.CDLL(so)
            rn = Runner(lib, c)
            fails = []
            ran = 0
            t0 = time.time()
            for i, (case, right) in enumerate(cases):
                mm[0:8] = struct.pack('<Q', i + 1)
                st = [0]

                def mark():
                    st[0] ^= 1
                    mm[8] = st[0]
                    signal.alarm(per_case_s if st[0] else 0)
                r = rn.run(case, right, mark)
                mm[8] = 0
                if r is None:
                    continue
                ran += 1
                if r:
                    fails.append((i, r))
                    if len(fails) > 4:
                        break
                if time.time() - t0 > total_s:
                    break
            os.write(wfd, pickle.dumps((fails, ran)))
            code = 0
        except BaseException as ex:
            import traceback
            try:
                os.write(wfd, pickle.dumps(('ERR', traceback.format_exc()[-1500:])))
            except Exception:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    data = b''
    while True:
        d = os.read(rfd, 65536)
        if not d:
            break
        data += d
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    idx = struct.unpack('<Q', mm[0:8])[0] - 1
    incall = mm[8]
    mm.close()
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        nm = signal.Signals(sig).name
        if not incall:
            return [], 0, 'child died outside the call (%s)' % nm
        lab = {'SIGALRM': 'does-not-terminate', 'SIGABRT': 'error-callback/abort', 'SIGSEGV': 'out-of-bounds access (SIGSEGV)',
               'SIGILL': 'undefined behaviour trap (SIGILL)'}.get(nm, nm)
        return [(idx, [lab])], idx + 1, None
    if data:
        r = pickle.loads(data)
        if r[0] == 'ERR':
            return [], 0, r[1]
        return r[0], r[1], None
    return [], 0, 'no data from child'


def search(so, c, n, seed, secs=20):
    """random conformance runs against the contract; returns (failure or None, executed, error)"""
    rng = random.Random('%s/%s' % (seed, c.name))
    cases = [(gen_case(c, rng), i % 2 == 0) for i in range(n)]
    done = 0
    ran = 0
    while done < len(cases):
        fails, k, err = in_child(so, c, cases[done:], total_s=secs)
        if err:
            return None, ran, err
        if fails:
            i, labs = fails[0]
            if c.reject and labs == ['error-callback/abort']:
                ran += i
                done += i + 1
                continue
            return (cases[done + i][0], cases[done + i][1], labs), ran + k, None
        ran += k
        break
    return None, ran, None


def replay(so, c, case):
    """does this concrete input violate the contract on the real code?"""
    full = dict(case)
    for right in (True, False):
        fails, k, err = in_child(so, c, [(full, right)])
        if err:
            return None, err
        if fails:
            if c.reject and fails[0][1] == ['error-callback/abort']:
                return None, 'rejected by an assertion'
            return fails[0][1], None
        if k == 0:
            return None, 'precondition false'
    return None, None


def jcase(case):
    return {k: ({'hex': v.hex()} if isinstance(v, bytes) else v) for k, v in case.items()}
