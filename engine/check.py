#!/usr/bin/env python3-vt
"""Decide one property: extract, verify every contract, replay, report.

usage: check.py <property> [--tier quick|thorough] [--only name,...] [-v]
exit 0: every obligation discharged (or, where labelled, bounded stand-in clean)
exit 1: VIOLATION line printed;   exit 2: the check itself could not run
"""
import os, sys, time, json, tempfile, shutil, pickle, signal, importlib, traceback, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.setrecursionlimit(20000)
import build, ir, native
from contract import verify, Report
import contract as C

TRUSTED = [
    'clang 18 front end (C++ -> LLVM IR at -O0 shape) and the listed opt passes (inliner, sroa, simplifycfg, early-cse, instsimplify, adce, loop-simplify)',
    'engine/*.py: VC generator and loop rule over LLVM IR (written for this task; its verdicts are cross-checked by running every contract as an oracle on the natively compiled code)',
    'z3 (python API) and cvc5 as back ends',
    'libc memcpy/memmove/memset/memcmp/strlen: assumed contracts (ISO C)',
]
BASE_ASSUME = [
    'distinct pointer arguments refer to disjoint objects; an object spans at most 2^56 bytes',
    'x86-64 data model (64-bit size_t, little endian, signed char)',
    'asserting build (C4_CHECK/C4_ASSERT enabled): a call of the error handler is an obligation "unreachable" under the stated precondition',
    'machine integers are bit-vectors of their real width (contracts marked dom=int use mathematical integers with explicit wrap-around); floating point is not covered',
    'pointer arithmetic is checked where the result is dereferenced; merely forming an out-of-range pointer is not an obligation',
]


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def work(c, mod, so, tier, seed, t_end, wfd):
    """runs in a forked child; sends a dict"""
    out = {'name': c.name, 'fn': c.fn}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        th = tier == 'thorough'
        left = lambda: t_end - time.time()
        rep = None
        if not c.bounded:
            b = min(c.budget * (4 if th else 1), max(5, left() - 20))
            rep = verify(c, mod, budget=b)
            tried = [rep]

            def confirmed(r):
                return c.nat and any(native.replay(so, c, mi)[0] for kind, mi in r.models)

            def again(**k):
                r2 = verify(c, mod, **k)
                tried.append(r2)
                return r2 if r2.status == 'proved' or (rep.error and not r2.error) or (rep.status == 'undecided' and r2.models and confirmed(r2)) else rep
            if rep.status != 'proved' and left() > 30 and not (rep.status == 'refuted' and confirmed(rep)):
                # the same obligations over the other number domain (bit-vectors / integers with explicit wrap-around): both are sound
                rep = again(budget=min(c.budget, 120, max(5, left() - 20)), dom='int' if c.dom == 'bv' else 'bv')
            if rep.status == 'undecided' and not (rep.error or '').startswith(('unsupported', 'internal')) and left() > 60:
                # solver time-outs (a loaded machine): once more with more time
                rep = again(budget=min(c.budget * 2, max(5, left() - 40)), tmul=3)
            if rep is not tried[-1] or len(tried) > 1:
                rep.tq, rep.nq = sum(r.tq for r in tried), sum(r.nq for r in tried)
            out.update(status=rep.status, error=rep.error)
        else:
            out.update(status='bounded', error=None)
        res = rep.results if rep else []
        out['obl'] = len(res)
        out['ok'] = sum(r.status == 'ok' for r in res)
        out['bad'] = [(r.status, r.kind, str(r.loc), str(r.info)[:400]) for r in res if r.status != 'ok'][:12]
        out['kinds'] = sorted(set(r.kind for r in res))
        out['paths'] = rep.paths if rep else 0
        out['nq'] = rep.nq if rep else 0
        out['tq'] = rep.tq if rep else 0.0
        out['stats'] = rep.stats if rep else {}
        out['trace'] = getattr(rep, 'trace', None)
        out['bmc'] = None
        out['viol'] = None
        out['spur'] = 0
        nat = c.nat

        def conf(case, how):
            labs, err = native.replay(so, c, case)
            if labs:
                out['viol'] = {'how': how, 'input': native.jcase(case), 'failed': labs}
                return True
            out['spur'] += 1
            return False
        if rep and nat and out['status'] != 'proved':
            for kind, mi in rep.models:
                if conf(mi, 'verifier counterexample for obligation ' + kind):
                    break
        if out['status'] == 'refuted' and not out['viol'] and nat and out['spur'] and out['spur'] == len(rep.models) == sum(r.status == 'fail' for r in res):
            # every model was executed and the contract held: the models are artefacts of incomplete quantifier instantiation
            out.update(status='undecided', error='solver models do not reproduce on the real code')
        n = c.native_n * (20 if th else 1)
        if nat and not out['viol']:
            if out['status'] != 'proved':
                n *= 6
            r, ran, err = native.search(so, c, n, seed, secs=min(60 if th else 20, max(2, left() - 5)))
            out['native_ran'] = ran
            out['native_err'] = err
            if r:
                out['viol'] = {'how': 'contract evaluated on the running code', 'input': native.jcase(r[0]), 'failed': r[2]}
        if not out['viol'] and (out['status'] not in ('proved',) or th) and left() > 20:
            tried = None
            for bd in range(1, c.bmc + (2 if th else 0) + 1):
                if left() < 15:
                    break
                rb = verify(c, mod, mode='bmc', bound=bd, budget=min(120 if th else 60, left() - 8))
                if rb.models and nat:
                    for kind, mi in rb.models:
                        if conf(mi, 'bounded counterexample (sizes <= %d) for obligation %s' % (bd, kind)):
                            break
                if out['viol']:
                    break
                if rb.status == 'proved':
                    tried = bd
                else:
                    out['bmc_err'] = '%s %s %s' % (rb.status, rb.error, [(r.status, r.kind) for r in rb.results if r.status != 'ok'][:4])
                    if rb.error:
                        break
            out['bmc'] = tried
    except BaseException as e:
        out['crash'] = traceback.format_exc()[-3000:]
        out.setdefault('status', 'undecided')
        out.setdefault('viol', None)
    try:
        d = pickle.dumps(out)
        i = 0
        while i < len(d):
            i += os.write(wfd, d[i:i + 60000])
    finally:
        os._exit(0)


def main():
    av = sys.argv[1:]
    prop = av[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    verbose = '-v' in av
    if '--tier' in av:
        tier = av[av.index('--tier') + 1]
    if '--only' in av:
        only = av[av.index('--only') + 1].split(',')
    t0 = time.time()
    th = tier == 'thorough'
    limit = float(os.environ.get('VERIF_LIMIT', 3000 if th else 600))
    t_end = t0 + limit
    P = importlib.import_module(prop.lower())
    cs = P.CONTRACTS
    if th:
        pass
    else:
        cs = [c for c in cs if not c.thorough]
    if only:
        cs = [c for c in cs if any(o in c.name for o in only)]
    tmp = tempfile.mkdtemp(prefix='c4v_')
    try:
        return decide(prop, P, cs, tier, seed, t0, t_end, tmp, verbose, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, P, cs, tier, seed, t0, t_end, tmp, verbose, only):
    from concurrent.futures import ThreadPoolExecutor
    units = sorted(set(c.unit for c in cs))
    try:
        with ThreadPoolExecutor(8) as ex:
            fso = ex.submit(build.so_units, units, tmp)
            firs = {u: ex.submit(build.ir_unit, u, tmp) for u in units}
            so = fso.result()
            irs = {u: f.result() for u, f in firs.items()}
    except build.BuildError as e:
        print('ERROR property=%s: cannot extract: the tree does not compile with the contract harness' % prop)
        print(str(e)[-3000:])
        return 2
    mods = {u: ir.parse_module(open(p[0]).read()) for u, p in irs.items()}
    t_build = time.time() - t0
    if verbose:
        print('built in %.1fs' % t_build)
    done = []
    live = {}
    queue = sorted(cs, key=lambda c: -c.budget)
    stop = False
    import selectors
    sel = selectors.DefaultSelector()
    while queue or live:
        while queue and len(live) < 8 and not stop:
            c = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                work(c, mods[c.unit], so, tier, seed, t_end, w)
            os.close(w)
            live[r] = [pid, c, b'', time.time()]
            sel.register(r, selectors.EVENT_READ)
        if stop or time.time() > t_end + 30:
            for r, (pid, c, d, ts) in list(live.items()):
                killg(pid)
                done.append({'name': c.name, 'status': 'undecided', 'error': 'not run to the end' if stop else 'check time limit', 'viol': None, 'obl': 0, 'ok': 0, 'cut': True})
                sel.unregister(r)
                os.close(r)
            for c in queue:
                done.append({'name': c.name, 'status': 'undecided', 'error': 'not run', 'viol': None, 'obl': 0, 'ok': 0, 'cut': True})
            queue = []
            live = {}
            break
        for key, ev in sel.select(1.0):
            r = key.fd
            d = os.read(r, 1 << 16)
            if d:
                live[r][2] += d
                continue
            pid, c, data, ts = live.pop(r)
            sel.unregister(r)
            os.close(r)
            killg(pid)
            try:
                o = pickle.loads(data)
            except Exception:
                o = {'name': c.name, 'status': 'undecided', 'error': 'worker died (memory?)', 'viol': None, 'obl': 0, 'ok': 0}
            o['wall'] = time.time() - ts
            done.append(o)
            if verbose:
                print('%-34s %-9s obl %d/%d paths %d q %d %.1fs nat %s bmc %s %s' % (o['name'], o['status'], o.get('ok', 0), o.get('obl', 0), o.get('paths', 0), o.get('nq', 0), o['wall'], o.get('native_ran'), o.get('bmc'), o.get('error') or ''), flush=True)
                for k in ('trace', 'crash', 'native_err', 'bmc_err'):
                    if o.get(k):
                        print('   ', k, o[k])
                for b in o.get('bad', []):
                    print('     ', b)
                if o.get('viol'):
                    print('     VIOL', o['viol'])
            if o.get('viol') and not os.environ.get('VERIF_ALL'):
                stop = True
    # ------------------------------------------------------------ verdict
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'open']
    viol = [o for o in done if o.get('viol')]
    soft = [o for o in done if not o.get('viol') and o['status'] == 'refuted']
    infra = [o for o in done if o.get('crash')]
    replay = None
    rdir = os.path.join(HERE, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    lines = []
    if viol or soft:
        replay = os.path.join(rdir, '%s.replay.json' % prop)
        byname = {c.name: c for c in cs}
        rp = {'property': prop, 'repo': build.REPO, 'violations': []}
        for o in viol + soft:
            c = byname[o['name']]
            rp['violations'].append({'contract': o['name'], 'function': c.fn, 'unit': c.unit, 'failing_input': (o['viol'] or {}).get('input'),
                                     'how': (o['viol'] or {}).get('how', 'obligation refuted by the solver; no failing input found'),
                                     'failed_on_real_code': (o['viol'] or {}).get('failed'),
                                     'failed_obligations': o.get('bad'), 'verifier': {'status': o['status'], 'error': o.get('error'), 'spurious_models': o.get('spur')},
                                     'replay_cmd': 'python3-vt /verif/engine/replay.py %s' % replay})
        json.dump(rp, open(replay, 'w'), indent=1)
        rc = 1
        for o in (viol + soft)[:5]:
            if o.get('viol'):
                lines.append('  contract %s: %s; input %s' % (o['name'], o['viol']['failed'], json.dumps(o['viol']['input'])[:400]))
            else:
                lines.append('  contract %s: refuted obligations %s' % (o['name'], o.get('bad')))
    kf = []
    if rc == 0 and known and not only:
        kf = check_known(P, known, cs, so)
    proved = [o for o in done if o['status'] == 'proved']
    bounded = [o for o in done if o['status'] != 'proved']
    closure = set()
    for u in units:
        closure |= set(build.call_closure(irs[u][1], [c.fn for c in cs if c.unit == u]))
    obl = sum(o.get('obl', 0) for o in done)
    ok = sum(o.get('ok', 0) for o in done)
    allproved = not bounded
    lvl = getattr(P, 'LEVEL', 'proof')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': lvl,
        'coverage': {
            'obligations': obl, 'discharged': ok,
            'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED + list(getattr(P, 'TRUSTED', [])),
            'contracts': len(done), 'contracts_proved': len(proved),
            'contracts_not_proved': [{'name': o['name'], 'status': o['status'], 'reason': o.get('error') or o.get('bad'), 'bounded_stand_in':
                                      {'sizes_up_to': o.get('bmc'), 'native_runs': o.get('native_ran')}, 'label': 'bounded, not counted as proved'} for o in bounded],
            'functions_under_contract': sorted(closure),
            'n_functions_under_contract': len(closure),
            'solver_time_s': round(sum(o.get('tq', 0) for o in done), 1), 'solver_queries': sum(o.get('nq', 0) for o in done),
            'paths': sum(o.get('paths', 0) for o in done),
            'cvc5_fallbacks': sum(o.get('stats', {}).get('cvc5', 0) for o in done),
            'back_end': 'z3 (bit-vectors + uninterpreted functions, lazy instantiation), cvc5 fallback',
            'native_oracle_runs': sum(o.get('native_ran') or 0 for o in done),
            'per_contract': [{'name': o['name'], 'fn': o.get('fn'), 'status': o['status'], 'obligations': o.get('obl', 0), 'discharged': o.get('ok', 0), 'kinds': o.get('kinds'),
                              'paths': o.get('paths'), 'loops': {k: v for k, v in o.get('stats', {}).items()}, 'wall_s': round(o.get('wall', 0), 1)} for o in sorted(done, key=lambda o: o['name'])],
            'samples': [o['name'] for o in done[:5]],
            'build_s': round(t_build, 1),
        },
        'assumptions': BASE_ASSUME + list(getattr(P, 'ASSUME', [])) + ['%s: %s' % (c.name, c.note) for c in cs if c.note],
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol) + len(soft),
    }
    if not only:
        json.dump(ev, open(os.path.join(rdir, '%s.json' % prop), 'w'), indent=1, default=str)
    for o in infra:
        print('note: worker error in %s: %s' % (o['name'], o['crash'].strip().split('\n')[-1]))
    for o in bounded:
        if not o.get('cut'):
            print('note: %s %s (%s) -> bounded stand-in: sizes<=%s, %s native runs' % (o['name'], o['status'], o.get('error') or o.get('bad'), o.get('bmc'), o.get('native_ran')))
    for l in kf:
        print(l)
    print('%s: %d contracts, %d proved; obligations %d discharged %d; %d functions under contract; %.1fs' % (prop, len(done), len(proved), obl, ok, len(closure), time.time() - t0))
    if rc:
        for l in lines:
            print(l)
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if viol else ' no-failing-input-found'))
        return 1
    vac = [o for o in done if o['status'] == 'vacuous']
    if vac or not done or (obl == 0 and lvl == 'proof'):
        print('ERROR: vacuous: %s' % [o['name'] for o in vac])
        return 2
    # a contract with neither proof nor executed stand-in says nothing
    empty = [o for o in bounded if not o.get('native_ran') and not o.get('bmc')]
    if empty and len(empty) == len(done):
        print('ERROR: nothing decided')
        return 2
    return 0


def check_known(P, known, cs, so):
    out = []
    for k in known:
        c = next((c for c in getattr(P, 'FINDINGS', []) if c.name == k['contract']), None)
        if c is None:
            out.append('KNOWN-FINDING: property=%s %s' % (k['property'], k['what']))
            continue
        case = {a: (bytes.fromhex(v['hex']) if isinstance(v, dict) else v) for a, v in k['input'].items()}
        labs, err = native.replay(so, c, case)
        if labs:
            out.append('KNOWN-FINDING: property=%s %s' % (k['property'], k['what']))
        else:
            out.append('note: listed finding no longer reproduces: %s (%s)' % (k['what'], err))
    return out


def killg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except Exception:
        try:
            os.kill(pid, signal.SIGKILL)
        except Exception:
            pass
    try:
        os.waitpid(pid, 0)
    except Exception:
        pass


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
