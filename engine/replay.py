#!/usr/bin/env python3-vt
"""Replay the failing inputs of a replay file against the code in /repo.

usage: replay.py evidence/<P>.replay.json ; exit 1 if any of them still fails"""
import os, sys, json, tempfile, shutil, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
import build, native


def main(path):
    rp = json.load(open(path))
    P = importlib.import_module(rp['property'].lower())
    cs = {c.name: c for c in list(P.CONTRACTS) + list(getattr(P, 'FINDINGS', []))}
    tmp = tempfile.mkdtemp(prefix='c4v_')
    bad = 0
    try:
        so = build.so_units(sorted(set(v['unit'] for v in rp['violations'])), tmp)
        for v in rp['violations']:
            if not v.get('failing_input'):
                print('%s: no failing input; obligations %s' % (v['contract'], v.get('failed_obligations')))
                continue
            case = {a: (bytes.fromhex(x['hex']) if isinstance(x, dict) else x) for a, x in v['failing_input'].items()}
            labs, err = native.replay(so, cs[v['contract']], case)
            print('%s: %s' % (v['contract'], ('FAILS ' + str(labs)) if labs else 'holds (%s)' % err))
            bad |= bool(labs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
