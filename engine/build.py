"""Mechanical extraction of the real code: harness + /repo sources -> LLVM IR
(for the verifier) and a native shared object (for replay)."""
import os, re, subprocess, shutil, tempfile, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('C4_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = 'signed-integer-overflow,shift-exponent,integer-divide-by-zero,unreachable,return'
CXX = ['-std=c++17', '-I' + REPO + '/src', '-I' + HERE + '/harness', '-DC4_NO_DEBUG_BREAK', '-Wno-everything']
CLANG = ['clang++'] + CXX + ['-D__NO_CTYPE', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics',
                             '-fsanitize=' + SAN, '-fsanitize-trap=all', '-ffreestanding-x' ]
CLANG = [x for x in CLANG if x != '-ffreestanding-x']
PIPE = ('always-inline,cgscc(inline),function(sroa,simplifycfg,early-cse,instsimplify,simplifycfg,adce),'
        'cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg,adce,loop-simplify),globaldce')
LIBSRC = ['base64', 'char_traits', 'error', 'format', 'language', 'memory_resource', 'memory_util', 'utf']


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stderr[-4000:])
    return p.stdout


def ir_unit(unit, out, keep=()):
    """unit: harness name; also links the library .cpp files it names in a
    '// link: a b c' comment.  Returns (optimised .ll path, raw .ll path)"""
    src = os.path.join(HERE, 'harness', unit + '.cpp')
    txt = open(src).read()
    g = re.search(r'//\s*link:(.*)', txt)
    libs = g.group(1).split() if g else []
    raws = []
    jobs = [(src, os.path.join(out, unit + '.raw.ll'))]
    for l in libs:
        jobs.append((os.path.join(REPO, 'src/c4', l + '.cpp'), os.path.join(out, unit + '.' + l + '.raw.ll')))
    for s, o in jobs:
        run(CLANG + ['-emit-llvm', '-S', '-o', o, s])
        raws.append(o)
    raw = raws[0]
    if len(raws) > 1:
        raw = os.path.join(out, unit + '.linked.ll')
        run(['llvm-link', '-S', '-o', raw] + raws)
    t = open(raw).read()
    t = re.sub(r'^\s*call void @llvm\.(lifetime|experimental\.noalias)[^\n]*\n', '', t, flags=re.M)
    # explicit noinline attributes on library functions do not matter for verification
    t = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline\b', r'\1', t, flags=re.M)
    mid = os.path.join(out, unit + '.mid.ll')
    open(mid, 'w').write(t)
    opt = os.path.join(out, unit + '.ll')
    run(['opt', '-S', '-passes=' + PIPE, '-inline-threshold=100000', '-o', opt, mid])
    return opt, mid


def so_units(units, out, extra=()):
    """native build of all harness units and library sources into one .so"""
    objs = []
    flags = ['g++'] + CXX + ['-w', '-O1', '-g0', '-fPIC', '-fsanitize=' + SAN, '-fsanitize-trap=all' if False else '-fsanitize-undefined-trap-on-error']
    jobs = []
    for u in units:
        o = os.path.join(out, u + '.o')
        jobs.append((flags + ['-c', '-o', o, os.path.join(HERE, 'harness', u + '.cpp')]))
        objs.append(o)
    for l in LIBSRC:
        o = os.path.join(out, 'lib_' + l + '.o')
        jobs.append((flags + ['-c', '-o', o, os.path.join(REPO, 'src/c4', l + '.cpp')]))
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    so = os.path.join(out, 'native.so')
    run(['g++', '-shared', '-o', so] + objs + ['-lpthread'])
    return so


_def = re.compile(r'^define .*?@("[^"]*"|[\w.$-]+)\(')
_call = re.compile(r'call .*?@("[^"]*"|[\w.$-]+)\(')


def call_closure(rawll, roots):
    """c4 functions reachable from the roots in the un-inlined IR (= extracted code)"""
    g = {}
    cur = None
    for ln in open(rawll):
        m = _def.match(ln)
        if m:
            cur = m.group(1).strip('"')
            g[cur] = set()
        elif ln.startswith('}'):
            cur = None
        elif cur and ' call ' in ln:
            m = _call.search(ln)
            if m:
                g[cur].add(m.group(1).strip('"'))
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x in seen or x not in g:
            continue
        seen.add(x)
        st += g[x]
    names = sorted(x for x in seen if x not in roots)
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    out = [n for n in p.stdout.split('\n') if 'c4::' in n]
    return sorted(set(out))
