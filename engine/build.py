"""Builds a contract file together with the functions of /repo it names: to LLVM
IR for the VC generator, and to a sanitized native binary for replay."""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
INC = ['-I%s/src' % REPO, '-I%s/shim/include' % VERIF, '-I' + HERE]
SYM = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-emit-llvm', '-gline-tables-only',
       '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVC_SYMBOLIC', '-DNDEBUG_OFF',
       '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bool,enum', '-fsanitize-trap=all',
       '-w', '-I%s/include' % HERE]
NAT = ['-std=c++20', '-O1', '-g1', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-w']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], (p.stdout + p.stderr)[-4000:]))
    return p.stdout


def irtool():
    """path of the IR preparation tool, (re)built when its source changed"""
    src = os.path.join(HERE, 'irtool.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'irtool-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run(['clang++', '-O1', '-std=c++17', '-I%s/include' % LLVM, '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
             '-fno-exceptions', '-fno-rtti', src, '-L%s/lib' % LLVM, '-lLLVM-18', '-Wl,-rpath,%s/lib' % LLVM, '-o', tmp])
        os.rename(tmp, out)
    return out


def directives(harness):
    """directives in the comments of a contract file"""
    d = dict(sources=[], stubs=[], split=[], opts={}, cuts=[], keep=[], bounded={}, libs=[], trusted=[])
    for line in open(harness):
        m = re.match(r'//\s*(SOURCES|VC-STUB|VC-SPLIT|VC-OPT|VC-CUT|VC-KEEP|VC-BOUNDED|VC-LIBS|VC-TRUSTED)(\((.*?)\))?:\s*(.*?)\s*$', line)
        if not m:
            continue
        k, arg, v = m.group(1), m.group(3), m.group(4)
        if k == 'SOURCES':
            for x in v.split():
                d['sources'].append(x)
        elif k == 'VC-STUB':
            rx, fn = v.split('=>')
            d['stubs'].append((arg or '.*', rx.strip(), fn.strip()))
        elif k == 'VC-SPLIT':
            d['split'] += v.split()
        elif k == 'VC-OPT':
            for x in v.split():
                a, b = x.split('=')
                d['opts'].setdefault(arg or '.*', {})[a] = int(b)
        elif k == 'VC-CUT':
            d['cuts'].append((arg or '.*', v))
        elif k == 'VC-KEEP':
            d['keep'].append(v)
        elif k == 'VC-BOUNDED':
            d['bounded'][arg or '.*'] = v
        elif k == 'VC-LIBS':
            d['libs'] += v.split()
        elif k == 'VC-TRUSTED':
            d['trusted'].append((arg or '.*', v))
    return d


def contracts(harness):
    return re.findall(r'^CONTRACT\((\w+)\)', open(harness).read(), re.M)


def _compile(args):
    run(args)
    return args[-1]


def symbolic(harness, work, jobs=8):
    """-> path of the JSON IR"""
    d = directives(harness)
    os.makedirs(work, exist_ok=True)
    base = os.path.join(work, os.path.basename(harness).replace('.cc', ''))
    cmds = [['clang++'] + SYM + INC + ['-c', harness, '-o', base + '.h.bc']]
    for s in d['sources']:
        cmds.append(['clang++'] + SYM + INC + ['-c', os.path.join(REPO, 'src', s), '-o', base + '.' + s.replace('/', '_') + '.bc'])
    cmds.append(['clang++'] + SYM + ['-fno-builtin', '-c', os.path.join(HERE, 'libcmodels.cpp'), '-o', base + '.libc.bc'])
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(_compile, cmds))
    run([LLVM + '/bin/llvm-link' if os.path.exists(LLVM + '/bin/llvm-link') else 'llvm-link', '-o', base + '.all.bc'] + outs)
    cmd = [irtool(), base + '.all.bc', base + '.json', '--entry', '^vcc_', '--entry', '^vcstub_']
    for _, rx, _ in d['stubs']:
        cmd += ['--noinline', rx]
    for rx in d['keep']:
        cmd += ['--noinline', rx]
    run(cmd)
    return base + '.json'


def native(harness, work, jobs=8):
    d = directives(harness)
    os.makedirs(work, exist_ok=True)
    base = os.path.join(work, os.path.basename(harness).replace('.cc', ''))
    cmds = [['clang++'] + NAT + INC + ['-c', harness, '-o', base + '.nat.o'],
            ['clang++'] + NAT + INC + ['-c', os.path.join(HERE, 'vcnative.cpp'), '-o', base + '.drv.o']]
    for s in d['sources']:
        cmds.append(['clang++'] + NAT + INC + ['-c', os.path.join(REPO, 'src', s), '-o', base + '.' + s.replace('/', '_') + '.o'])
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(_compile, cmds))
    run(['clang++', '-fsanitize=address,undefined,fuzzer'] + outs + ['-o', base + '.bin'] + d['libs'])
    return base + '.bin'
