"""Decides one property: builds its contract files from /repo's working tree, has every
obligation discharged, validates traces natively and writes the evidence file.

usage: check.py P29 [--tier quick|thorough]
exit 0: held; exit 1 + VIOLATION line: broken; 2: no answer (harness does not build)
"""
import argparse
import glob
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
NPROC = int(os.environ.get('VC_JOBS', '8'))


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- symbolic part
def contract_opts(d, c, tier):
    o = {}
    for rx, x in d['opts'].items():
        if re.fullmatch(rx, c):
            o.update(x)
    if tier == 'thorough':
        for k in list(o):
            if k.startswith('T_'):
                o[k[2:]] = o[k]
    o['stubs'] = [(re.compile(rx), fn) for a, rx, fn in d['stubs'] if re.fullmatch(a, c)]
    o['cuts'] = [re.compile(rx) for a, rx in d['cuts'] if re.fullmatch(a, c)]
    return o


def worker(jpath, c, o, split, out, deadline):
    """child process: run one contract (optionally splitting its paths over processes)"""
    import executor
    m = executor.Module(jpath)
    ex = executor.Executor(m, o)
    ex.deadline = min(ex.deadline, deadline)
    if split:
        r = ex.run('vcc_' + c, maxstates=int(os.environ.get('VC_SPLIT', '96')))
        states = ex.work
        if states and len(r.failures) < 20:
            nidx = len(states)
            rd, wr = os.pipe()
            for k in range(nidx):
                os.write(wr, (k).to_bytes(4, 'little'))
            os.close(wr)
            kids = []
            for k in range(min(NPROC, nidx)):
                pid = os.fork()
                if pid == 0:
                    try:
                        ex.res = executor.Result()
                        ex.solver.time = 0.0
                        ex.solver.queries = 0
                        ex.solver.backends = {}
                        t0 = time.time()
                        while True:
                            b = os.read(rd, 4)
                            if len(b) < 4:
                                break
                            ex.run('vcc_' + c, states=[states[int.from_bytes(b, 'little')]])
                        pickle.dump(ex.res, open('%s.%d' % (out, k), 'wb'))
                    except BaseException as e:
                        er = executor.Result()
                        er.undecided.append('engine: %r' % e)
                        pickle.dump(er, open('%s.%d' % (out, k), 'wb'))
                    os._exit(0)
                kids.append((pid, k))
            for pid, k in kids:
                _, stt = os.waitpid(pid, 0)
                f = '%s.%d' % (out, k)
                if os.path.exists(f):
                    r.merge(pickle.load(open(f, 'rb')))
                else:
                    r.undecided.append('engine worker died (status %d)' % stt)
    else:
        r = ex.run('vcc_' + c)
    pickle.dump(r, open(out + '.tmp', 'wb'))
    os.rename(out + '.tmp', out)


def run_symbolic(tasks, work, deadline):
    """tasks: [(harness, json, contract, opts, split)] -> {contract: Result}"""
    import executor
    res = {}
    pend = sorted(tasks, key=lambda x: (not x[4], ))
    running = {}

    def reap(block):
        while running:
            pid, st = os.waitpid(-1, 0 if block else os.WNOHANG)
            if pid == 0:
                return
            if pid not in running:
                continue
            c, out = running.pop(pid)
            if os.path.exists(out):
                res[c] = pickle.load(open(out, 'rb'))
            else:
                r = executor.Result()
                r.undecided.append('engine process ended (status %d)' % st)
                res[c] = r
            if block:
                return
    while pend or running:
        while pend and len(running) < NPROC:
            h, j, c, o, sp = pend.pop(0)
            out = os.path.join(work, 'res-' + c)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    worker(j, c, o, sp, out, deadline)
                except BaseException as e:
                    r = executor.Result()
                    r.undecided.append('engine: %r' % (e,))
                    pickle.dump(r, open(out, 'wb'))
                os._exit(0)
            running[pid] = (c, out)
        reap(True)
    return res


# ---------------------------------------------------------------- native part
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1', MALLOC_PERTURB_='0')


def native_replay(binp, contract, stream, timeout=60):
    """-> (status, text) status in ok / fail / timeout"""
    fd, p = tempfile.mkstemp(dir=os.path.dirname(binp))
    os.write(fd, stream)
    os.close(fd)
    try:
        r = subprocess.run([binp, '-detect_leaks=0', '-timeout=50', p], env=dict(ENV, VC_CONTRACT=contract, VC_VERBOSE='1'), capture_output=True, timeout=timeout, cwd=os.path.dirname(binp))
        out = (r.stdout + r.stderr).decode('latin1')
        return ('ok' if r.returncode == 0 else 'fail'), out
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.unlink(p)


def native_fuzz(binp, contract, seeds, secs, seed, work, maxlen=4096):
    d = os.path.join(work, 'fz-' + contract)
    os.makedirs(d + '/c', exist_ok=True)
    for k, s in enumerate(seeds):
        open('%s/c/s%d' % (d, k), 'wb').write(s)
    if seeds:
        maxlen = max(maxlen, max(len(s) for s in seeds))
    cmd = [binp, d + '/c', '-seed=%d' % seed, '-max_total_time=%d' % secs, '-max_len=%d' % maxlen, '-detect_leaks=0', '-timeout=60', '-rss_limit_mb=6000',
           '-artifact_prefix=%s/crash-' % d, '-print_final_stats=1', '-verbosity=0' if False else '-print_pcs=0', '-len_control=20']
    try:
        r = subprocess.run(cmd, env=dict(ENV, VC_CONTRACT=contract), capture_output=True, timeout=secs + 120, cwd=work)
    except subprocess.TimeoutExpired:
        return dict(runs=0, crash=None, text='timeout')
    out = (r.stdout + r.stderr).decode('latin1')
    m = re.search(r'stat::number_of_executed_units:\s*(\d+)', out)
    m2 = re.search(r'stat::new_units_added:\s*(\d+)', out)
    crash = None
    if r.returncode != 0:
        for a in sorted(glob.glob(d + '/crash-*')):
            crash = open(a, 'rb').read()
            break
    runs = int(m.group(1)) if m else 0
    return dict(runs=runs, new=int(m2.group(1)) if m2 else 0, crash=crash, text=out[-6000:], rc=r.returncode)


def crash_label(text):
    m = re.search(r'ENSURE-FAIL (.*)', text)
    if m:
        return 'post:' + m.group(1).strip()
    m = re.search(r'SUMMARY: (\S+): (\S+)', text)
    if m:
        return 'native:%s' % m.group(2)
    m = re.search(r'runtime error: (.{0,80})', text)
    if m:
        return 'native:ub ' + m.group(1)
    return 'native:crash'


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) contract=(\S+) label="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(dict(contract=m.group(2), label=m.group(3), text=m.group(4)))
    return out


def cover_labels(harness):
    """labels in the body of each contract itself (those in shared helper functions are optional)"""
    src = open(harness).read()
    out = {}
    for m in re.finditer(r'^CONTRACT\((\w+)\)\s*\{', src, re.M):
        i, n = m.end(), 1
        while n and i < len(src):
            n += {'{': 1, '}': -1}.get(src[i], 0)
            i += 1
        out[m.group(1)] = set(re.findall(r'COVER\("([^"]+)"\)', src[m.end():i]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--only', default='.')
    ap.add_argument('--nofuzz', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hard = t0 + (780 if tier == 'quick' else 3000)
    harnesses = sorted(glob.glob(os.path.join(VERIF, 'contracts', pid + '_*.cc')))
    if not harnesses:
        log('no contract file for ' + pid)
        return 2
    work = tempfile.mkdtemp(prefix='vc-%s-' % pid)
    try:
        return check(pid, tier, seed, t0, hard, harnesses, work, a)
    finally:
        if a.keep:
            log('work directory', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, t0, hard, harnesses, work, a):
    build.irtool()
    # ---- build
    pool = cf.ThreadPoolExecutor(4)
    sym = {h: pool.submit(build.symbolic, h, work + '/s', 4) for h in harnesses}
    nat = {h: pool.submit(build.native, h, work + '/n', 4) for h in harnesses}
    js = {}
    problems = []
    for h in harnesses:
        try:
            js[h] = sym[h].result()
        except build.BuildError as e:
            problems.append('extraction of %s failed: %s' % (os.path.basename(h), e))
    bins = {}
    for h in harnesses:
        try:
            bins[h] = nat[h].result()
        except build.BuildError as e:
            problems.append('native build of %s failed: %s' % (os.path.basename(h), e))
    pool.shutdown()
    tbuild = time.time() - t0
    if problems:
        log('\n'.join(problems)[:6000])
    if not js and not bins:
        log('NO-ANSWER property=%s the contract files do not build against this tree' % pid)
        evidence(pid, tier, seed, t0, {}, [], problems, {}, [], 0, [], harnesses)
        return 2
    # ---- obligations
    tasks = []
    meta = {}
    for h in harnesses:
        d = build.directives(h)
        covs = cover_labels(h)
        for c in build.contracts(h):
            if not re.search(a.only, c):
                continue
            o = contract_opts(d, c, tier)
            if 'thorough_only' in o and tier != 'thorough':
                continue
            o.setdefault('time', 150 if tier == 'quick' else 900)
            o.setdefault('cross', 200 if tier == 'quick' else 10)
            meta[c] = dict(h=h, covers=covs.get(c, set()), bounded=next((v for rx, v in d['bounded'].items() if re.fullmatch(rx, c)), None), opts=o,
                           trusted=[v for rx, v in d['trusted'] if re.fullmatch(rx, c)])
            if h in js and not o.get('native_only'):
                tasks.append((h, js[h], c, o, any(re.fullmatch(rx, c) for rx in d['split'])))
    res = run_symbolic(tasks, work, hard - 120)
    tsym = time.time() - t0
    # ---- native side: trace validation, replay, fuzz
    kf = known_findings(pid)
    violations = []      # (contract, label, stream or None, text, kind)
    known = []
    nstats = {}
    lock = threading.Lock()

    def is_known(c, label):
        for k in kf:
            if k['contract'] == c and k['label'] == label:
                return k
        return None

    def native_work(c):
        m = meta[c]
        r = res.get(c)
        binp = bins.get(m['h'])
        st = dict(traces=0, mismatched=0, runs=0, corpus=0)
        nstats[c] = st
        if binp is None:
            return
        samples = r.samples if r else []
        for lab, hx in samples:
            s, out = native_replay(binp, c, bytes.fromhex(hx))
            if s == 'ok' and ('cover ' + lab) in out:
                st['traces'] += 1
            elif s == 'fail':
                lb = crash_label(out)
                with lock:
                    k = is_known(c, lb)
                    if k:
                        known.append((c, lb, k))
                    else:
                        violations.append((c, lb, bytes.fromhex(hx), out, 'replayed'))
            else:
                st['mismatched'] += 1
        pendf = []
        if r:
            for f in r.failures:
                k = is_known(c, f.label)
                if k:
                    with lock:
                        known.append((c, f.label, k))
                    continue
                done = False
                if f.stream is not None:
                    s, out = native_replay(binp, c, f.stream)
                    if s == 'fail' and not is_known(c, crash_label(out)):
                        with lock:
                            violations.append((c, f.label, f.stream, 'obligation %s failed: %s %s (line %d)\n' % (f.label, f.detail, f.fn, f.line) + out, 'replayed'))
                        done = True
                        break
                if not done:
                    pendf.append(f)
        found = any(v[0] == c for v in violations)
        if a.nofuzz:
            secs = 0
        elif found:
            secs = 0
        elif pendf:
            secs = 25
        elif r is None or r.undecided:
            secs = 25 if tier == 'quick' else 120
        else:
            secs = m['opts'].get('fuzz', 2 if tier == 'quick' else 15)
        if secs and time.time() < hard - secs - 30:
            seeds = [bytes.fromhex(hx) for _, hx in samples] + [f.stream for f in (r.failures if r else []) if f.stream is not None]
            fz = native_fuzz(binp, c, seeds[:40], secs, seed, work, m['opts'].get('maxlen', 4096))
            st['runs'] = fz['runs']
            st['corpus'] = fz.get('new', 0)
            if fz['crash'] is not None:
                lb = crash_label(fz['text'])
                s, out = native_replay(binp, c, fz['crash'])
                if s != 'fail':
                    out = fz['text']
                with lock:
                    k = is_known(c, lb)
                    if k:
                        known.append((c, lb, k))
                    elif s == 'fail' or 'timeout' not in fz['text']:
                        violations.append((c, lb, fz['crash'], out, 'fuzzed'))
                        found = True
        if pendf and not found:
            # a counterexample made with a universal fact known at some positions only is no counterexample if it does not replay
            weak = [f for f in pendf if getattr(f, 'weak', False)]
            pendf = [f for f in pendf if not getattr(f, 'weak', False)]
            if weak:
                r.undecided.append('obligation %s not discharged: %s (line %d), no failing input' % (weak[0].label, weak[0].detail, weak[0].line))
            with lock:
                for f in pendf[:1]:
                    violations.append((c, f.label, f.stream, 'obligation %s failed: %s %s (line %d); the counterexample did not reproduce natively' % (f.label, f.detail, f.fn, f.line), 'unreplayed'))
        if r and not r.failures and not r.undecided and not found:
            miss = [l for l in m['covers'] if not r.covers.get(l)]
            nob = sum(sum(v) for v in r.obl.values())
            if (miss or nob == 0 or not any(r.covers.values())) and not m['opts'].get('nocover'):
                with lock:
                    violations.append((c, 'reachable:' + (miss[0] if miss else 'any'), None, 'no path of the code reaches the behaviour(s) %s that the contract demands to be reachable' % miss, 'unreplayed'))

    with cf.ThreadPoolExecutor(NPROC) as tp:
        list(tp.map(native_work, list(meta)))
    # ---- verdict
    rc = 0
    reps = []
    rdir = os.path.join(VERIF, 'build', 'replay', pid)
    if violations:
        os.makedirs(rdir, exist_ok=True)
    seen = set()
    for c, label, stream, text, kind in sorted(violations, key=lambda v: {'replayed': 0, 'fuzzed': 1, 'unreplayed': 2}[v[4]]):
        if (c, ) in seen:
            continue
        seen.add((c, ))
        rp = os.path.join(rdir, '%s.replay' % c)
        with open(rp, 'w') as fo:
            fo.write('property: %s\ncontract: %s (%s)\nfailed obligation: %s\nkind: %s\ninput stream: %s\n'
                     'replay: build with engine/build.py native, run VC_CONTRACT=%s VC_VERBOSE=1 <bin> <file holding the stream bytes>\n\n%s\n'
                     % (pid, c, os.path.basename(meta[c]['h']), label, kind, stream.hex() if stream is not None else '(none)', c, text[-8000:]))
        reps.append((c, label, rp, kind))
        rc = 1
    for c, lb, k in {(x[0], x[1]): x for x in known}.values():
        log('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    und = {c: sorted(set(r.undecided))[:5] for c, r in res.items() if r.undecided}
    for c, u in und.items():
        log('UNDECIDED contract=%s (fell back to a bounded native search): %s' % (c, '; '.join(u)[:300]))
    ev = evidence(pid, tier, seed, t0, res, violations, problems, meta, nstats, tbuild, known, harnesses)
    cov = ev['coverage']
    log('%s: %d contracts, %d obligations, %d discharged, bounded %s, %d paths, traces replayed %d, native runs %d, build %.1fs, symbolic %.1fs, total %.1fs' % (
        pid, len(meta), cov['obligations'], cov['discharged'], cov['bounded_obligations'], cov['paths'], cov['traces_validated_against_impl'], cov['native_runs'], tbuild, tsym - tbuild, time.time() - t0))
    for c, label, rp, kind in reps:
        log('failed obligation %s of contract %s (%s)' % (label, c, kind))
    for c, label, rp, kind in reps[:1]:
        log('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if kind == 'unreplayed' else ''))
    return rc


def evidence(pid, tier, seed, t0, res, violations, problems, meta, nstats, tbuild, known, harnesses):
    lvl = 'proof'
    note = {}
    try:
        mf = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in mf['checks']:
            if c['property'] == pid:
                lvl = c['level']
    except Exception:
        pass
    obl = dis = bobl = bdis = paths = 0
    per = {}
    backends = {}
    ext = {}
    stubs = {}
    funcs = {}
    cross = [0, 0, []]
    solver = 0.0
    bounds = {}
    cuts = []
    und = []
    for c, r in sorted(res.items()):
        n = sum(sum(v) for v in r.obl.values())
        k = sum(v[0] + v[1] for v in r.obl.values())
        b = meta[c]['bounded']
        complete = not r.undecided
        if b or not complete:
            bobl += n
            bdis += k
            bounds[c] = b or 'undecided: ' + '; '.join(sorted(set(r.undecided))[:3])[:300]
        else:
            obl += n
            dis += k
        paths += r.paths
        per[c] = dict(obligations=n, discharged=k, by_rewriting=sum(v[0] for v in r.obl.values()), by_solver=sum(v[1] for v in r.obl.values()), failed=sum(v[2] for v in r.obl.values()),
                      paths=r.paths, solver_s=round(r.solver_time, 2), wall_s=round(r.wall, 2), labels={l: v[0] + v[1] for l, v in sorted(r.obl.items())}, covers=r.covers, bounded=b,
                      loops_cut=r.cuts, loops_by_rule=sorted(r.loops))
        for d, e in ((backends, r.backends), (ext, r.externals), (stubs, r.stubs)):
            for x, v in e.items():
                d[x] = d.get(x, 0) + v
        for x, v in r.entered.items():
            if re.match(r'(__isoc23_)?(strto|atoi|vc_strto|__errno)', x):
                ext['%s (code in engine/libcmodels.cpp)' % x.split('(')[0]] = v
            if 'freewebrtc' in x:
                x = re.sub(r'\(.*', '', re.sub(r'^(.*?)(freewebrtc::)', r'\2', x)) if len(x) > 140 else x
                funcs[x] = funcs.get(x, 0) + v
        cross[0] += r.cross[0]
        cross[1] += r.cross[1]
        cross[2] += r.cross[2]
        solver += r.solver_time
        cuts += r.cuts
        und += sorted(set(r.undecided))[:3]
    nruns = sum(s['runs'] for s in nstats.values()) if nstats else 0
    trs = sum(s['traces'] for s in nstats.values()) if nstats else 0
    mism = sum(s['mismatched'] for s in nstats.values()) if nstats else 0
    samples = []
    for c, r in sorted(res.items()):
        for lab, hx in r.samples[:2]:
            samples.append(dict(contract=c, reaches=lab, input_stream=hx[:200]))
    trusted = ['VC generator of /verif/engine (irtool, executor, terms, smt) and clang 18 front end', 'z3 (terms rewritten by engine/terms.py first); cross-check by cvc5 on a sample',
               'stand-in for the absent craftpp submodule (shim/include/craftpp), executed as code under both the verifier and the native replay']
    if ext:
        trusted.append('models of external functions: ' + ', '.join(sorted(ext)))
    if stubs:
        trusted.append('callees replaced by their contracts in some contracts of this file: ' + ', '.join(sorted(x[:100] for x in stubs)))
    for m in meta.values():
        for x in m['trusted']:
            if x not in trusted:
                trusted.append(x)
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl,
              coverage=dict(obligations=obl, discharged=dis, bounded_obligations='%d/%d' % (bdis, bobl), bounds=bounds,
                            checker_cmd='python3-vt engine/check.py %s --tier %s' % (pid, tier), trusted_base=trusted,
                            contracts=per, functions_under_contract=funcs, functions_count=len(funcs), backends=backends, solver_s=round(solver, 2), paths=paths,
                            cross_checked=dict(agreed=cross[0], unknown=cross[1], disagreed=cross[2]),
                            traces_validated_against_impl=trs, traces_mismatched=mism, native_runs=nruns, undecided=und, build_s=round(tbuild, 1), build_problems=problems,
                            explanation='Weakest-precondition style path VCs over the LLVM IR of the unmodified functions, against the contracts in %s.' % ', '.join(os.path.basename(h) for h in harnesses),
                            samples=samples[:20], known_findings=[k[2]['text'] for k in known]),
              assumptions=['allocation never fails and every input buffer is a separate live object', 'no other thread touches the objects under contract',
                           'LLVM IR at -O1 before optimisation (plus irtool cleanup passes) is a faithful translation of the C++ source'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.rename(p + '.tmp', p)
    return ev


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        log('NO-ANSWER ' + str(e)[:2000])
        sys.exit(2)
