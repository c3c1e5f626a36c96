"""developer tool: run the contracts of one file symbolically and print the outcome"""
import sys, os, time, re, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, executor
h = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else '.'
w = '/tmp/w/vcone'
t0 = time.time()
j = build.symbolic(h, w)
print('build %.1fs' % (time.time() - t0), os.path.getsize(j))
d = build.directives(h)
for c in build.contracts(h):
    if not re.search(only, c):
        continue
    m = executor.Module(j)
    o = {}
    for rx, x in d['opts'].items():
        if re.fullmatch(rx, c):
            o.update(x)
    o['stubs'] = [(re.compile(rx), fn) for a, rx, fn in d['stubs'] if re.fullmatch(a, c)]
    o['cuts'] = [re.compile(rx) for a, rx in d['cuts'] if re.fullmatch(a, c)]
    o['trace'] = os.environ.get('TRACE')
    ex = executor.Executor(m, o)
    if os.environ.get('PROF'):
        import cProfile, pstats
        pr = cProfile.Profile(); pr.enable()
        r = ex.run('vcc_' + c)
        pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
    else:
        r = ex.run('vcc_' + c)
    bad = len(r.failures) + len(r.undecided)
    print('%-40s %s paths=%d obl=%d wall=%.1f solver=%.1f q=%d covers=%s' % (c, 'OK' if not bad else 'BAD', r.paths, sum(sum(v) for v in r.obl.values()), r.wall, r.solver_time, r.queries, dict(r.covers)))
    if os.environ.get('V'):
        for k, v in r.obl.items():
            print('    ', k, v)
        print('    entered', list(r.entered)[:20]); print('    ext', r.externals)
    for f in r.failures[:6]:
        print('   FAIL', f.label, f.kind, f.detail, f.fn[:80], f.line, (f.stream.hex()[:80] + ' (%d)' % len(f.stream)) if f.stream is not None else None)
    for u in sorted(set(r.undecided))[:6]:
        print('   UNDECIDED', u, r.undecided.count(u))
