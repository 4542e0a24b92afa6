"""all ranks make the same collective calls in the same order"""
import mpi
from prog import REPO, BrokenAnalysis, strip, walk
TUS = ['SylinderSystem', 'Sylinder', 'BCQPSolver', 'ConstraintCollector', 'ConstraintOperator', 'ConstraintSolver', 'Boundary', 'CPSolver',
       'TpetraUtil', 'PointDistribution', 'main', 'spec_exch', 'spec_dist', 'spec_near', 'spec_util', 'spec_coll']


def analyse(p, fs, c=None):
    fields = {}
    rep, calls, conds = {}, {}, 0
    for _ in range(6):
        n = len(fields)
        conds = 0
        for f in fs:
            w = mpi.Walker(p, fields)
            w.function(f)
            rep.update(w.reports)
            calls.update(w.calls)
            conds += w.conds
        if len(fields) == n:
            break
    return rep, calls, conds


def check(c, p):
    selftest(p)
    own = lambda f: f.get('body') and f['F'].startswith(REPO + '/') and '/FDPS/' not in f['F'] and not f['F'].endswith('_test.cpp')
    fs = [f for f in sorted(p.fn.values(), key=lambda f: (f['F'], f['line'], f['q'])) if own(f)]
    rep, calls, conds = analyse(p, fs)
    c.functions |= {'%s (%s:%s)' % (f['q'], f['F'].replace(REPO + '/', ''), f['line']) for f in fs}
    done = set()
    for site in sorted(calls, key=str):
        fn, F, line, name = site
        at = '%s (%s:%s) %s' % ((fn or '').split('<')[0], F.replace(REPO + '/', ''), line, name.rsplit('::', 1)[-1])
        if at in done and site not in rep:
            continue
        done.add(at)
        if site in rep:
            c.bad('collective call', at, 'whether (or how often) a rank makes this call depends on %s, which differs between ranks' % rep[site])
        else:
            c.ok('collective call', at, 'reached by all ranks or none (%d tests examined in all)' % conds)


def selftest(p):
    fs = [f for f in p.fn.values() if f['q'].startswith('colltest::Sys::') and f.get('body')]
    rep, calls, _ = analyse(p, fs)
    fields = {}
    n = 0
    for _ in range(3):
        for f in fs:
            w = mpi.Walker(p, fields)
            w.function(f)
            if _ == 2 and f['n'].startswith(('bad', 'good')):
                n += 1
                if bool(w.reports) != f['n'].startswith('bad'):
                    raise BrokenAnalysis('self-test of the collective analysis: %s is %s (%s)' % (
                        f['n'], 'reported' if w.reports else 'not reported', w.reports))
    if n < 15:
        raise BrokenAnalysis('self-test of the collective analysis: %d functions' % n)
