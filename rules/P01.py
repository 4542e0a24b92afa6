"""no two threads touch the same data without ordering, one of them writing"""
import race
from prog import REPO, BrokenAnalysis, strip, walk
TUS = ['SylinderSystem', 'Sylinder', 'BCQPSolver', 'ConstraintCollector', 'ConstraintOperator', 'ConstraintSolver', 'Boundary', 'CPSolver',
       'TpetraUtil', 'PointDistribution', 'main', 'spec_exch', 'spec_dist', 'spec_near', 'spec_util', 'spec_race']
FUNCTORS = ('CalcSylinderNearForce::operator()',)       # run by all threads at once inside the tree code


def own(f):
    F = f['F']
    return f.get('body') and F.startswith(REPO + '/') and '/FDPS/' not in F and not F.endswith('_test.cpp')


def report(c, reg, rs, f):
    c.functions.add('%s (%s:%s)' % (f['q'], f['F'].replace(REPO + '/', ''), f['line']))
    c.functions |= {'%s (called in a region)' % q for q in reg.fns}
    fn = f['q'].split('<')[0]
    at = '%s (%s:%s) omp %s' % (fn, f['F'].replace(REPO + '/', ''), reg.line, reg.d)
    for line, what, bad in reg.problems:
        (c.bad if bad else c.und)('data sharing', at, what)
    for a, b in rs:
        c.bad('data sharing', at, '%s, written by one thread in %s line %s, is %s by another in %s line %s' % (
            a.place, (a.fn or {}).get('q'), a.line, 'written' if b.w else 'read', (b.fn or {}).get('q'), b.line))
    if not rs and not reg.problems:
        w = sorted({str(a.place) for a in reg.accs if a.w})
        c.ok('data sharing', at, '%d accesses to shared memory in %d functions; written: %s' % (
            len(reg.accs), 1 + len(reg.fns), ', '.join(w)[:600]))


def check(c, p):
    selftest(p)
    seen = set()
    for f in sorted(p.fn.values(), key=lambda f: (f['F'], f['line'], f['q'])):
        if not own(f):
            continue
        key = (f['F'], f['line'], len(f['params']))
        if key in seen:
            continue
        if strip(f['q']) in FUNCTORS:
            seen.add(key)
            w = race.Walker(p)
            w.functor(f)
        elif any(x.get('k') == 'OMP' for x in walk(f['body'])):
            seen.add(key)
            w = race.Walker(p)
            w.function(f)
        else:
            continue
        for reg in w.regions:
            report(c, reg, race.races(reg), f)


def selftest(p):
    n = 0
    for f in p.fn.values():
        if f['q'].startswith('racetest::Sys::') and f.get('body') and any(x.get('k') == 'OMP' for x in walk(f['body'])):
            w = race.Walker(p)
            w.function(f)
            found = any(race.races(r) or any(b for _, _, b in r.problems) for r in w.regions)
            n += 1
            if found != f['n'].startswith('bad'):
                raise BrokenAnalysis('self-test of the race analysis: %s is %s' % (f['n'], 'reported' if found else 'not reported'))
    if n < 20:
        raise BrokenAnalysis('self-test of the race analysis: %d functions' % n)
