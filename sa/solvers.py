"""runs the vector algebra of sa/vecstate.py over a solver and turns its notes into obligations"""
import vecstate
from prog import REPO, BrokenAnalysis


def check(c, p, q, project, residual, guess):
    fs = [f for f in p.byq.get(q, []) if f.get('body')]
    if len(fs) != 1:
        raise BrokenAnalysis('%d definitions of %s' % (len(fs), q))
    f = fs[0]
    F = f['F'].replace(REPO + '/', '')
    c.functions.add('%s (%s:%s)' % (q, F, f['line']))
    res = {}

    def note(kind, ok, e, detail):
        k = (kind, '%s (%s:%s)' % (q, F, (e or {}).get('p', f['line'])))
        o = res.get(k)
        if o is None or (o[0] is True and ok is not True) or (o[0] is None and ok is False):
            res[k] = (ok, detail)
    try:
        vecstate.Solver(p, f, project, residual, note).solve(guess)
    except vecstate.Unknown as x:
        c.und('vector algebra', '%s (%s:%s)' % (q, F, f['line']), str(x))
    need = {'projected gradient step', 'residual of an iterate with its own gradient', 'reported residual is that of the returned vector'}
    for (kind, at), (ok, detail) in sorted(res.items()):
        need.discard(kind)
        if ok is True:
            c.ok(kind, at, 'holds in every state that reaches it')
        elif ok is None:
            c.und(kind, at, detail)
        else:
            c.bad(kind, at, detail)
    for kind in sorted(need):
        c.und(kind, '%s (%s:%s)' % (q, F, f['line']), 'no such point found')
