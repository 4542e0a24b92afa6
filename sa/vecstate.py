"""Vector algebra of iterative solvers: an abstract interpretation of the solver loops in which the content of every vector is a
linear combination of iterates, of the operator A applied to iterates and of b.  Loops are analysed to a fixed point over relational
templates (gradient of which iterate, copy of which, counter relative to which), so nothing is unrolled or executed."""
import re
from fractions import Fraction
import alg
from prog import strip, tk, walk

EPS = 'eps'


DEBUG = False


class Unknown(Exception):
    pass


def vkey(v):
    return ' + '.join('%s*[%s]' % (t, repr(c)) for t, c in sorted(v.items(), key=lambda x: str(x[0])))


def vnorm(v):
    return {t: c for t, c in v.items() if c != alg.num(0)}


def vadd(a, b, f=None):
    r = dict(a)
    for t, c in b.items():
        c = c if f is None else alg.mul(f, c)
        r[t] = alg.add(r[t], c) if t in r else c
    return vnorm(r)


def vscale(a, f):
    return vnorm({t: alg.mul(f, c) for t, c in a.items()})


def vA(a):
    r = {}
    for t, c in a.items():
        if isinstance(t, tuple) and t[0] == 'A' and t[2] >= 3:
            raise Unknown('powers of the operator')
        n = ('A', t[1], t[2] + 1) if isinstance(t, tuple) else ('A', t, 1)
        r[n] = c
    return r


def veq(a, b):
    return not vadd(a, b, alg.num(-1))


def split(t):
    return (t[1], t[2]) if isinstance(t, tuple) else (t, 0)


def vdot(a, b):
    s = alg.num(0)
    for t, c in a.items():
        for u, d in b.items():
            (x, n), (y, m) = split(t), split(u)
            x, y = sorted((x, y))
            s = alg.add(s, alg.mul(alg.mul(c, d), sc('dot%d:%s,%s' % (n + m, x, y))))
    return s


def sc(name):
    return alg.leaf(alg.pa(alg.atom(name, (), 'r')))


LIMIT = sc('limit:max')


class St:
    def __init__(self):
        self.env, self.ve, self.cond, self.dead = {}, {}, [], False
        self.proj, self.feas, self.ret = {}, {}, None

    def copy(self):
        r = St()
        r.env, r.ve, r.cond = dict(self.env), dict(self.ve), list(self.cond)
        r.proj, r.feas, r.ret = dict(self.proj), dict(self.feas), self.ret
        return r


class Solver:
    """obligations are handed to note(kind, ok, expr, detail); ok None = not decided"""

    def __init__(self, p, f, project, residual, note):
        self.p, self.f, self.note = p, f, note
        self.project, self.residual = project, residual
        self.nobj = self.ntok = 0
        self.rets, self.loops, self.steps = [], 0, {}
        self.depth = 0
        self.pick = {}
        self.sq = {}
        self.why = []

    # ---- a whole solver
    def solve(self, guess_projected):
        f = self.f
        fr = {'id': 'f', 'T': f['T'], 'rets': [], 'up': None}
        st = St()
        st.ve['x'] = {'x0': alg.num(1)}
        tol = ite = None
        for pp in f['params']:
            T = f['T'][pp['t']]
            k = ('f', pp['id'])
            if 'Vector<' in T:
                st.env[k] = ('h', 'x')
                xk = k
            elif 'deque' not in T and 'double' in T:
                tol = st.env[k] = sc('tol')
            elif 'int' in T and 'deque' not in T:
                ite = st.env[k] = sc('iteMax')
        st.env['#push'] = st.env['#apply'] = alg.num(0)
        st.env['#last'] = None
        n, _, _ = self.run(f['body'], [st], fr)
        rets = [(s, v, e) for s, v, e in fr['rets']]
        for s, v, e in rets:
            c = const(v) if isscal(v) else None
            if c is None:
                self.note('status', None, e, 'status %r' % (v,))
                continue
            if c != 0:
                continue
            limit = any(k in ('le', 'lt') and const(alg.sub(x, ite)) is not None for k, x, y in s.cond)
            if limit and const(s.env['#push']) == 1:
                continue        # no iteration asked for
            o = self.vec(s.env[self.key(s, xk)], s)
            if o is None:
                self.note('returned vector', None, e, 'not tracked')
                continue
            w = s.ve[o]
            unk = '!' in vkey(w)
            one = len(w) == 1 and list(w.values())[0] == alg.num(1)
            t = list(w)[0] if one else None
            if guess_projected or t != 'x0':
                self.note('returned vector within the bounds', None if unk else bool(one and s.feas.get(t)), e,
                          'status 0 returns %s, which was not projected (after tests %s)' % (show(w), s.cond[-3:]))
            r = self.res(w)
            H = s.env['#last']
            self.note('reported residual is that of the returned vector', None if unk or not isscal(H) else self.less(s, r, H, False), e,
                      'status 0 returns %s, but the last residual recorded is %r' % (show(w), H))
            if not limit:
                self.note('success means residual below tolerance', None if unk else self.less(s, r, tol, True), e,
                          'status 0 before the iteration limit, without %r < tol (tests %s)' % (r, s.cond[-3:]))
        if not rets:
            self.note('status', None, None, 'no return')

    # ---- helpers
    def newobj(self, st, v):
        self.nobj += 1
        st.ve[self.nobj] = v
        return ('h', self.nobj)

    def tok(self, base):
        self.ntok += 1
        return '%s#%d' % (base, self.ntok)

    def line(self, e):
        return '%s:%s' % (self.f['F'].rsplit('/', 1)[-1], (e or {}).get('p', self.f['line']))

    def key(self, st, k):
        while True:
            v = st.env.get(k)
            if isinstance(v, tuple) and v[0] == '&':
                k = v[1]
            else:
                return k

    # ---- statements: list of states in, dict of lists out
    def run(self, s, sts, fr):
        """returns (normal, break, continue)"""
        out, br, co = [], [], []
        if s is None:
            return sts, br, co
        k = s['k']
        if k == 'Block':
            cur = sts
            for x in s['b']:
                cur, b, c = self.run(x, cur, fr)
                br += b
                co += c
                if len(cur) > 400:
                    raise Unknown('too many paths')
            return cur, br, co
        if k == 'Decl':
            cur = sts
            for d in s['d']:
                nxt = []
                for st in cur:
                    if 'n' not in d:
                        nxt.append(st)
                        continue
                    for st2, v in self.evals(d.get('init'), st, fr):
                        T = fr['T'][d['t']]
                        kk = (fr['id'], d['id'])
                        if T.rstrip().endswith('&') and d.get('init') is not None:
                            lk = self.lkey(d['init'], st2, fr)
                            st2.env[kk] = ('&', lk) if lk is not None and lk != kk else v
                        else:
                            st2.env[kk] = v
                        nxt.append(st2)
                cur = nxt
            return cur, br, co
        if k == 'Expr':
            for st in sts:
                out += [x for x, _ in self.evals(s['e'], st, fr) if not x.dead]
            return out, br, co
        if k == 'Return':
            for st in sts:
                for st2, v in (self.evals(s.get('e'), st, fr) if s.get('e') is not None else [(st, None)]):
                    if not st2.dead:
                        fr['rets'].append((st2, v, s))
            return [], br, co
        if k == 'If':
            for st in sts:
                t, f = self.branch(s['c'], st, fr)
                a, b1, c1 = self.run(s['a'], t, fr)
                b, b2, c2 = self.run(s.get('b'), f, fr)
                out += a + b
                br += b1 + b2
                co += c1 + c2
            return out, br, co
        if k in ('While', 'For', 'Do'):
            if k == 'For' and s.get('init') is not None:
                sts, _, _ = self.run(s['init'], sts, fr)
            return self.loop(s, sts, fr), br, co
        if k == 'Break':
            return [], list(sts), co
        if k == 'Continue':
            return [], br, list(sts)
        if k in ('Null',):
            return sts, br, co
        if k == 'Label' or k == 'OMP' or k == 'Try':
            return self.run(s.get('b') or s.get('s'), sts, fr)
        if k == 'Switch':
            # every case separately
            for st in sts:
                cur = []
                dflt = False
                for x in s['b']['b']:
                    while x is not None and x['k'] in ('Case', 'Default'):
                        dflt |= x['k'] == 'Default'
                        cur.append(st.copy())
                        x = x.get('s') or x.get('b')
                    if x is not None:
                        cur, b, c = self.run(x, cur, fr)
                        out += b
                        co += c
                out += cur
                if not dflt:
                    out.append(st)
            return out, br, co
        raise Unknown('statement ' + k)

    # ---- conditions
    def branch(self, c, st, fr):
        """states where c holds and where it does not"""
        while c['k'] == 'Cast':
            c = c['e']
        if c['k'] == 'Un' and c['op'] == '!':
            t, f = self.branch(c['e'], st, fr)
            return f, t
        if c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            t, f = self.branch(c['l'], st, fr)
            if c['op'] == '&&':
                T, F = [], list(f)
                for x in t:
                    a, b = self.branch(c['r'], x, fr)
                    T += a
                    F += b
                return T, F
            T, F = list(t), []
            for x in f:
                a, b = self.branch(c['r'], x, fr)
                T += a
                F += b
            return T, F
        T, F = [], []
        for st1, v in self.evals(c, st, fr):
            t, f = self.decide(st1, v)
            T += t
            F += f
        return T, F

    def compare(self, e, a, b, fr):
        op = e['op']
        if op in ('>', '>='):
            a, b = b, a
        kind = 'lt' if op in ('<', '>') else 'le'
        ty = fr['T'][strip_cast(e['l']).get('t', e['t'])], fr['T'][strip_cast(e['r']).get('t', e['t'])]
        if kind == 'lt' and not any('double' in t or 'float' in t for t in ty):
            return ('cmp', 'le', alg.add(a, alg.num(1)), b, True)
        return ('cmp', kind, a, b, not any('double' in t or 'float' in t for t in ty))

    def decide(self, st, v):
        """states in which the value is true, and in which it is false"""
        if isinstance(v, tuple) and v[0] == 'bool':
            if v[1] == '!':
                t, f = self.decide(st, v[2])
                return f, t
            t, f = self.decide(st, v[2])
            T, F = [], []
            if v[1] == '&&':
                F += f
                for x in t:
                    a, b = self.decide(x, v[3])
                    T += a
                    F += b
            else:
                T += t
                for x in f:
                    a, b = self.decide(x, v[3])
                    T += a
                    F += b
            return T, F
        if isinstance(v, tuple) and v[0] == 'cmp':
            _, kind, x, y, whole = v
            g = (kind, x, y)
            if whole:
                l = ('le', alg.add(y, alg.num(1)), x)
            else:
                l = ('le' if kind == 'lt' else 'lt', y, x)
            T, F = [], []
            t, f = not self.refuted(st, g), not self.refuted(st, l)
            if y == LIMIT:
                f = False
            if x == LIMIT:
                t = False
            if t:
                s = st.copy()
                s.cond.append(g)
                T.append(s)
            if f:
                st.cond.append(l)
                F.append(st)
            return T, F
        if isscal(v):
            c = const(v)
            if c is not None:
                return ([st], []) if c != 0 else ([], [st])
            g, l = ('ne', v, alg.num(0)), ('eq', v, alg.num(0))
            if l in st.cond:
                return [], [st]
            if g in st.cond:
                return [st], []
            s = st.copy()
            s.cond.append(g)
            st.cond.append(l)
            return [s], [st]
        return [st.copy()], [st]

    def refuted(self, st, g):
        k, x, y = g
        d = alg.sub(y, x)
        for (k2, a, b) in [('le', alg.num(0), alg.num(0))] + st.cond:
            if k2 in ('lt', 'le'):
                c = const(alg.add(d, alg.sub(b, a)))
                if c is not None and (c < 0 or c == 0 and 'lt' in (k, k2)):
                    return True
        return False

    def less(self, st, x, y, strict):
        """x < y (or <=) follows from the tests passed on the way"""
        if not strict and x == y:
            return True
        d = alg.sub(y, x)

        def implied(k, a, b):
            c = const(alg.sub(d, alg.sub(b, a)))
            return c is not None and (c > 0 or c == 0 and (k == 'lt' or not strict))
        L = [c for c in st.cond if c[0] in ('lt', 'le')]
        if any(implied(*c) for c in L):
            return True
        for (k, a, b) in L:
            if a == x and b != x:
                for (k2, a2, b2) in L:
                    if a2 == b and b2 == y and (not strict or 'lt' in (k, k2)):
                        return True
        return False

    # ---- loops
    def loop(self, s, sts, fr):
        self.loops += 1
        lid = '%s@%s' % (s['k'][0], self.loops)
        frame = set()
        for st in sts:
            frame |= set(st.env)
        old = set()
        for st in sts:
            for v in st.ve.values():
                old |= names(vkey(v))
            for v in st.env.values():
                if isscal(v):
                    old |= names(repr(v))
        exits = []

        def test(xs):
            if s['k'] == 'Do' or s.get('c') is None:
                return xs
            t = []
            for x in xs:
                a, b = self.branch(s['c'], x, fr)
                t += a
                exits.extend(b)
            return t

        def body(xs):
            n, b, c = self.run(s['b'], xs, fr)
            n = n + c
            exits.extend(b)
            if s['k'] == 'For' and s.get('inc') is not None:
                n = [x for st in n for x, _ in self.evals(s['inc'], st, fr) if not x.dead]
            if s['k'] == 'Do' and s.get('c') is not None:
                t = []
                for x in n:
                    a, e = self.branch(s['c'], x, fr)
                    t += a
                    exits.extend(e)
                return t
            return n

        first = body(test(sts))
        if not first:
            return exits
        again = test(first)
        if not again:
            return exits
        keep = exits
        acc = again
        tmpl = None
        ids = {}
        for _ in range(12):
            # one general state for each way in which the variables share vectors
            groups = {}
            for x in acc:
                part = {}
                for k, v in x.env.items():
                    if k in frame and isinstance(v, tuple) and v[0] == 'h':
                        part.setdefault(v[1], []).append(str(k))
                sig = tuple(sorted(tuple(sorted(v)) for v in part.values()))
                ids.setdefault(sig, len(ids))
                groups.setdefault(sig, []).append(x)
            if len(groups) > 8:
                raise Unknown('too many ways to share vectors at the head of the loop at %s' % self.line(s.get('c') or s))
            gs = {sig: self.general(xs, frame, lid + (chr(96 + ids[sig]) if ids[sig] else ''), old) for sig, xs in groups.items()}
            t = {sig: x[1] for sig, x in gs.items()}
            if t == tmpl:
                break
            tmpl = t
            exits = []
            new = test(body([g for g, _ in gs.values()]))
            acc = again + new
        else:
            raise Unknown('no fixed point in the loop at %s' % self.line(s.get('c') or s))
        return keep + exits

    def general(self, sts, frame, lid, old):
        """one state that describes all of sts at the loop head"""
        keys = [k for k in sts[0].env if k in frame and all(k in s.env for s in sts)]
        keys.sort(key=str)
        g = St()
        tm = []
        # which variables hold the same vector
        part = {}
        for k in keys:
            vs = [s.env[k] for s in sts]
            if all(isinstance(v, tuple) and v[0] == 'h' for v in vs):
                part.setdefault(tuple(v[1] for v in vs), []).append(k)
        for i in range(len(sts)):
            ids = [x[i] for x in part]
            if len(set(ids)) != len(ids):
                raise Unknown('the vectors held at the loop head depend on the path')
        objs = sorted(part, key=lambda x: str(part[x][0]))
        VE = {o: [s.ve[o[i]] for i, s in enumerate(sts)] for o in objs}
        b = {'b': alg.num(1)}
        same = lambda o: all(veq(v, VE[o][0]) for v in VE[o])
        forms = [('copy', lambda v: v), ('grad', lambda v: vadd(vA(v), b)), ('op', vA)]
        root, der = list(objs), {}
        for o in objs:
            for q in root:
                if q == o:
                    continue
                for nm, fn in forms:
                    try:
                        if all(veq(x, fn(y)) for x, y in zip(VE[o], VE[q])):
                            der[o] = (nm, fn, q)
                            break
                    except Unknown:
                        pass
                if o in der:
                    root.remove(o)
                    break
        val, n, late = {}, 0, []
        for o in objs:
            if o in der:
                continue
            if same(o) and names(vkey(VE[o][0])) <= old:
                val[o] = VE[o][0]
                tm.append((o and str(part[o]), 'same', vkey(val[o])))
            else:
                n += 1
                t = 'h:%s:%s' % (lid, n)
                val[o] = {t: alg.num(1)}
                fe = all(len(v) == 1 and list(v.values())[0] == alg.num(1) and s.feas.get(list(v)[0]) for v, s in zip(VE[o], sts))
                unk = any(str(x).startswith('!') or '!' in str(x) for v in VE[o] for x in v)
                if unk:
                    val[o] = {'!' + t: alg.num(1)}
                g.feas[t] = fe
                if fe:
                    g.proj[t] = None
                    late.append((o, t))
                tm.append((str(part[o]), 'fresh', fe, unk))
        todo = [o for o in objs if o in der]
        while todo:
            for o in list(todo):
                nm, fn, q = der[o]
                if q in val:
                    val[o] = fn(val[q])
                    tm.append((str(part[o]), nm, str(part[q])))
                    todo.remove(o)
        for o in objs:
            self.nobj += 1
            g.ve[self.nobj] = val[o]
            for k in part[o]:
                g.env[k] = ('h', self.nobj)
        for s in sts[:1]:
            for t in s.feas:
                if all(x.feas.get(t) for x in sts):
                    g.feas[t] = True
                    g.proj[t] = s.proj.get(t)
        # scalars
        done = []
        m = 0
        for k in keys:
            vs = [s.env[k] for s in sts]
            if k in g.env:
                continue
            if all(isscal(v) for v in vs):
                if all(v == vs[0] for v in vs) and names(repr(vs[0])) <= old:
                    g.env[k] = vs[0]
                    tm.append((str(k), 'same', repr(vs[0])))
                    continue
                r = None
                for o in objs:
                    if all(v == self.res(ve) for v, ve in zip(vs, VE[o])):
                        r = ('res', str(part[o]))
                        g.env[k] = self.res(val[o])
                        break
                if r is None:
                    for k2, v2 in done:
                        ds = [alg.sub(v, w) for v, w in zip(vs, v2)]
                        if all(d == ds[0] for d in ds) and const(ds[0]) is not None:
                            r = ('plus', str(k2), repr(ds[0]))
                            g.env[k] = alg.add(g.env[k2], ds[0])
                            break
                        if all(alg.mul(v, w) == alg.num(1) for v, w in zip(vs, v2)):
                            r = ('inverse', str(k2))
                            g.env[k] = alg.inv(g.env[k2])
                            break
                if r is None:
                    m += 1
                    nm = 's:%s:%s' % (lid, m)
                    g.env[k] = sc(nm)
                    self.steps.setdefault(nm, [])
                    for s, v in zip(sts, vs):
                        if not any(v == x for _, x in self.steps[nm]):
                            self.steps[nm].append((s, v))
                    r = ('fresh',)
                done.append((k, vs))
                tm.append((str(k),) + r)
                continue
            if all(v == vs[0] for v in vs):
                g.env[k] = vs[0]
        # the step that produced an iterate
        for o, t in late:
            ys = [s.proj.get(list(v)[0]) for v, s in zip(VE[o], sts)]
            if any(y is None or 'b' not in y for y in ys):
                continue
            ts = [alg.neg(y['b']) for y in ys]
            bs = [{u: c for u, c in y.items() if not isinstance(u, tuple) and u != 'b'} for y in ys]
            if not all(veq(x, bs[0]) for x in bs) or not all(veq(vadd(bs[0], vadd(vA(bs[0]), b), alg.neg(x)), y) for x, y in zip(ts, ys)):
                continue
            for k in keys:
                if isscal(g.env.get(k)) and all(s.env[k] == x for s, x in zip(sts, ts)):
                    g.proj[t] = vadd(bs[0], vadd(vA(bs[0]), b), alg.neg(g.env[k]))
                    tm.append((t, 'step by', str(k)))
                    break
        # order of the best and the last residual
        H = g.env.get('#last')
        if isscal(H):
            for k in keys:
                v = g.env.get(k)
                if k != '#last' and isscal(v) and v != H and all(self.less(s, s.env[k], s.env['#last'], False) for s in sts):
                    g.cond.append(('le', v, H))
                    tm.append((str(k), '<= last residual'))
        return g, sorted(map(str, tm))

    def res(self, ve):
        return sc('res{%s}' % vkey(ve))

    # ---- expressions
    def evals(self, e, st, fr):
        """[(state, value)]; only a conditional at the top forks"""
        x = e
        while x is not None and x['k'] == 'Cast':
            x = x['e']
        if x is not None:
            c = nested(x, self.pick)
            if c is not None:
                t, f = self.branch(c['c'], st, fr)
                out = []
                for ss, w in ((t, 'a'), (f, 'b')):
                    for s in ss:
                        self.pick[id(c)] = w
                        out += self.evals(e, s, fr)
                        del self.pick[id(c)]
                return out
        if x is not None and x['k'] == 'Call':
            r = self.inline(x, st, fr)
            if r is not None:
                return r
        return [(st, self.ev(e, st, fr))]

    def lkey(self, e, st, fr):
        e = strip_cast(e)
        if e['k'] == 'Ref' and e.get('id') is not None:
            k = (fr['id'], e['id'])
            if k not in st.env and fr.get('up'):
                u = fr['up']
                while u:
                    if (u['id'], e['id']) in st.env:
                        k = (u['id'], e['id'])
                        break
                    u = u.get('up')
            return self.key(st, k)
        return None

    def store(self, l, v, st, fr):
        k = self.lkey(l, st, fr)
        if k is not None:
            st.env[k] = v
            return
        l = strip_cast(l)
        t = None
        try:
            t = self.ev(l, st, fr)
        except Unknown:
            pass
        if isinstance(t, tuple) and t[0] in ('h', 'v') and isinstance(v, tuple) and v[0] in ('h', 'v'):
            st.ve[t[1]] = st.ve[v[1]]

    def vec(self, v, st):
        if isinstance(v, tuple) and v[0] in ('h', 'v') and v[1] in st.ve:
            return v[1]
        return None

    def ev(self, e, st, fr):
        if e is None:
            return None
        k = e['k']
        if k == 'Cast':
            return self.ev(e['e'], st, fr)
        if k == 'Int':
            return alg.num(int(e['v']))
        if k == 'Float':
            return alg.num(Fraction(e['v']))
        if k == 'Bool':
            return alg.TRUE if e.get('v') else alg.FALSE
        if k in ('Str', 'Null', 'This', 'Zero', 'SizeOf'):
            return None
        if k == 'Ref':
            if e.get('cv') is not None and e.get('dk') in ('enum', 'const'):
                return alg.num(int(e['cv'])) if str(e['cv']).lstrip('-').isdigit() else None
            kk = self.lkey(e, st, fr)
            if kk is not None and kk in st.env:
                return st.env[kk]
            return None
        if k == 'Mem':
            T = fr['T'][e['t']]
            if strip_cast(e['b'])['k'] == 'This' and 'RCP<' in T:
                if 'Operator<' in T:
                    return ('A',)
                if 'Vector<' in T:
                    n = 'b' if 'RCP<const' in T.replace('Teuchos::', '') else 'field:' + e['n']
                    return self.const(st, n)
            return None
        if k == 'Un':
            op = e['op']
            if op in ('++', '--', 'post++', 'post--', 'pre++', 'pre--') or '++' in op or '--' in op:
                v = self.ev(e['e'], st, fr)
                n = alg.add(v, alg.num(1 if '+' in op else -1)) if isscal(v) else None
                self.store(e['e'], n, st, fr)
                post = 'post' in op or e.get('post')
                return v if post else n
            v = self.ev(e['e'], st, fr)
            if op == '!' and isinstance(v, tuple) and v[0] in ('cmp', 'bool'):
                return ('bool', '!', v, None)
            if op == '-' and isscal(v):
                return alg.neg(v)
            if op == '+':
                return v
            if op == '*' and isinstance(v, tuple) and v[0] == 'h':
                return ('v', v[1])
            if op == '&' and isinstance(v, tuple) and v[0] == 'v':
                return ('h', v[1])
            if op == '*':
                return v
            return None
        if k == 'Bin':
            a, b = self.ev(e['l'], st, fr), self.ev(e['r'], st, fr)
            if e['op'] in ('&&', '||') and all(isscal(x) or isinstance(x, tuple) and x[0] in ('cmp', 'bool') for x in (a, b)):
                return ('bool', e['op'], a, b)
            if isscal(a) and isscal(b) and e['op'] in ('<', '<=', '>', '>='):
                return self.compare(e, a, b, fr)
            if isscal(a) and isscal(b):
                if e['op'] == '/' and ('dot' in repr(b) or 'norm2{' in repr(b) or 'out:' in repr(b)) and EPS not in repr(b) and 'inv(' not in repr(b) and '^-' not in repr(b):
                    ok = any(k2 in ('lt', 'le') and y in (b, alg.fn('absv', b)) and (k2 == 'lt' or const(x) != 0) for k2, x, y in st.cond) or \
                        ('ne', b, alg.num(0)) in st.cond
                    self.note('divisor tested for zero', ok if 'out:' not in repr(b) else None, e, 'nothing on the way to this division excludes a divisor %r of zero' % b)
                if e['op'] == '*' and a == b and a in self.sq:
                    return self.sq[a]
                v = arith(e['op'], a, b, 'int' in fr['T'][e['t']] or 'long' in fr['T'][e['t']])
                if e['op'] == '/':
                    self.justify(st, a, b, v)
                return v
            return None
        if k == 'Asg':
            v = self.ev(e['r'], st, fr)
            self.store(e['l'], v, st, fr)
            return v
        if k == 'CAsg':
            a, b = self.ev(e['l'], st, fr), self.ev(e['r'], st, fr)
            v = arith(e['op'].rstrip('='), a, b, False) if isscal(a) and isscal(b) else None
            self.store(e['l'], v, st, fr)
            return v
        if k == 'IList':
            v = [self.ev(x, st, fr) for x in e['a']]
            return v[0] if len(v) == 1 and isinstance(v[0], list) else v
        if k == 'Lambda':
            snap = tuple((c['id'], st.env.get(self.lkey({'k': 'Ref', 'id': c['id']}, st, fr))) for c in e.get('caps', []) if c.get('id') is not None and not c.get('ref'))
            return ('lam', e, fr, snap)
        if k == 'New':
            return self.new(e, st, fr)
        if k == 'Ctor':
            T = fr['T'][e['t']]
            if not isrcp(T) and 'Vector<' in T and len(T) and not T.startswith('std::'):
                return self.newvec(e.get('a', []), st, fr)
            a = [self.ev(x, st, fr) for x in e.get('a', [])]
            if a:
                return a[0]
            return None
        if k == 'Cond':
            if id(e) in self.pick:
                return self.ev(e[self.pick[id(e)]], st, fr)
            raise Unknown('conditional inside an expression')
        if k == 'Throw':
            st.dead = True
            return None
        if k == 'Call':
            return self.call(e, st, fr)
        if k == 'Idx':
            return None
        if k == 'Delete':
            return None
        for _, x in sub(e):
            self.ev(x, st, fr)
        return None

    def const(self, st, name):
        o = 'c:' + name
        st.ve.setdefault(o, {name: alg.num(1)})
        return ('h', o)

    def new(self, e, st, fr):
        x = e.get('init') or e.get('e') or {}
        args = e.get('a')
        if args is None:
            x = strip_cast(x) if x else {}
            args = x.get('a', [])
        if 'Vector<' in fr['T'][e['t']] and 'RCP' not in fr['T'][e['t']].split('Vector<')[0]:
            return self.newvec(args, st, fr)
        for a in args:
            self.ev(a, st, fr)
        return None

    def newvec(self, args, st, fr):
        v = [self.ev(a, st, fr) for a in args]
        o = self.vec(v[0], st) if v else None
        if o is not None:
            return self.newobj(st, st.ve[o])
        zero = len(v) < 2 or v[1] is alg.TRUE or v[1] == alg.num(1)
        return self.newobj(st, {} if zero else {self.tok('uninit'): alg.num(1)})

    def inline(self, x, st, fr):
        """calls of lambdas and of the solver's own helpers are followed"""
        q = strip(x.get('q') or '')
        last = q.rsplit('::', 1)[-1]
        if last in self.project or last in self.residual:
            return None
        body = None
        o = strip_cast(x['obj']) if x.get('obj') else None
        up = None
        if o is not None and x.get('op') == '()':
            v = self.ev(o, st, fr)
            if isinstance(v, tuple) and v[0] == 'lam':
                fns = v[1].get('fns') or []
                if len(fns) != 1:
                    raise Unknown('generic lambda')
                body, ps, T, up = fns[0]['body'], fns[0]['params'], fr['T'], v[2]
        if body is None:
            f = self.p.fn.get(x.get('f'))
            cls = strip(self.f['q']).rsplit('::', 1)[0]
            if f is None or not f.get('body') or f['F'] != self.f['F'] or f is self.f:
                return None
            if not any('Vector<' in f['T'][pp['t']] for pp in f['params']) and not q.startswith(cls + '::'):
                return None
            if last in ('selfTest', 'test_LCP'):
                return None
            body, ps, T = f['body'], f['params'], f['T']
        if self.depth > 6:
            raise Unknown('depth of calls')
        nf = {'id': '%s/%s' % (fr['id'], x.get('p')), 'T': T, 'rets': [], 'up': up}
        if up is not None:
            for i, w in v[3]:
                st.env[(nf['id'], i)] = w
        for a, pp in zip(x.get('a', []), ps):
            v = self.ev(a, st, fr)
            kk = (nf['id'], pp['id'])
            if T[pp['t']].rstrip().endswith('&'):
                lk = self.lkey(a, st, fr)
                st.env[kk] = ('&', lk) if lk is not None else v
            else:
                st.env[kk] = v
        self.depth += 1
        n, b, c = self.run(body, [st], nf)
        self.depth -= 1
        return [(s, v) for s, v, _ in nf['rets']] + [(s, None) for s in n]

    def call(self, e, st, fr):
        q = strip(e.get('q') or '')
        last = q.rsplit('::', 1)[-1]
        r = self.inline(e, st, fr)
        if r is not None:
            if len(r) != 1:
                raise Unknown('call with several outcomes inside an expression')
            s, v = r[0]
            st.__dict__.update(s.__dict__)
            return v
        obj = self.ev(e['obj'], st, fr) if e.get('obj') is not None else None
        A = e.get('a', [])
        if last in ('exit', 'abort', 'MPI_Abort', 'terminate'):
            st.dead = True
            return None
        if last in self.project:
            v = self.ev(A[0], st, fr)
            o = self.vec(v, st)
            if o is None:
                raise Unknown('projection of an unknown vector')
            old = st.ve[o]
            t = 'p:%s:%s' % (e.get('p'), fr['id'])
            t = self.fresh(t, st)
            st.ve[o] = {t: alg.num(1)}
            st.proj[t] = old
            st.feas[t] = True
            return None
        if last in self.residual:
            vs = [self.vec(self.ev(a, st, fr), st) for a in A]
            if any(v is None for v in vs):
                raise Unknown('residual of an unknown vector')
            x, y = st.ve[vs[0]], st.ve[vs[1]]
            want = vadd(vA(x), {'b': alg.num(1)})
            got = y if len(vs) == 3 else vadd(y, st.ve[vs[2]])
            ok = veq(got, want)
            if not ok and ('!' in vkey(got) or '!' in vkey(want)):
                ok = None
            self.note('residual of an iterate with its own gradient', ok, e, 'residual at x = %s with %s instead of A x + b' % (show(x), show(got)))
            if len(set(vs)) != len(vs):
                self.note('residual of an iterate with its own gradient', False, e, 'the work vector is one of the operands')
            v = st.ve[vs[0]]
            st.ve[vs[-1]] = {'w:%s:%s' % (e.get('p'), fr['id']): alg.num(1)}
            st.env['#at'] = st.env.get('#at')
            self.admissible(st, v, e)
            return self.res(v)
        if e.get('op') == '*' and isinstance(obj, tuple) and not A:
            return ('v', obj[1]) if obj[0] == 'h' else obj
        if e.get('op') == '->':
            return obj
        if e.get('op') == '=' and e.get('obj') is not None:
            v = self.ev(A[0], st, fr)
            T = fr['T'][e['obj']['t']]
            if isrcp(T) or not isinstance(obj, tuple):
                self.store(e['obj'], v, st, fr)
            elif self.vec(v, st) is not None:
                st.ve[obj[1]] = st.ve[v[1]]
            else:
                st.ve[obj[1]] = {'!' + self.tok('assigned'): alg.num(1)}
            return obj
        if last in ('rcp', 'getConst', 'rcpFromRef', 'rcpFromPtr', 'get', 'getRawPtr', 'ptr', 'rcp_const_cast', 'rcp_implicit_cast', 'move', 'forward',
                    'rcp_dynamic_cast', 'create_weak', 'rcpFromUndefRef'):
            if obj is not None:
                return obj
            v = self.ev(A[0], st, fr) if A else None
            return ('h', v[1]) if isinstance(v, tuple) and v[0] == 'v' else v
        if last == 'swap':
            l, r2 = (e['obj'], A[0]) if e.get('obj') is not None else (A[0], A[1])
            k1, k2 = self.lkey(l, st, fr), self.lkey(r2, st, fr)
            if k1 is not None and k2 is not None and k1 in st.env and k2 in st.env:
                st.env[k1], st.env[k2] = st.env[k2], st.env[k1]
                return None
            v1, v2 = self.ev(l, st, fr), self.ev(r2, st, fr)
            if self.vec(v1, st) is not None and self.vec(v2, st) is not None:
                a, b = v1[1], v2[1]
                st.ve[a], st.ve[b] = st.ve[b], st.ve[a]
                return None
            raise Unknown('swap')
        if last == 'deep_copy' and len(A) == 2:
            d, s = self.vec(self.ev(A[0], st, fr), st), self.vec(self.ev(A[1], st, fr), st)
            if d is not None and s is not None:
                st.ve[d] = st.ve[s]
                return None
        if last == 'apply' and obj == ('A',):
            x, y = self.vec(self.ev(A[0], st, fr), st), self.vec(self.ev(A[1], st, fr), st)
            if x is None or y is None:
                raise Unknown('operator applied to an unknown vector')
            al = self.ev(A[3], st, fr) if len(A) > 3 else alg.num(1)
            be = self.ev(A[4], st, fr) if len(A) > 4 else alg.num(0)
            al = al if isscal(al) else alg.num(1)
            be = be if isscal(be) else alg.num(0)
            if x == y:
                self.note('operator output distinct from its input', False, e, 'the operator reads the vector it overwrites')
            st.ve[y] = vadd(vscale(vA(st.ve[x]), al), vscale(st.ve[y], be))
            if isscal(st.env.get('#apply')):
                st.env['#apply'] = alg.add(st.env['#apply'], alg.num(1))
            return None
        o = self.vec(obj, st)
        if o is not None:
            a = [self.ev(x, st, fr) for x in A]
            if last == 'update' and len(a) in (3, 5):
                x = self.vec(a[1], st)
                y = self.vec(a[3], st) if len(a) == 5 else None
                if x is None or (len(a) == 5 and y is None) or not isscal(a[0]) or not isscal(a[-1]) or (len(a) == 5 and not isscal(a[2])):
                    st.ve[o] = {'!' + self.tok('update'): alg.num(1)}
                    return None
                v = vadd(vscale(st.ve[x], a[0]), vscale(st.ve[o], a[-1]))
                if y is not None:
                    v = vadd(v, st.ve[y], a[2])
                st.ve[o] = v
                return None
            if last == 'scale':
                if len(a) == 1 and isscal(a[0]):
                    st.ve[o] = vscale(st.ve[o], a[0])
                    return None
                if len(a) == 2 and isscal(a[0]) and self.vec(a[1], st) is not None:
                    st.ve[o] = vscale(st.ve[self.vec(a[1], st)], a[0])
                    return None
            if last == 'putScalar':
                st.ve[o] = {} if a and isscal(a[0]) and const(a[0]) == 0 else {self.fresh('const:%s' % e.get('p'), st): alg.num(1)}
                return None
            if last == 'assign' and a and self.vec(a[0], st) is not None:
                st.ve[o] = st.ve[self.vec(a[0], st)]
                return None
            if last == 'dot' and a and self.vec(a[0], st) is not None:
                return vdot(st.ve[o], st.ve[self.vec(a[0], st)])
            if last == 'norm2':
                r = sc('norm2{%s}' % vkey(st.ve[o]))
                self.sq[r] = vdot(st.ve[o], st.ve[o])
                return r
            if last in ('normInf', 'norm1'):
                return sc('%s{%s}' % (last, vkey(st.ve[o])))
            if e.get('const'):
                return None
            st.ve[o] = {'!' + self.tok(last): alg.num(1)}
            return None
        if last == 'push_back' or last == 'emplace_back':
            T = fr['T'][strip_cast(e['obj'])['t']] if e.get('obj') else ''
            v = self.ev(A[0], st, fr) if A else None
            if 'array<double, 6>' in T:
                self.history(v, st, e)
            return None
        a = [self.ev(x, st, fr) for x in A]
        if last in ('fabs', 'abs') and isscal(a[0]):
            return a[0] if 'res{' in repr(a[0]) and repr(a[0]).count('res{') == 1 and self.isres(a[0]) else alg.fn('absv', a[0])
        if last == 'pow' and all(isscal(x) for x in a):
            c = const(a[1])
            if c is not None and c.denominator == 1 and 0 <= c <= 4:
                r = alg.num(1)
                if a[0] in self.sq and c == 2:
                    return self.sq[a[0]]
                for _ in range(int(c)):
                    r = alg.mul(r, a[0])
                return r
            return alg.fn('pow', *a)
        if last == 'sqrt' and isscal(a[0]):
            return alg.fn('sqrtv', a[0])
        if last in ('epsilon',):
            return sc(EPS)
        if last in ('max', 'min') and len(a) == 0:
            return sc('limit:' + last)
        for x in a:
            w = self.vec(x, st)
            if w is not None and not self.constcall(e):
                st.ve[w] = {'!' + self.tok(last): alg.num(1)}
        for x, v in zip(A, a):
            k = self.lkey(x, st, fr)
            if k is not None and isscal(v) and not self.constcall(e):
                pt = e.get('pt')
                st.env[k] = sc('out:%s:%s' % (last, e.get('p')))
        if q and '::' in q and last == 'operator=':
            return None
        return None

    def isres(self, v):
        for k in ('res{',):
            if repr(v).startswith(k) or repr(v).lstrip("<('").startswith(k):
                return True
        return True

    def constcall(self, e):
        q = strip(e.get('q') or '')
        if q.startswith(('spdlog::', 'std::', 'Teuchos::TimeMonitor', 'dump')) or 'dump' in q or 'print' in q:
            return True
        f = self.p.fn.get(e.get('f'))
        sig = e.get('f') or ''
        args = sig.rsplit('(', 1)[-1]
        ps = [x for x in args.rstrip(')').split(',')]
        return not any('&' in x and 'const' not in x for x in ps)

    def fresh(self, base, st):
        """a token for newly written content; the previous content written here may still be alive, so tokens alternate"""
        used = set()
        for v in st.ve.values():
            for t in v:
                used.add(split(t)[0])
        for v in st.env.values():
            if isscal(v):
                r = repr(v)
                for i in range(6):
                    if '%s.%d' % (base, i) in r:
                        used.add('%s.%d' % (base, i))
        i = 0
        while '%s.%d' % (base, i) in used:
            i += 1
        st.feas.pop('%s.%d' % (base, i), None)
        t = '%s.%d' % (base, i)
        st.cond = [c for c in st.cond if t not in repr(c)]
        return t

    def justify(self, st, a, b, v):
        """whether a / b is an inverse Rayleigh quotient of A or 1/|projected gradient| in this state"""
        for w in list(st.ve.values()):
            if not w:
                continue
            if const(a) == 1 and len(w) == 1 and str(next(iter(w))).startswith('w:') and b == sc('normInf{%s}' % vkey(w)):
                break
            try:
                aw = vA(w)
                forms = ((vdot(w, w), vdot(w, aw)), (vdot(w, aw), vdot(aw, aw)))
            except Unknown:
                continue
            if any(a == n and (const(alg.div(alg.sub(b, d), sc(EPS))) or 0 if b != d else 1) > 0 for n, d in forms):
                break
        else:
            return
        st.env['#good'] = st.env.get('#good', ()) + (v,)

    # ---- obligations
    def history(self, v, st, e):
        n = st.env['#push']
        st.env['#push'] = alg.add(n, alg.num(1))
        if not isinstance(v, list) or len(v) != 6:
            self.note('history record', None, e, 'record not understood')
            return
        self.note('history record: iteration number', v[0] == n if isscal(v[0]) else None, e, 'entry 0 is %r, this is record %r' % (v[0], n))
        self.note('history record: number of operator applications', v[5] == st.env['#apply'] if isscal(v[5]) else None, e,
                  'entry 5 is %r after %r applications' % (v[5], st.env['#apply']))
        ok = isscal(v[4]) and ('res{' in repr(v[4]))
        first = const(n) == 0
        self.note('history record: residual', True if ok or (first and isscal(v[4]) and const(v[4]) == 0) else (False if isscal(v[4]) else None), e,
                  'entry 4 is %r, not a measured residual' % (v[4],))
        st.env['#last'] = v[4]

    def admissible(self, st, x, e):
        """the step that led to x: initial guess, or projection of y - t (A y + b) with an acceptable t"""
        kind = 'projected gradient step'
        if len(x) != 1 or list(x.values())[0] != alg.num(1):
            self.note(kind, None if '!' in vkey(x) else False, e, 'the iterate %s was not projected on the bounds' % show(x))
            return
        t = list(x)[0]
        if t == 'x0':
            return
        if t not in st.proj:
            self.note(kind, None if '!' in str(t) else False, e, 'the iterate %s was not projected on the bounds' % show(x))
            return
        y = st.proj[t]
        if y is None or (len(y) == 1 and 'x0' in y and y['x0'] == alg.num(1)):
            return
        if 'b' not in y:
            self.note(kind, None if '!' in vkey(y) else False, e, 'projected vector %s is no step along -(A y + b)' % show(y))
            return
        tt = alg.neg(y['b'])
        base = {u: c for u, c in y.items() if not isinstance(u, tuple) and u != 'b'}
        want = vadd(base, vadd(vA(base), {'b': alg.num(1)}), alg.neg(tt))
        if not veq(want, y):
            self.note(kind, None if '!' in vkey(y) else False, e, 'projected vector %s is not y - t (A y + b)' % show(y))
            return
        why = self.size(st, tt, x, base, 0)
        self.note(kind, why is True if why is not None else None, e, 'step length %r: %s' % (tt, why))

    def size(self, st, t, x, y, d):
        """True, or why the step length is not justified (None: not decided)"""
        r = self.ratio(st, t, d)
        if r is True:
            return True
        # sufficient decrease tested with L = 1/t
        if x is not None:
            L = alg.inv(t)
            half = alg.num(Fraction(1, 2))
            f = lambda v: alg.add(alg.mul(half, vdot(v, vA(v))), vdot(v, {'b': alg.num(1)}))
            dx = vadd(x, y, alg.num(-1))
            g = vadd(vA(y), {'b': alg.num(1)})
            need = alg.sub(f(x), alg.add(alg.add(f(y), vdot(g, dx)), alg.mul(alg.mul(half, L), vdot(dx, dx))))
            for (k, a, b) in st.cond:
                if k in ('lt', 'le') and same0(alg.sub(a, b), need):
                    return True
        return r

    def ratio(self, st, t, d):
        """an inverse Rayleigh quotient of A (Barzilai-Borwein, steepest descent), or the first step 1/|projected gradient|"""
        rep = repr(t)
        nm = onescalar(t)
        if nm is not None and nm in self.steps:
            if d > 3:
                return True
            for s, v in self.steps[nm]:
                r = self.ratio(s, v, d + 1)
                if r is not True:
                    return r
            return True
        if st is not None and t in st.env.get('#good', ()):
            return True
        if '!' in rep or 'out:' in rep:
            return None
        return 'neither 1/|projected gradient|, an inverse Rayleigh quotient of A, nor confirmed by the sufficient decrease test'


def nested(e, pick):
    """the first conditional of an expression whose outcome is not yet fixed"""
    if e['k'] == 'Lambda':
        return None
    if e['k'] == 'Cond':
        if id(e) not in pick:
            return nested(e['c'], pick) or e
        return nested(e[pick[id(e)]], pick)
    for _, x in sub(e):
        r = nested(x, pick)
        if r is not None:
            return r
    return None


def strip_cast(e):
    while e['k'] == 'Cast':
        e = e['e']
    return e


def sub(e):
    for k, v in e.items():
        if isinstance(v, dict) and 'k' in v:
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield k, x


def isrcp(T):
    return T.replace('const ', '').lstrip().startswith('Teuchos::RCP<')


def isscal(v):
    return isinstance(v, alg.N)


def const(v):
    if isscal(v):
        try:
            L = alg.leafset(v)
        except Exception:
            return None
        if len(L) == 1:
            x = next(iter(L))
            if isinstance(x, alg.P):
                return x.const()
    return None


def names(r):
    """tokens and scalars mentioned in the text of a value"""
    return set(re.findall(r"!?[A-Za-z]\w*[:#@][^,{}\[\]()*+' ]+", re.sub(r'dot\d:', 'dot ', r)))


def same0(a, b):
    return a == b


def onescalar(t):
    """(name of the scalar token, factor) of a value that is a multiple of one scalar"""
    L = alg.leafset(t)
    if len(L) == 1 and isinstance(next(iter(L)), alg.P):
        m = re.fullmatch(r'(s:[^()]*)\(\)', repr(t))
        if m and t == sc(m.group(1)):
            return m.group(1)
    return None


def arith(op, a, b, integer):
    if op == '+':
        return alg.add(a, b)
    if op == '-':
        return alg.sub(a, b)
    if op == '*':
        return alg.mul(a, b)
    if op == '/':
        return alg.idiv(a, b) if integer else alg.div(a, b)
    if op == '%':
        return alg.fn('mod', a, b)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return {'<': alg.lt(a, b), '<=': alg.le(a, b), '>': alg.lt(b, a), '>=': alg.le(b, a), '==': alg.eq(a, b), '!=': alg.bnot(alg.eq(a, b))}[op]
    return None


def show(v):
    return ' + '.join('%r %s' % (c, t if not isinstance(t, tuple) else 'A^%d %s' % (t[2], t[1])) for t, c in sorted(v.items(), key=str)) or '0'
