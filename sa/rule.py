"""Obligations, verdicts and reports shared by every rule."""
import copy
import hashlib
import json
import math
import os
import sys
import time

import alg
import interp
import iomodel
from alg import N, P, Ref, S, Ob, NULL, TRUE, FALSE, leaf, num, atom, pa, pc, band, bnot, bor, same, restrict, Undecided
from interp import Machine, poisoned
from models import cat
from prog import Prog, BrokenAnalysis, REPO, VERIF, strip, TUS, tk, isref

KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Check:
    def __init__(self, pid, tier, seed=1):
        self.subset = None
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []          # (verdict, rule, where, detail)
        self.functions = set()
        self.t0 = time.time()
        self.notes = []
        self.guard_hits = {}
        self.hints = None
        self.guard = TRUE

    # ---------------------------------------------------------------- verdicts
    def ok(self, rule, where, detail=''):
        self.obs.append(('ok', rule, where, detail))

    def bad(self, rule, where, detail):
        self.obs.append(('bad', rule, where, detail))

    def und(self, rule, where, detail):
        self.obs.append(('undecided', rule, where, detail))

    def need(self, cond, rule, where, detail):
        (self.ok if cond else self.bad)(rule, where, detail)
        return cond

    def equal(self, rule, where, got, want, guard=TRUE, hints=None, label=''):
        """obligation: the two values are the same function of the inputs (under guard)"""
        guard = band(guard, self.guard)
        if not same(got, want):
            ps = text_parts(got, want)
            if ps:
                return all([self.equal(rule, where, x, y, guard, hints, '%s, part %d' % (label, i)) for i, (x, y) in enumerate(ps)])
        if guard is not TRUE:
            got, want = restrict(got, guard), restrict(want, guard)
        if same(got, want):
            self.ok(rule, where, label)
            return True
        if guard is not TRUE and band(guard, alg_diff(got, want)) is FALSE:
            self.ok(rule, where, label)
            return True
        if alg.same_lin(got, want, guard):
            self.ok(rule, where, label)
            return True
        if poisoned(got) or poisoned(want):
            # a difference is only claimed where neither side contains an unknown
            d = self.clean_diff(got, want, guard, hints)
            if d is None:
                self.und(rule, where, '%s: value not representable: got %s' % (label, short(got)))
                return False
        else:
            d = alg.differ(got, want, guard, 400 if self.tier == 'quick' else 4000, hints or self.hints, self.seed)
        if d is None:
            self.und(rule, where, '%s: normal forms differ but no differing valuation: got %s want %s' % (label, short(got), short(want)))
            return False
        self.bad(rule, where, '%s\n    value computed : %s\n    value required : %s\n    e.g. %s vs %s' %
                 (label, short(got), short(want), d[1], d[2]))
        return False

    def clean_diff(self, got, want, guard, hints):
        """look for a valuation whose selected leaves and conditions are free of unknowns"""
        for k in range(400):
            env = alg.Env(self.seed * 7919 + k, hints or self.hints)
            try:
                if guard is not TRUE and not clean_eval(env, guard)[1]:
                    continue
                a, x = clean_eval(env, got)
                b, y = clean_eval(env, want)
            except (ValueError, OverflowError, ZeroDivisionError, Unclean):
                continue
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if math.isnan(x) or math.isnan(y) or (math.isinf(x) and math.isinf(y)):
                    continue
                if math.isinf(x) != math.isinf(y) or abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                    return env, x, y
            elif x != y:
                return env, x, y
        return None

    # ---------------------------------------------------------------- running
    def machine(self, prog, opaque=(), hooks=None, **kw):
        m = Machine(prog, opaque=opaque, hooks=hooks, **kw)
        m.check = self
        return m

    def finish(self):
        """write the evidence, print the verdict, return the exit code"""
        known = load_known(self.pid)
        bad = [o for o in self.obs if o[0] == 'bad']
        und = [o for o in self.obs if o[0] == 'undecided']
        okn = [o for o in self.obs if o[0] == 'ok']
        rc = 0
        unlisted = []
        for o in bad:
            hit = next((k for k in known if k[0] in o[1] and k[1] in str(o[2]) + ' ' + str(o[3])), None)
            if hit:
                print('KNOWN-FINDING: property=%s %s %s' % (self.pid, hit[0], hit[2]))
            else:
                unlisted.append(o)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        replays = []
        for o in unlisted:
            h = hashlib.sha1(repr((o[1], str(o[2]))).encode()).hexdigest()[:10]
            p = os.path.join(VERIF, 'evidence', 'replay-%s-%s.txt' % (self.pid, h))
            with open(p, 'w') as f:
                f.write('property %s\nrule     %s\nat       %s\n%s\n' % (self.pid, o[1], o[2], o[3]))
                f.write('re-run   python3 %s/check.py %s %s\n' % (VERIF, self.pid, self.tier))
            replays.append(p)
            print('%s: %s at %s\n    %s' % (self.pid, o[1], o[2], o[3]))
            rc = 1
        if rc:
            print('VIOLATION property=%s replay=%s' % (self.pid, replays[0]))
        for o in und:
            print('UNDECIDED %s: %s at %s %s' % (self.pid, o[1], o[2], o[3][:600]))
        rules = {}
        for o in self.obs:
            rules.setdefault(o[1], {'ok': 0, 'bad': 0, 'undecided': 0})[o[0]] += 1
        cov = {'kind': 'other'}
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': META_LEVEL.get(self.pid, 'other'),
            'coverage': {
                'explanation': 'Static analysis of the current source of %s: %d obligations over %d functions; %d discharged, '
                               '%d violated, %d undecided.' % (REPO, len(self.obs), len(self.functions), len(okn), len(bad), len(und)),
                'functions_analysed': sorted(self.functions),
                'obligations': len(self.obs), 'discharged': len(okn), 'violated': len(bad),
                'undecided': [(o[1], str(o[2]), o[3][:300]) for o in und],
                'rules': rules,
                'sites': sorted({'%s @ %s' % (o[1], o[2]) for o in self.obs})[:400],
                'notes': self.notes[:50],
            },
            'wall_s': round(time.time() - self.t0, 2),
            'assumptions': ASSUME,
        }
        if unlisted:
            ev['violations'] = len(unlisted)
            ev['coverage']['violated_obligations'] = [{'rule': o[1], 'where': str(o[2]), 'detail': o[3][:2000], 'replay': r} for o, r in zip(unlisted, replays)]
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided, %.1f s' %
              (self.pid, len(self.obs), len(okn), len(bad), len(und), time.time() - self.t0))
        return rc


META_LEVEL = {}
ASSUME = ['real arithmetic (rounding is not modelled)', 'library models in sa/models.py',
          'absent TRNG is represented by interface stubs']


class Unclean(Exception):
    pass


def clean_eval(env, n):
    while n.c is not None:
        if poisoned(n.c.L):
            raise Unclean()
        n = n.hi if env.c(n.c) else n.lo
    if poisoned(n):
        raise Unclean()
    return n, env.n(n)


def alg_diff(a, b):
    """boolean normal form of 'a and b have different leaves'"""
    return alg.apply('diff', lambda x, y: FALSE if x is y or (isinstance(x, P) and isinstance(y, P) and alg.pzero(alg.padd(x, y, -1))) else TRUE, a, b)


def text_parts(a, b):
    """texts with the same fixed characters everywhere: the pairs of their variable parts"""
    la = [x for n in (a, b) if isinstance(n, N) for x in alg.leafset(n)]
    if len(la) < 2 or any(not isinstance(x, S) for x in la):
        return None
    form = {tuple(x[1] if x[0] == 'l' else None for x in s.parts) for s in la}
    if len(form) != 1 or len(la[0].parts) < 2:
        return None
    pick = lambda n, i: alg.mapleaves(n, lambda s: s.parts[i][1] if isinstance(s.parts[i][1], N) else leaf(s.parts[i][1]))
    return [(pick(a, i), pick(b, i)) for i, x in enumerate(la[0].parts) if x[0] == 'n']


def short(n, k=700):
    s = alg.show(n) if isinstance(n, N) else str(n)
    return s if len(s) <= k else s[:k] + '...'


def load_known(pid):
    """lines: 'finding: property=<id> rule=<rule> site=<substring> :: what fails'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                head, _, what = l.partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                out.append((d['rule'], d['site'].replace('%20', ' '), what))
    return out


# --------------------------------------------------------------------------- refinement against a reference function
THIS = leaf(Ref((('this',),)))


def A(i):
    return leaf(Ref((('A', i),)))


def extloc(loc):
    h = loc[0]
    return isinstance(h, tuple) and h[0] not in ('L', 'H', 'X', 'R', 'Y') and not (h[0] == 'N')


_fr = [0]


def freshen(loc, q, guard):
    """replace the quantified iterations of a stored location by free symbols"""
    sub = {}
    for it, T in q:
        _fr[0] += 1
        h = atom('ix', (len(sub), ), 'i')
        sub[it] = pa(h)
    for it, v in sub.items():
        loc = alg._subst_loc(loc, it, leaf(v))
    g = guard
    for it, T in q:
        if T is None:
            g = band(g, alg.le(num(0), leaf(sub[it])))
            continue
        t = leaf(T) if isinstance(T, P) else T
        for it2, v2 in sub.items():
            t = alg.subst(t, it2, leaf(v2))
        x = leaf(sub[it])
        g = band(g, band(alg.le(num(0), x), alg.lt(x, t)))
    return loc, g


def where(f, line=None):
    return '%s (%s:%s)' % (f['q'], f['F'].replace(REPO + '/', ''), line or f['line'])


def val_kind(v):
    for x in leafset(v) if isinstance(v, N) else ():
        pass
    return None


def kind_of_value(v):
    """a load kind able to read this stored value"""
    for x in alg.leafset(v):
        if isinstance(x, P):
            return ('r',)
        if isinstance(x, S):
            return ('str',)
        if isinstance(x, Ref) or x is NULL:
            return ('p', 'x')
        return ('o',)
    return ('r',)


def outputs(m, keep=extloc):
    """{(loc, guard)}: external locations stored to by the run, with quantified iterations freed"""
    out = {}
    for e in m.log:
        if not keep(e.loc) or e.kind == 'hint':
            continue
        if e.kind != 'w':
            out.setdefault((e.loc, None), e)
            continue
        loc, g = freshen(e.loc, e.q, TRUE)
        out[(loc, g)] = e
    return out


def entry_kind(m, e):
    k = m.kinds.get(interp.shape(e.loc))
    if k and k[0] in ('r', 'i', 'b', 'p', 'str'):
        return k
    last = e.loc[-1]
    if last == '#size':
        return ('i',)
    return kind_of_value(e.val)


class Run:
    """one analysed entry function"""

    def __init__(self, chk, prog, f, this=THIS, args=None, addrs=None, opaque=(), hooks=None, facts=TRUE, pre=None, pure=None, clobber=(),
                 append=(), keep=()):
        self.f, self.prog, self.chk = f, prog, chk
        m = self.m = chk.machine(prog, opaque, hooks, pure=pure, clobber=clobber, append=append, keep=keep)
        m.facts = facts
        chk.functions.add(where(f))
        self.fr = None
        self.err = None
        if pre:
            pre(m)
        try:
            self.fr = m.run(f, this, args, addrs)
        except Undecided as u:
            self.err = str(u)
        for q in m.inlined:
            chk.functions.add(q if isinstance(q, str) else str(q))

    def ret(self):
        """returned value as one predicated value (scalars) or the address it lives at"""
        return ret_value(self.m, self.fr)

    def read(self, loc, k):
        return self.m.read(loc, k)

    def at(self, *loc, k=('r',)):
        return self.m.read(tuple(x if isinstance(x, (tuple, str, P)) else pc(x) for x in loc), k)


def ret_value(m, fr):
    return m.result(fr, None)


def flat(m, v, t=None):
    """list of comparable components of an argument / returned value"""
    if isinstance(v, N):
        return [v]
    if isinstance(v, interp.LV):
        return [v.ref]
    if isinstance(v, interp.Mat):
        return list(v.e)
    if isinstance(v, interp.EV):
        return list(m.mat_load(v).e)
    if isinstance(v, interp.Obj):
        return [v.ref]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(m, x)]
    return [leaf(Ob('val', str(v)))]


class Reroot:
    """rename the objects allocated by the reference run to the corresponding objects of the analysed run"""

    def __init__(self):
        self.corr = {}     # head in spec run -> head in analysed run
        self.memo = {}

    def link(self, h2, h1):
        if h2 in self.corr:
            return False
        self.corr[h2] = h1
        self.memo.clear()
        return True

    def head(self, h):
        if isinstance(h, tuple) and h and h[0] in ('H', 'L', 'R') and not isinstance(h[0], P):
            r = self.corr.get(h)
            if r is not None:
                return r
            return (h[0], '#2') + tuple(h[1:])
        return None

    def any(self, x):
        if isinstance(x, N):
            return self.n(x)
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, alg.Atom):
            return self.atom(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                h = self.head(x)
                if h is not None:
                    return h
            return tuple(self.any(y) for y in x)
        if isinstance(x, Ref):
            return Ref(self.any(x.loc))
        if isinstance(x, S):
            return S(tuple((k, self.any(y)) if k == 'n' else (k, y) for k, y in x.parts))
        if isinstance(x, Ob):
            return Ob(*[self.any(y) for y in x.key])
        return x

    def p(self, p):
        k = ('p', p.id)
        r = self.memo.get(k)
        if r is None:
            if all(self.atom(alg._alist[i]) is alg._alist[i] for m in p.d for i, e in m):
                r = p
            else:
                r = alg.P0
                for m, co in p.d.items():
                    t = pc(co)
                    for i, e in m:
                        t = alg.pmul(t, alg.mkp({((self.atom(alg._alist[i]).id, e),): alg.Fraction(1)}))
                    r = alg.padd(r, t)
            self.memo[k] = r
        return r

    def atom(self, A):
        k = ('a', A.id)
        r = self.memo.get(k)
        if r is None:
            args = tuple(self.any(x) for x in A.args)
            r = A if args == A.args else atom(A.name, args, A.typ)
            self.memo[k] = r
        return r

    def n(self, n):
        k = ('n', n.id)
        r = self.memo.get(k)
        if r is None:
            if n.c is None:
                v = self.any(n.v)
                r = n if v is n.v else leaf(v)
            else:
                hi, lo, c = self.n(n.hi), self.n(n.lo), n.c
                if c.kind == 'b':
                    b = alg.boolatom(self.atom(c.L))
                else:
                    L = self.p(c.L)
                    if L is c.L:
                        b = None
                    elif c.kind == 'eq':
                        b = alg.eq(leaf(L), FALSE)
                    else:
                        b = alg.lt(leaf(L), leaf(pc(c.k))) if c.ns == 0 else alg.le(leaf(L), leaf(pc(c.k)))
                r = alg.iteC(c, hi, lo) if b is None else alg.ite(b, hi, lo)
            self.memo[k] = r
        return r


def internal(loc):
    h = loc[0]
    return isinstance(h, tuple) and h[0] in ('H', 'L', 'R')


def joined(evs):
    """consecutive pieces of text written to the same file in the same loop are one piece of text"""
    out = []
    for e in evs:
        if e.g is FALSE:
            continue
        p = out[-1] if out else None
        if p is not None and e.name == p.name == '<<' and len(e.loops) == len(p.loops) and \
                all(x[0] is y[0] for x, y in zip(e.loops, p.loops)) and rule_same(e.args[0], p.args[0]):
            q = copy.copy(p)
            if e.g is p.g:
                q.args = [p.args[0], cat(p.args[1], e.args[1])]
            else:
                none = leaf(S(()))
                q.args = [p.args[0], cat(alg.ite(p.g, p.args[1], none), alg.ite(e.g, e.args[1], none))]
                q.g = bor(p.g, e.g)
                q.args = [q.args[0], restrict(q.args[1], q.g)]
            out[-1] = q
        else:
            out.append(e)
    return out


def rule_same(a, b):
    return a is b


class Compare:
    """structural comparison of two finished runs: external state, objects reachable from it, events, result"""

    def __init__(self, chk, rule, run, spec, guard=TRUE, hints=None, ignore=(), extra=None):
        self.chk, self.rule, self.run, self.spec = chk, rule, run, spec
        self.m1, self.m2 = run.m, spec.m
        self.guard, self.hints, self.ignore = guard, hints, set(ignore)
        self.rr = Reroot()
        self.pairs = []
        self.w = where(run.f)
        self.extra = extra or {}
        self.byroot1, self.byroot2 = self.group(self.m1), self.group(self.m2)
        self.queue = []
        self.seen = set()
        self.lazy, self.evpairs = [], []
        self.filled = set()    # local containers filled by the appends compared

    def group(self, m):
        g = {}
        for e in m.log:
            if internal(e.loc):
                g.setdefault(e.loc[0], []).append(e)
        return g

    def add(self, a, b, g, label):
        """a (analysed), b (reference, not yet renamed)"""
        la, lb = a, b
        if isinstance(a, N) and isinstance(b, N):
            ra = [(x.loc[0], x) for x in alg.leafset(a) if isinstance(x, Ref) and internal(x.loc)]
            rb = [(x.loc[0], x) for x in alg.leafset(b) if isinstance(x, Ref) and internal(x.loc)]
            if ra and rb:
                self.match(ra, rb)
        self.pairs.append((a, b, g, label))

    def match(self, ra, rb):
        ha, hb = [], []
        for h, _ in ra:
            if h not in ha:
                ha.append(h)
        for h, _ in rb:
            if h not in hb:
                hb.append(h)
        hb = [h for h in hb if h not in self.rr.corr]
        used = set(self.rr.corr.values())
        ha = [h for h in ha if h not in used]
        ha.sort(key=lambda h: str(h[1]).zfill(8) if h[0] != 'L' else str(h[2]).zfill(8))
        hb.sort(key=lambda h: str(h[1]).zfill(8) if h[0] != 'L' else str(h[2]).zfill(8))
        for x, y in zip(ha, hb):
            if self.rr.link(y, x):
                self.queue.append((x, y))

    def state(self, only=None, outs=None):
        o1 = outputs(self.m1) if outs is None else outs[0]
        o2 = outputs(self.m2) if outs is None else outs[1]
        self.cmp_outputs(o1, o2, only)

    def cmp_outputs(self, o1, o2, only, ren=False):
        """o2 locations already renamed into the analysed run's names when ren"""
        done = set()
        blocks = []
        for which, o in ((2, o2), (1, o1)):
            for (loc, g), e in o.items():
                key = (self.rr.any(loc), g) if which == 2 and ren else (loc, g)
                if key in done:
                    continue
                done.add(key)
                if e.kind != 'w':
                    blocks.append((which, loc, e))
                    continue
                names = [x for x in loc if isinstance(x, str)]
                if any(isinstance(x, tuple) and x[0] == '@view' for x in loc):
                    continue    # bookkeeping of a view; its elements are those of the vector
                if any(x in self.ignore for x in names) or loc[0] in self.ignore:
                    continue
                if only is not None and not only(loc):
                    continue
                k = entry_kind(self.m2 if which == 2 else self.m1, e)
                l1, l2 = (loc, loc) if not ren else (self.rr.any(loc), loc) if which == 2 else (loc, self.back(loc))
                try:
                    a, b = self.m1.read(l1, k), self.m2.read(l2, k)
                except Undecided as u:
                    self.chk.und(self.rule, self.w, 'reading %s: %s' % (alg.show_loc(loc), u))
                    continue
                if len(l1) > 1 and l1[-2] == '$v' and isinstance(l1[-1], alg.P):
                    # a vector has only the entries of its map
                    mp = self.m1.read(l1[:-2] + ('#map',), ('p', ''))
                    if mp.c is None and isinstance(mp.v, Ref):
                        g = band(g, alg.lt(leaf(l1[-1]), self.m1.read(mp.v.loc + ('#nloc',), ('i',))))
                self.add(a, b, g, 'final value of ' + alg.show_loc(l1))
        for which, loc, e in blocks:
            if any(x in self.ignore for x in loc if isinstance(x, str)) or loc[0] in self.ignore:
                continue
            if only is not None and not only(loc):
                continue
            self.block(loc, which, e, ren, only)

    def block(self, loc, which, e, ren, only):
        """a whole object stored at once: compare its scalars"""
        m = self.m2 if which == 2 else self.m1
        mine = loc if which == 1 or not ren else self.rr.any(loc)
        loc, g = freshen(mine, e.q, TRUE)
        paths = {}
        bound = {}
        t = e.t
        if e.kind == 'havoc':
            other = self.m1 if which == 2 else self.m2
            if not any(x.kind == 'havoc' and (self.rr.any(x.loc) if which == 1 else x.loc) == mine and x.val == e.val for x in other.log):
                self.chk.und(self.rule, self.w, 'effect %s on %s is on one side only' % (e.val[0][1], alg.show_loc(loc)))
            return
        if t is None and e.kind == 'copy':
            t = next((x.t for x in (self.m1.log if which == 2 else self.m2.log) if x.loc == e.loc and x.t), None)
        if t is not None:
            for p, k in m.leaves_of(t):
                paths[p] = k
        elif e.kind == 'copy':
            n = len(e.src)
            for x in m.log:
                if x.kind == 'w' and len(x.loc) > n and x.loc[:n] == e.src:
                    if x.q:
                        if len(x.loc) != n + 1 or not isinstance(x.loc[n], alg.P):
                            self.chk.und(self.rule, self.w, 'copy of %s has unknown elements' % alg.show_loc(loc))
                            return
                        # any element of an array
                        ix = pa(atom('ix', (len(e.q),), 'i'))
                        paths[(ix,)] = entry_kind(m, x)
                        bound[(ix,)] = ix
                        paths[('#size',)] = ('i',)
                        continue
                    paths[x.loc[n:]] = entry_kind(m, x)
        if not paths and t is not None and m.prog.kind(t)[0] == 'vec':
            paths[('#size',)] = ('i',)
            ix = pa(atom('ix', (len(e.q),), 'i'))
            for p, k in m.leaves_of(m.prog.kind(t)[1], (ix,)):
                paths[p] = k
                bound[p] = ix
        if not paths:
            if e.kind != 'zero':
                self.chk.und(self.rule, self.w, 'block %s of %s has no known fields' % (e.kind, alg.show_loc(loc)))
            return
        for p, k in paths.items():
            l1 = loc + p
            if any(x in self.ignore for x in l1 if isinstance(x, str)) or (l1, 'blk') in self.seen:
                continue
            self.seen.add((l1, 'blk'))
            try:
                a, b = self.m1.read(l1, k), self.m2.read(self.back(l1) if ren else l1, k)
            except Undecided as u:
                self.chk.und(self.rule, self.w, 'reading %s: %s' % (alg.show_loc(l1), u))
                continue
            gg = g
            if p in bound:
                gg = band(g, alg.lt(leaf(bound[p]), self.m1.read(loc + ('#size',), ('i',))))
            self.add(a, b, gg, 'final value of ' + alg.show_loc(l1))

    def back(self, loc):
        inv = {v: k for k, v in self.rr.corr.items()}
        return tuple(inv.get(x, x) if isinstance(x, tuple) else x for x in loc)

    def contents(self, limit=400):
        """compare the contents of every pair of corresponding internal objects"""
        n = 0
        while self.queue and n < limit:
            h1, h2 = self.queue.pop(0)
            n += 1
            keep1 = lambda loc, h=h1: loc[0] == h
            keep2 = lambda loc, h=h2: loc[0] == h
            self.cmp_outputs(outputs(self.m1, keep1), outputs(self.m2, keep2), None, ren=True)

    def events(self, pred, args=None):
        """the same observable calls, under the same conditions, in the same order, with equal arguments"""
        rn = {}
        c1, c2 = [self.canon(joined([e for e in m.events if pred(e)])) for m in (self.m1, self.m2)]
        n1, n2 = [g[0].name for g in c1], [g[0].name for g in c2]
        if sorted(n1) != sorted(n2):
            lack = [x for x in n2 if n2.count(x) > n1.count(x)]
            extra = [x for x in n1 if n1.count(x) > n2.count(x)]
            if set(lack) - set(n1) or set(extra) - set(n2) or len(n1) == len(set(n1)):
                self.chk.bad(self.rule, self.w, 'calls made: %s; required: %s' % (n1, n2))
            elif any(self.count(c1, x) is not None and self.count(c2, x) is not None and self.count(c1, x) != self.count(c2, x)
                     for x in set(lack + extra)):
                self.chk.bad(self.rule, self.w, 'calls made: %s; required: %s' % (n1, n2))
            else:
                self.chk.und(self.rule, self.w, 'calls made: %s; reference: %s' % (n1, n2))
            return
        # correspondence: the k-th group of a name
        seen = {}
        pairs = []
        for g in c2:
            k = seen.get(g[0].name, 0)
            seen[g[0].name] = k + 1
            pairs.append(([x for x in c1 if x[0].name == g[0].name][k], g))
        pos = {id(g): i for i, g in enumerate(c1)}
        for i in range(len(pairs)):
            for j in range(i + 1, len(pairs)):
                (a, ga), (b, gb) = pairs[i], pairs[j]
                if pos[id(a)] > pos[id(b)] and self.overlap(ga, gb) and self.overlap(a, b):
                    self.chk.bad(self.rule, self.w, '%s (line %s) happens before %s (line %s), required the other way round' %
                                 (b[0].name, b[0].line[1], a[0].name, a[0].line[1]))
        for ga, gb in pairs:
            self.pair_events(ga, gb, args)

    @staticmethod
    def count(groups, name):
        """number of calls when none of them is conditional or in a loop"""
        n = 0
        for g in groups:
            if g[0].name == name:
                if len(g) != 1 or g[0].g is not TRUE or g[0].loops:
                    return None
                n += 1
        return n

    @staticmethod
    def overlap(a, b):
        return any(band(x.g, y.g) is not FALSE for x in a for y in b)

    def canon(self, evs):
        """calls to the same function in the same loop nest under mutually exclusive conditions form one group"""
        groups = []
        for e in evs:
            if e.g is FALSE:
                continue
            for g in groups:
                if g[0].name != e.name or len(g[0].loops) != len(e.loops) or len(g[0].args) != len(e.args):
                    continue
                if all(self.loopeq(g[0], x, y) for x, y in zip(g[0].loops, e.loops)) and \
                        all(band(x.g, self.reloop(e, g[0], e.g)) is FALSE for x in g):
                    g.append(e)
                    break
            else:
                groups.append([e])
        return groups

    @staticmethod
    def loopeq(a, x, y):
        return x[0] is y[0] or (x[1] is not None and y[1] is not None and x[1] is y[1])

    @staticmethod
    def reloop(e, to, v, rr=None):
        """express a value of event e with the iterations of the event `to`"""
        if not isinstance(v, N):
            return v
        if rr:
            v = rr.n(v)
        for (x, _), (y, _) in zip(e.loops, to.loops):
            if x is not y:
                v = alg.subst(v, x, leaf(pa(y)))
        return v

    def pair_events(self, ga, gb, args):
        a, b = ga[0], gb[0]
        w = '%s at line %s' % (a.name, a.line[1])
        if len(a.loops) != len(b.loops):
            self.chk.bad(self.rule, self.w, '%s executed in %d nested loops, required %d' % (w, len(a.loops), len(b.loops)))
            return
        for k, ((x, X), (y, Y)) in enumerate(zip(a.loops, b.loops)):
            if X is not None and Y is not None:
                self.later(leaf(X) if isinstance(X, P) else X, leaf(Y) if isinstance(Y, P) else Y, TRUE, b, a, 'number of repetitions of ' + w)
        g1 = FALSE
        for e in ga:
            g1 = bor(g1, self.reloop(e, a, e.g))
        if a.name == 'append':
            for x, y in zip(ga, gb):
                hx, hy = self.localroot(x.recv), self.localroot(y.recv)
                if hx and hy and hx not in self.filled:
                    self.rr.link(hy, hx)
                    self.filled.add(hx)
        self.lazy.append((ga, gb, args, w, g1))
        for e1 in ga:
            for e2 in gb:
                if len(ga) == len(gb) == 1 or band(self.reloop(e1, a, e1.g), self.reloop(e2, a, e2.g)) is not FALSE:
                    if e1.ret is not None and e2.ret is not None:
                        self.rr.link(e2.ret[0], e1.ret[0])
                    for x, y in zip(e1.args, e2.args):
                        for u, v in zip(flat(self.m1, x), flat(self.m2, y)):
                            self.heads(u, v)

    def heads(self, a, b):
        if isinstance(a, N) and isinstance(b, N):
            ra = [(x.loc[0], x) for x in alg.leafset(a) if isinstance(x, Ref) and internal(x.loc) and x.loc[0][0] != 'L']
            rb = [(x.loc[0], x) for x in alg.leafset(b) if isinstance(x, Ref) and internal(x.loc) and x.loc[0][0] != 'L']
            if ra and rb:
                self.match(ra, rb)

    @staticmethod
    def localroot(v):
        v = v.ref if hasattr(v, 'ref') else v
        if isinstance(v, N) and v.c is None and isinstance(v.v, Ref) and len(v.v.loc) == 1 and v.v.loc[0][0] == 'L':
            return v.v.loc[0]
        return None

    def specified(self, want):
        """when the reference gives a value at all (it leaves its never assigned variables open)"""
        g = TRUE
        if isinstance(want, N) and any(iomodel.fresh(x, self.filled) for x in alg.leafset(want)):
            for x, c in alg.leaves(want):
                if iomodel.fresh(x, self.filled):
                    g = band(g, bnot(c))
        return g

    def later(self, x, y, g, b, a, label):
        self.evpairs.append((x, y, g, b, a, label))

    def finish_events(self):
        for ga, gb, args, w, g1 in self.lazy:
            a = ga[0]
            g2 = FALSE
            for e in gb:
                g2 = bor(g2, self.reloop(e, a, e.g, self.rr))
            lp = self.loopfacts(a)
            self.chk.equal(self.rule, self.w, g1, g2, band(self.guard, lp), self.hints, 'condition of ' + w)
            for i in range(-1, len(a.args)):
                if i >= 0 and args is not None and not args(a, i):
                    continue
                u, v = self.joined(ga, a, i, self.m1), self.joined(gb, a, i, self.m2, self.rr)
                if u is None or v is None:
                    continue
                if len(u) != len(v):
                    self.chk.und(self.rule, self.w, 'shape of argument %d of %s' % (i, w))
                    continue
                for x, y in zip(u, v):
                    if all(isinstance(z, Ref) and z.loc[0][0] == 'L' for n in (x, y) for z in alg.leafset(n)):
                        continue    # which local object is handed over is not observable
                    self.chk.equal(self.rule, self.w, x, y, band(band(band(self.guard, lp), g1), self.specified(y)), self.hints,
                                   ('argument %d of ' % i if i >= 0 else 'receiver of ') + w)
        for x, y, g, b, a, label in self.evpairs:
            self.chk.equal(self.rule, self.w, x, self.reloop(b, a, y, self.rr), band(self.guard, g), self.hints, label)

    def loopfacts(self, a):
        g = TRUE
        for it, T in a.loops:
            x = leaf(pa(it))
            g = band(g, alg.le(num(0), x))
            if T is not None:
                g = band(g, alg.lt(x, leaf(T) if isinstance(T, P) else T))
        return g

    def joined(self, grp, a, i, m, rr=None):
        out = None
        for e in reversed(grp):
            x = e.recv if i < 0 else e.args[i] if i < len(e.args) else None
            if x is None:
                return None
            f = [self.reloop(e, a, z, rr) for z in flat(m, x)]
            if out is None:
                out = f
            else:
                g = self.reloop(e, a, e.g, rr)
                out = [alg.ite(g, y, z) for y, z in zip(f, out)]
        return out

    def returns(self):
        r1, r2 = self.run.ret(), self.spec.ret()
        if r1 is None and r2 is None:
            return
        if r1 is None or r2 is None:
            self.chk.und(self.rule, self.w, 'return shape')
            return
        x1, x2 = flat(self.m1, r1), flat(self.m2, r2)
        if len(x1) != len(x2):
            self.chk.und(self.rule, self.w, 'return shape')
            return
        for i, (a, b) in enumerate(zip(x1, x2)):
            self.add(a, b, TRUE, 'result[%d]' % i if len(x1) > 1 else 'result')

    def finish(self):
        self.contents()
        for a, b, g, label in self.pairs:
            gg = band(self.guard, g) if g is not None else self.guard
            b = self.rr.n(b)
            self.chk.equal(self.rule, self.w, a, b, band(gg, self.specified(b)), self.hints, label)
        self.finish_events()


ABORT = ('exit', 'std::exit', 'abort', 'std::abort', 'MPI_Abort', 'std::terminate')


def refine(chk, rule, run, spec, ignore=(), only=None, guard=TRUE, events=None, hints=None, rets=True, state=True, evargs=None,
           aborts=False):
    """obligations: `run` leaves the same observable state and result as the reference `spec`"""
    w = where(run.f)
    for r in (run, spec):
        if r.err:
            chk.und(rule, w, 'not analysable (%s): %s' % (r.f['q'], r.err))
            return
    if aborts:
        # the program stops under the same condition; what it computes matters only where it does not stop
        x = []
        for r in (run, spec):
            a = FALSE
            for e in r.m.events:
                if e.name in ABORT and not e.loops:
                    a = bor(a, e.g)
            x.append(a)
        chk.equal(rule, w, x[0], x[1], guard, hints, 'condition of giving up')
        guard = band(guard, bnot(x[0]))
    c = Compare(chk, rule, run, spec, guard, hints, ignore)
    if state:
        c.state(only)
    if events:
        c.events(events, evargs)
    if rets:
        c.returns()
    c.finish()


def conforms(chk, prog, q, spec, rule=None, nparams=None, pred=None, this=True, opaque=(), facts=None, spec_opaque=None, pre=None,
             specpre=None, pure=None, clobber=(), append=(), keep=(), **kw):
    """the function q behaves as the reference function spec::<spec> (whose parameters are the object, then q's parameters)"""
    if chk.subset is not None:
        if q not in chk.subset:
            return
        chk.taken.add(q)
    f = prog.find(q, nparams, pred)
    s = prog.find('spec::' + spec)
    member = f.get('cls') is not None and not f.get('static') and not f.get('ctor') or (f.get('ctor'))
    vals = ([THIS] if member else []) + [A(i) for i in range(len(f['params']))]
    if len(vals) != len(s['params']):
        chk.und(rule or 'conforms', where(f), 'the parameter list changed: %d parameters, reference has %d' % (len(vals), len(s['params'])))
        return None
    for i, q_ in enumerate(f['params']):
        t = f['T'][q_['t']].replace('const ', '').rstrip(' &')
        if t.startswith('unsigned') or t in ('size_t', 'std::size_t'):
            alg._nnm[alg.atom('rd', (('A', i),), 'i').id] = True
    if append:
        ev = kw.get('events')
        kw['events'] = (lambda e: e.name == 'append' or ev(e)) if ev else lambda e: e.name == 'append'
    fa = TRUE
    if facts is not None:
        fa = facts(alg) if callable(facts) else facts
    run = Run(chk, prog, f, THIS if member else None, opaque=opaque, facts=fa, pre=pre, pure=pure, clobber=clobber,
              append=append, keep=keep)
    ref = Run(chk, prog, s, None, addrs=dict(enumerate(vals)), opaque=spec_opaque if spec_opaque is not None else opaque, facts=fa,
              pre=specpre or pre, pure=pure, clobber=clobber, append=append, keep=keep)
    chk.functions.discard(where(s))
    refine(chk, rule or 'conforms', run, ref, **kw)
    return run, ref
