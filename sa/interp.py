"""Gated-SSA abstract interpreter over the extracted AST.

One forward pass per function: every store is recorded in a log under its path condition, reads are
resolved against the log (reaching definitions with exact index matching), merges keep one
predicated value per location, and loops are summarised by closed forms found by a fixpoint over
the loop-carried locations.  There is no path enumeration and no solver.
"""
import sys

import alg
from alg import (P, N, Ref, S, Ob, NULL, TRUE, FALSE, leaf, num, atom, pa, pc, padd, pscale, ite, band, bor, bnot,
                 apply, mapleaves, leafset, subst, restrict, Undecided, P0, P1, _alist)
from prog import tk, strip, isref, BrokenAnalysis, targs

sys.setrecursionlimit(100000)


class Mat:
    """dense Eigen value, elements row by row"""
    __slots__ = ('r', 'c', 'e', 'quat')

    def __init__(self, r, c, e, quat=False):
        self.r, self.c, self.e, self.quat = r, c, e, quat

    def at(self, i, j=0):
        return self.e[i * self.c + j]

    def T(self):
        return Mat(self.c, self.r, [self.at(i, j) for j in range(self.c) for i in range(self.r)])

    def map(self, f):
        return Mat(self.r, self.c, [f(x) for x in self.e], self.quat)


class EV:
    """Eigen lvalue: element references (N with Ref leaves), row by row"""
    __slots__ = ('r', 'c', 'refs', 'quat', 'base')

    def __init__(self, r, c, refs, quat=False, base=None):
        self.r, self.c, self.refs, self.quat, self.base = r, c, refs, quat, base


class Obj:
    """class typed value living at an address"""
    __slots__ = ('ref', 't')

    def __init__(self, ref, t=None):
        self.ref, self.t = ref, t


class Lam:
    __slots__ = ('fns', 'frame', 'caps')

    def __init__(self, fns, frame, caps):
        self.fns, self.frame, self.caps = fns, frame, caps


class Entry:
    __slots__ = ('loc', 'val', 'g', 'kind', 'q', 'seq', 'src', 'srcseq', 'inst', 't')
    # kind: 'w' write, 'copy' subtree copy, 'zero' zero fill subtree, 'havoc' subtree replaced by opaque base


class Event:
    __slots__ = ('name', 'recv', 'args', 'g', 'loops', 'seq', 'fn', 'line', 'ret', 'raw')

    def __repr__(self):
        return '%s(%s|%s) if %s loops %s @%s' % (self.name, self.recv, self.args, self.g, [(str(a), str(b)) for a, b in self.loops], self.line)


class Frame:
    def __init__(self, f, T, this, parent=None):
        self.f, self.T, self.this, self.parent = f, T, this, parent
        self.vars = {}
        self.rets = []
        self.loop = None
        self.no = 0
        self.depth = 0
        self.file = f.get('F', '') if isinstance(f, dict) else ''

    def lookup(self, i):
        fr = self
        while fr is not None:
            if i in fr.vars:
                return fr.vars[i]
            fr = fr.parent
        return None


def canon_entry(e):
    """location and guard of a write with the iterations of inner loops numbered"""
    loc, g = e.loc, e.g
    for k, (it, T) in enumerate(e.q):
        c = leaf(pa(atom('cit', (k,), 'i')))
        loc = alg._subst_loc(loc, it, c)
        g = subst(g, it, c)
    return loc, g.id


class PtrRetry(Exception):
    def __init__(self, key):
        self.key = key


class LoopCtx:
    def __init__(self):
        self.brk = FALSE
        self.cont = FALSE


class Loop:
    __slots__ = ('indc', 'it', 'T', 'seq0', 'carried', 'prev', 'final', 'closed', 'scan', 'node', 'generic', 'info', 'nopi', 'ci', 'heads')


_pz = [0]


def poison(why, typ='r'):
    _pz[0] += 1
    if typ in ('r', 'i'):
        return leaf(pa(atom('poison', (why, _pz[0]), typ)))
    if typ == 'b':
        return alg.boolatom(atom('poison', (why, _pz[0]), 'b'))
    return leaf(Ob('poison', why, _pz[0]))


def shape(loc):
    return tuple('*' if isinstance(x, P) else x for x in loc)


def free_its(loc):
    fr = set()
    for x in loc:
        f, _ = alg._argfree(x)
        fr |= f
    return fr


def bare(x):
    """statement without source positions"""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != 'p'}
    if isinstance(x, list):
        return [bare(v) for v in x]
    return x


def rotate_loops(b):
    """`B; while (c) B` is `do B while (c)`"""
    out = []
    for x in b:
        if x['k'] == 'While' and x.get('b') and not x.get('v'):
            body = x['b']['b'] if x['b']['k'] == 'Block' else [x['b']]
            n = len(body)
            if 0 < n <= len(out) and all(y['k'] == 'Expr' for y in body):
                got, want = bare(out[-n:]), bare(body)
                do = {'k': 'Do', 'b': x['b'], 'c': x['c'], 'p': x.get('p')}
                if got == want:
                    out[-n:] = [do]
                    continue
                d = got[0]['d'] if n == 1 and got[0]['k'] == 'Decl' and len(got[0]['d']) == 1 else None
                w = want[0]['e']
                if d and d[0].get('init') and w.get('k') == 'Asg' and w.get('op') == '=' and w['l'].get('id') == d[0]['id'] and w['r'] == d[0]['init']:
                    d0 = {k: v for k, v in out[-1]['d'][0].items() if k != 'init'}
                    out[-1:] = [dict(out[-1], d=[d0]), do]
                    continue
        out.append(x)
    return out


class Machine:
    def __init__(self, prog, opaque=(), hooks=None, inline_depth=14, pure=None, clobber=(), append=(), keep=()):
        self.clobber = set(clobber)
        self.append = tuple(append)
        self.keep = frozenset(keep)   # members the clobbering calls leave alone
        self.pure = pure or {}
        self.prog = prog
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.maxdepth = inline_depth
        self.log = []
        self.statics = {}   # function local statics, by order of appearance
        self.autocut = 0    # scalars of more terms are named when they are stored
        self.index = {}
        self.events = []
        self.loops = []
        self.pc = TRUE
        self.facts = TRUE
        self.strout = False
        self.ab = FALSE
        self.frames = 0
        self.heap = 0
        self.notes = []
        self.inlined = set()
        self.loopinfo = []
        self.rngcount = {}
        self.kinds = {}
        self.objtypes = {}
        self.steps = 0
        self.nounroll = False
        import models
        self.models = models

    # ------------------------------------------------------------------ snapshots
    def snap(self):
        return (len(self.log), len(self.events), self.pc, self.facts, self.ab, self.frames, self.heap, len(self.notes),
                len(self.loopinfo), dict(self.rngcount))

    def rollback(self, s):
        n = s[0]
        while len(self.log) > n:
            e = self.log.pop()
            self.index[shape(e.loc)].pop()
        del self.events[s[1]:]
        self.pc, self.facts, self.ab, self.frames, self.heap = s[2:7]
        del self.notes[s[7]:]
        del self.loopinfo[s[8]:]
        self.rngcount = dict(s[9])

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------------ memory
    def put(self, loc, val, g=None, kind='w', src=None, srcseq=None):
        e = Entry()
        e.loc, e.val, e.kind = loc, val, kind
        e.g = self.pc if g is None else g
        e.q = []
        e.inst = ()
        e.seq = len(self.log)
        e.src, e.srcseq = src, srcseq
        e.t = None
        self.log.append(e)
        self.index.setdefault(shape(loc), []).append(e.seq)
        return e

    def itidx(self):
        return tuple(pa(l.it) for l in self.loops if l.it is not None)

    def know(self, ref, k):
        """remember the kind of the scalar stored at ref"""
        for r in alg.leafset(ref):
            if isinstance(r, Ref):
                self.kinds[shape(r.loc)] = k

    def store(self, ref, val):
        """ref: N of Ref"""
        if self.pc is FALSE:
            return
        if self.autocut and isinstance(val, N):
            val = apply('cut%d' % self.autocut, lambda x: leaf(alg.cut(x)) if isinstance(x, P) and len(x.d) > self.autocut else leaf(x), val)
        if ref.c is None:
            self._store1(ref.v, val, self.pc)
        else:
            for v, g in alg.leaves(ref):
                gg = band(self.pc, g)
                if gg is not FALSE:
                    self._store1(v, restrict(val, g), gg)

    def _store1(self, r, val, g):
        if not isinstance(r, Ref):
            if isinstance(r, Ob) and r.key[0] == 'poison':
                raise Undecided('store through unknown pointer: %s' % (r,))
            raise Undecided('store to %s' % (r,))
        self.put(r.loc, val, g)

    def load(self, ref, t):
        """t: kind tuple; scalar load"""
        if ref.c is None:
            v = self._load1(ref.v, t)
        else:
            v = mapleaves(ref, lambda r: self._load1(r, t))
        if self.pc.c is not None:
            v = restrict(v, self.pc)
        if self.facts.c is not None:
            v = restrict(v, self.facts)
        return v

    def _load1(self, r, t):
        if not isinstance(r, Ref):
            if isinstance(r, Ob) and r.key[0] == 'poison':
                return poison('load through unknown pointer', self.typ(t))
            if r is NULL:
                return poison('null load', self.typ(t))
            raise Undecided('load from %s' % (r,))
        return self.read(r.loc, t)

    def typ(self, t):
        return {'r': 'r', 'i': 'i', 'b': 'b'}.get(t[0], 'o')

    def initial(self, loc, t):
        k = t[0]
        if k == 'r' or k == 'i':
            return leaf(pa(atom('rd', loc, k)))
        if k == 'b':
            return alg.boolatom(atom('rd', loc, 'b'))
        if k == 'p':
            b = loc[0]
            return leaf(Ref((('D', loc), P0))) if t[-1] == 'raw' else leaf(Ref((('D', loc),)))
        if k == 'str':
            return leaf(S((('n', leaf(Ref(loc))),)))
        return leaf(Ob('init', loc))

    def zero(self, t):
        k = t[0]
        if k in ('r', 'i', 'b'):
            return FALSE
        if k == 'p':
            return leaf(NULL)
        if k == 'str':
            return leaf(S(()))
        return leaf(Ob('zero'))

    def kpoison(self, why, key, typ):
        if typ in ('r', 'i'):
            return leaf(pa(atom('poison', (why,) + key, typ)))
        if typ == 'b':
            return alg.boolatom(atom('poison', (why,) + key, 'b'))
        return leaf(Ob('poison', why, *key))

    def cands(self, loc, hi):
        """sequence numbers (descending) of log entries that may affect loc"""
        sh = shape(loc)
        lists = []
        for i in range(1, len(sh) + 1):
            l = self.index.get(sh[:i])
            if l:
                lists.append(l)
        if not lists:
            return []
        if len(lists) == 1:
            l = lists[0]
            if hi is None or not l or l[-1] < hi:
                return l[::-1]
            return [x for x in reversed(l) if x < hi]
        out = [x for l in lists for x in l if hi is None or x < hi]
        out.sort(reverse=True)
        return out

    def read(self, loc, t, hi=None, env=None):
        """value at loc before log position hi; env: {it atom id: P} loops fixed to an iteration"""
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided('step limit')
        acc = []  # (cond, value)
        res = None
        heads = [l for l in self.loops if l.seq0 is not None and l.it is not None and (hi is None or l.seq0 < hi)] if not env else []
        hp = len(heads)
        for s in self.cands(loc, hi):
            while hp and s < heads[hp - 1].seq0:
                hp -= 1
                pv = self.prevread(heads[hp], loc, t)
                if pv is not None:
                    c, v = pv
                    if c is TRUE:
                        res = v
                        break
                    acc.append((c, v))
            if res is not None:
                break
            e = self.log[s]
            if e.kind == 'havoc' and self.keep and any(x in self.keep for x in loc[len(e.loc):] if isinstance(x, str)):
                continue
            if e.kind == 'hint':
                if e.loc == loc and e.g is TRUE and not e.q and not env:
                    res = e.val
                    break
                continue
            try:
                m = self.match(e, loc, env)
            except Undecided as u:
                v = self.memread(loc, t, s, env, heads)
                acc.append((TRUE, self.kpoison('alias', (loc, e.loc, s), self.typ(t)) if v is None else v))
                res = FALSE
                break
            if m is None:
                continue
            cond, sub, rest = m
            if cond is FALSE:
                continue
            g = e.g
            for at, v in sub:
                g = subst(g, at, leaf(v))
            cond = band(cond, g)
            if self.facts.c is not None:
                cond = restrict(cond, self.facts)
            if self.pc.c is not None:
                cond = restrict(cond, self.pc)
            if cond is FALSE:
                continue
            if e.kind == 'w':
                v = e.val
                if rest:
                    v = poison('sub-object of scalar', self.typ(t))
                for at, x in sub:
                    v = subst(v, at, leaf(x))
            elif e.kind == 'zero':
                v = self.zero(t)
            elif e.kind == 'fill':
                v = e.val
            elif e.kind == 'havoc':
                base = e.val
                for at, x in sub:
                    base = alg._subst_loc(base, at, leaf(x))
                v = self.initial(base + rest, t)
            else:
                env2 = dict(env or {})
                src = e.src
                for at, x in sub:
                    env2[at.id] = x
                    src = alg._subst_loc(src, at, leaf(x))
                v = self.read(src + rest, t, e.srcseq, env2 if env2 else None)
            acc.append((cond, v))
            if cond is TRUE:
                res = FALSE
                break
        if res is None:
            while hp:
                hp -= 1
                pv = self.prevread(heads[hp], loc, t)
                if pv is not None:
                    acc.append(pv)
                    if pv[0] is TRUE:
                        res = FALSE
                        break
        if res is None:
            r = self.initial(loc, t)
        elif acc and acc[-1][0] is TRUE:
            r = acc.pop()[1]
        else:
            r = res
        for c, v in reversed(acc):
            r = ite(c, v, r)
        return r

    def memread(self, loc, t, top, env, heads):
        """element of an array stored to at addresses that do not determine the iteration: the
        sequence of stores itself becomes the value"""
        typ = self.typ(t)
        if env or typ not in ('r', 'i', 'b'):
            return None
        sh = shape(loc)
        items = []
        before = None
        n = len(loc)
        for s in self.cands(loc, top + 1):
            e = self.log[s]
            if e.kind == 'hint':
                continue
            if len(e.loc) == n and shape(e.loc) == sh:
                if e.kind != 'w' or any(x not in ('r', 'i', 'b') for x in (self.valtype(e.val),)):
                    return None
                items.append(e)
                continue
            if len(e.loc) > n:
                return None
            try:
                m = self.match(e, loc, None)
            except Undecided:
                return None
            if m is None or m[0] is FALSE:
                continue
            if m[0] is not TRUE or m[1] or e.g is not TRUE or e.q:
                return None
            if e.kind == 'zero':
                before = self.zero(t)
            elif e.kind == 'fill':
                before = e.val
            elif e.kind == 'havoc':
                before = self.initial(e.val + m[2], t)
            else:
                return None
            break
        for L in heads:
            # stores of earlier iterations of a loop still running
            if L.seq0 <= top and any(shape(w.loc) == sh[:len(w.loc)] for w in L.prev):
                if before is None or not items or items[-1].seq < L.seq0:
                    return None
        if before is None:
            before = self.initial(loc, t)
        items.reverse()
        idx = lambda l: [leaf(x) for x in l if isinstance(x, P)]

        def build(es, d):
            out = []
            i = 0
            while i < len(es):
                e = es[i]
                if len(e.q) <= d:
                    out.append((alg.wr_(e.g, idx(e.loc), e.val), e.loc))
                    i += 1
                    continue
                it, T = e.q[-1 - d]
                j = i
                while j < len(es) and len(es[j].q) > d and es[j].q[-1 - d][0] is it:
                    j += 1
                if T is None:
                    raise Undecided('open loop')
                out.append((alg.rep_(leaf(T), it, alg.seq_(build(es[i:j], d + 1))), None))
                i = j
            # independent neighbours in a fixed order
            again = True
            while again:
                again = False
                for k in range(len(out) - 1):
                    (a, la), (b, lb) = out[k], out[k + 1]
                    if la is None or lb is None:
                        continue
                    df = [padd(x, y, -1).const() for x, y in zip(la, lb) if isinstance(x, P)]
                    if any(x is not None and x > 0 for x in df):
                        out[k], out[k + 1] = out[k + 1], out[k]
                        again = True
            return [x for x, l in out]
        try:
            return self.scalar(alg.mem_(build(items, 0), idx(loc), before, typ))
        except Undecided:
            return None

    @staticmethod
    def scalar(a):
        return alg.boolatom(a) if a.typ == 'b' else leaf(pa(a))

    def match(self, e, loc, env):
        """does entry e cover loc?  -> (condition, [(it, P)], remaining components) or None"""
        n = len(e.loc)
        rest = loc[n:]
        sub = []
        cond = TRUE
        el = e.loc
        qs = list(e.q)
        if env and qs:
            keep = []
            for it, T in qs:
                if it.id in env:
                    sub.append((it, env[it.id]))
                else:
                    keep.append((it, T))
            qs = keep
            for at, x in sub:
                el = alg._subst_loc(el, at, leaf(x))
        eqs = []
        for a, b in zip(el, loc):
            if isinstance(a, P):
                if a is not b:
                    d = padd(a, b, -1)
                    if d.d.get((), 0) > 0 and alg._nnp(d) or d.d.get((), 0) < 0 and alg._nnp(pscale(d, -1)):
                        return None
                    eqs.append((a, b))
            elif isinstance(a, tuple):
                if a != b:
                    u = self.unify_t(a, b, [q[0] for q in qs])
                    if u is None:
                        return None
                    eqs.extend(u)
        qvars = {it.id: (it, T) for it, T in qs}
        # solve for quantified iterations
        ranges = []
        for it, T in qs:
            sol = None
            for k, (a, b) in enumerate(eqs):
                a, b = self._ps(a, sub), b
                if it.id in a.free:
                    sol = self.solve(a, b, it)
                    if sol is not None:
                        eqs[k] = (a, b)
                        break
            if sol is None:
                # not determined by the address
                inloc = any(it.id in x.free for x in el if isinstance(x, P))
                if not inloc:
                    # same address in every iteration: the last one wins
                    if T is None:
                        return None
                    last = padd(self.pleaf(T), pc(1), -1)
                    sub.append((it, last))
                    cond = band(cond, alg.lt(FALSE, T))
                    continue
                # identical indices already (a is b for that component)
                same = False
                for a, b in zip(el, loc):
                    if isinstance(a, P) and it.id in a.free and a is b:
                        same = True
                if same:
                    # the location itself carries this iteration variable
                    continue
                raise Undecided('cannot match %s against %s' % (alg.show_loc(el), alg.show_loc(loc)))
            val, c2 = sol
            sub.append((it, val))
            cond = band(cond, c2)
            if T is not None:
                ranges.append((val, T))
            if cond is FALSE:
                return None
        # bounds of inner loops may depend on the iteration of outer ones
        for val, T in ranges:
            for at, x in sub:
                T = subst(T, at, leaf(x))
            cond = band(cond, band(alg.le(FALSE, leaf(val)), alg.lt(leaf(val), T)))
            if cond is FALSE:
                return None
        for a, b in eqs:
            a = self._ps(a, sub)
            if a is b:
                continue
            cond = band(cond, alg._eq_v(a, b))
            if cond is FALSE:
                return None
        return cond, sub, rest

    def unify_t(self, a, b, its):
        """structured base components that differ: equal skeleton with different indices"""
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            if x is y or (not isinstance(x, (P, tuple)) and x == y):
                continue
            if isinstance(x, P) and isinstance(y, P):
                out.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x == y:
                    continue
                u = self.unify_t(x, y, its)
                if u is None:
                    return None
                out.extend(u)
            else:
                return None
        return out

    def _ps(self, p, sub):
        for at, x in sub:
            if at.id in p.free:
                n = alg._subst_v(p, at, leaf(x))
                if n.c is not None:
                    raise Undecided('conditional index')
                p = n.v
        return p

    def pleaf(self, n):
        if n.c is not None:
            raise Undecided('conditional bound')
        return n.v

    def solve(self, a, b, it):
        """a(it) == b -> (P, cond) for it, None when not affine"""
        key = ((it.id, 1),)
        co = a.d.get(key)
        if co is None:
            return None
        rest = mkless(a, key)
        if it.id in rest.free:
            return None
        rhs = padd(b, rest, -1)
        val = pscale(rhs, 1 / co)
        if abs(co) == 1:
            return val, TRUE
        if alg._allint_with_const(val):
            return val, TRUE
        # integrality: fractional constant with otherwise integral coefficients never matches
        k = val.d.get((), 0)
        nonc = mkless(val, ())
        if alg._allint_with_const(nonc) and k != 0 and k.denominator != 1:
            return P0, FALSE
        r = pscale(rhs, 1 if co > 0 else -1)
        c = abs(co)
        k = r.d.get((), 0)
        nn = mkless(r, ())
        if alg._nnp(nn) and nn.d and k.denominator == 1 if k else False:
            # c*it == nn + k, nn >= 0:  nn mod c is fixed, the quotient follows
            s = -k % c
            return self.pleaf(alg.add(alg.idiv(leaf(nn), num(c)), leaf(pc((k + s) / c)))), \
                alg.eq(alg.imod(leaf(nn), num(c)), leaf(pc(s)))
        q = alg.idiv(leaf(r), num(abs(co)))
        m = alg.imod(leaf(r), num(abs(co)))
        return self.pleaf(q), alg.eq(m, FALSE)

    # ------------------------------------------------------------------ loop carried reads
    def prevread(self, L, loc, t):
        """effect of earlier iterations of the active loop L on loc (seen at the loop head)"""
        if not L.prev:
            return None
        sh = shape(loc)
        for w in L.prev:
            wl = w.loc
            n = len(wl)
            if shape(wl) != sh[:n]:
                continue
            if L.it.id not in free_its(wl):
                if not L.final:
                    phis = {c[1].id for c in L.carried.values() if c[1] is not None and c[1].args[0] != 'ctr'}
                    if free_its(wl) & phis and free_its(wl) & phis == free_its(loc) & phis and n == len(loc):
                        # element at a counter that the loop carries
                        r = self.indirect(L, w, loc, t)
                        if r is not None:
                            return TRUE, r
                continue
            # identical iteration marker in the location: private to this iteration
            if any(isinstance(x, P) and x is y and L.it.id in x.free for x, y in zip(wl, loc)):
                continue
            eqs = [(x, y) for x, y in zip(wl, loc) if isinstance(x, P) and x is not y]
            it2 = alg.fresh_it('prev', 'i')
            miss = False
            sol = None
            qids = {q[0].id for q in w.q}
            for x, y in eqs:
                if L.it.id in x.free:
                    x2 = alg._subst_v(x, L.it, leaf(pa(it2)))
                    if x2.c is not None:
                        raise Undecided('conditional index')
                    s = self.solve(x2.v, y, it2)
                    if s is None:
                        r = self.indirect(L, w, loc, t)
                        if r is not None:
                            return TRUE, r
                        if any(c[1] is not None and c[1].id in free_its(loc) for l in self.loops if not l.final
                               for c in l.carried.values()):
                            # address still provisional
                            return TRUE, poison('provisional', self.typ(t))
                        raise Undecided('loop-carried access %s vs %s' % (alg.show_loc(wl), alg.show_loc(loc)))
                    if s[1] is FALSE:
                        miss = True
                        break
                    sol = s[0]
                elif not (qids & x.free):
                    c = alg._eq_v(x, y)
                    if c is FALSE:
                        miss = True
                        break
            if miss:
                continue
            if sol is None:
                continue
            delta = padd(sol, pa(L.it), -1).const()
            if delta is not None and delta >= 0:
                continue
            if delta == -1 and n == len(loc) and not w.q:
                key = ('scan', wl)
                if key in L.closed:
                    return TRUE, L.closed[key]
                if key not in L.carried:
                    L.scan[key] = (loc, t)
                    return TRUE, poison('scan', self.typ(t))
                return TRUE, L.carried[key][0]
            if delta is not None:
                return TRUE, poison('recurrence distance %s' % delta, self.typ(t))
            # index independent of this iteration: written by iteration sol if 0 <= sol < it
            return TRUE, poison('read of another iteration', self.typ(t))
        return None

    def indirect(self, L, w, loc, t):
        """read of A[counter] where A is filled at a counter carried by the loop"""
        key = ('ind', shape(loc), loc)
        if key in L.closed:
            return L.closed[key]
        if L.final:
            return L.indc.get(key[1:])
        if key in L.carried:
            return L.carried[key][0]
        ids = {c[0].v.d and list(c[0].v.d)[0][0][0] for k, c in L.carried.items()
               if isinstance(c[0], N) and c[0].c is None and isinstance(c[0].v, P) and len(c[0].v.d) == 1 and list(c[0].v.d)[0]}
        fr = free_its(loc)
        if fr & {l.it.id for l in self.loops if l is not L and l.it is not None and l.seq0 is not None and l.seq0 > L.seq0}:
            return None
        if fr & ids:
            L.scan[key] = (loc, t)
            return poison('indirect', self.typ(t))
        return None

    # ------------------------------------------------------------------ copying objects
    def copy_obj(self, dst, src, t=None):
        """dst, src: N of Ref"""
        for d, g1 in (alg.leaves(dst) if dst.c is not None else [(dst.v, TRUE)]):
            for s, g2 in (alg.leaves(src) if src.c is not None else [(src.v, TRUE)]):
                g = band(self.pc, band(g1, g2))
                if g is FALSE:
                    continue
                if not isinstance(d, Ref) or not isinstance(s, Ref):
                    raise Undecided('copy %s <- %s' % (d, s))
                if d.loc == s.loc:
                    continue
                self.put(d.loc, None, g, 'copy', s.loc, len(self.log)).t = t

    def leaves_of(self, t, pre=()):
        """[(path, load kind)] of the scalars inside an object of type t"""
        k = self.prog.kind(t)
        if k[0] in ('r', 'i', 'b', 'str'):
            return [(pre, k)]
        if k[0] == 'p':
            return [(pre, self.kindp(t))]
        if k[0] == 'arr':
            n = k[2] or 0
            return [x for i in range(min(n, 16)) for x in self.leaves_of(k[1], pre + (pc(i),))]
        if k[0] == 'mat':
            return [(pre + (pc(i),), ('r',)) for i in range(k[1] * k[2])] if k[1] > 0 and k[2] > 0 else []
        if k[0] == 'q':
            return [(pre + (pc(i),), ('r',)) for i in range(4)]
        if k[0] == 'rec':
            r = self.prog.rec.get(k[1])
            if r is None:
                s = k[1].strip()
                if s.startswith('std::pair<'):
                    a = self.models.targs(s)
                    if len(a) == 2:
                        return self.leaves_of(a[0], pre + ('first',)) + self.leaves_of(a[1], pre + ('second',))
                if s.startswith('ParticleSimulator::Vector3<'):
                    return [(pre + (f,), ('r',)) for f in 'xyz']
                return []
            out = []
            for b in r.get('bases') or []:
                bt = b['t'] if isinstance(b, dict) else b
                out += self.leaves_of(r['T'][bt] if isinstance(bt, int) else bt, pre)
            for fd in r['fields']:
                if not fd['n']:
                    continue
                out += self.leaves_of(r['T'][fd['t']], pre + (fd['n'],))
            return out
        return []

    def temp(self, tag='t'):
        self.frames += 1
        return leaf(Ref((('L', tag, self.frames),) + self.itidx()))

    def new_heap(self, tag):
        self.heap += 1
        return (('H', self.heap, tag),) + self.itidx()

    def zero_fill(self, ref, g=None):
        for d, gg in alg.leaves(ref):
            self.put(d.loc, None, band(self.pc, gg), 'zero')

    def ordinal(self, key):
        """number of this effect among those of its kind on the current path (exclusive branches count separately)"""
        had = self.rngcount.get(key, ())
        n = 1 + max((k for g, k in had if band(g, self.pc) is not FALSE), default=0)
        self.rngcount[key] = had + ((self.pc, n),)
        return n

    def havoc(self, ref, tag):
        for d, gg in alg.leaves(ref):
            if isinstance(d, Ref):
                n = self.ordinal(('X', tag))
                self.put(d.loc, (('Y' if tag in self.clobber else 'X', tag, n, d.loc) + self.itidx(),), band(self.pc, gg), 'havoc')

    # ------------------------------------------------------------------ field helpers
    def field(self, ref, *names):
        def f(r):
            if isinstance(r, Ref):
                loc = r.loc
                # a pointer to element 0 of an array of objects
                return leaf(Ref(loc + names))
            if isinstance(r, Ob) and r.key[0] == 'poison':
                return leaf(r)
            if r is NULL:
                return leaf(Ob('poison', 'null deref', 0))
            raise Undecided('field %s of %s' % (names, r))
        return mapleaves(ref, f) if ref.c is not None else f(ref.v)

    def elem(self, ref, idx):
        """ref: N of Ref to array object; idx N"""
        def f(r, i):
            if isinstance(r, Ref):
                if not isinstance(i, P):
                    raise Undecided('index %s' % (i,))
                return leaf(Ref(r.loc + (i,)))
            if isinstance(r, Ob) and r.key[0] == 'poison':
                return leaf(r)
            raise Undecided('elem of %s' % (r,))
        if ref.c is None and idx.c is None:
            return f(ref.v, idx.v)
        return apply('elem', f, ref, idx)

    def size_of(self, ref):
        return self.load(self.field(ref, '#size'), ('i',))

    def set_size(self, ref, n):
        self.store(self.field(ref, '#size'), n)

    def mat_load(self, ev):
        if isinstance(ev, Mat):
            return ev
        if isinstance(ev, EV):
            return Mat(ev.r, ev.c, [self.load(r, ('r',)) for r in ev.refs], ev.quat)
        raise Undecided('not a matrix: %r' % (ev,))

    def ev_at(self, ref, r, c, rowmajor=False, quat=False):
        """view of an Eigen object stored at ref (elements at ref+[k])"""
        refs = []
        for i in range(r):
            for j in range(c):
                k = i * c + j if rowmajor and r != 1 and c != 1 else i + j * r
                refs.append(self.elem(ref, num(k)))
        return EV(r, c, refs, quat, ref)

    def ev_ptr(self, ptr, r, c, rowmajor=False, quat=False):
        """view over raw storage addressed by ptr"""
        refs = []
        for i in range(r):
            for j in range(c):
                k = i * c + j if rowmajor and r != 1 and c != 1 else i + j * r
                refs.append(alg.add(ptr, num(k)))
        return EV(r, c, refs, quat)

    def mat_store(self, ev, m):
        m = self.mat_load(m) if not isinstance(m, Mat) else m
        if len(m.e) != len(ev.refs):
            raise Undecided('matrix shape %dx%d <- %dx%d' % (ev.r, ev.c, m.r, m.c))
        if (ev.r, ev.c) != (m.r, m.c) and not (1 in (ev.r, ev.c) and 1 in (m.r, m.c)):
            raise Undecided('matrix shape')
        for r, v in zip(ev.refs, m.e):
            self.store(r, v)

    def view(self, v, t):
        """EV/Mat of a value of Eigen type t"""
        if isinstance(v, (EV, Mat)):
            return v
        if isinstance(v, Obj):
            k = tk(t) if isinstance(t, str) else t
            if k[0] == 'mat':
                return self.ev_at(v.ref, k[1], k[2], k[3])
            if k[0] == 'q':
                return self.ev_at(v.ref, 4, 1, quat=True)
            if k[0] == 'map':
                ptr = self.load(self.field(v.ref, '#ptr'), ('p', 'double', 'raw'))
                return self.ev_ptr(ptr, k[1], k[2], k[3])
            if k[0] == 'mapq':
                ptr = self.load(self.field(v.ref, '#ptr'), ('p', 'double', 'raw'))
                return self.ev_ptr(ptr, 4, 1, quat=True)
        raise Undecided('view of %r : %s' % (v, t))

    # ------------------------------------------------------------------ calls
    def run(self, f, this=None, args=None, addrs=None):
        """analyse function f as an entry point; parameters are symbolic unless given in args {name: value}"""
        fr = Frame(f, f['T'], this)
        self.frames += 1
        fr.no = self.frames
        args = args or {}
        for i, p in enumerate(f['params']):
            t = f['T'][p['t']]
            k = self.prog.kind(t)
            if addrs and i in addrs:
                fr.vars[p['id']] = addrs[i]
            elif p['n'] in args or i in args:
                v = args.get(p['n'], args.get(i))
                if isinstance(v, N) and not isref(t) and k[0] in ('r', 'i', 'b', 'p', 'str'):
                    ref = leaf(Ref((('A', p['n']),)))
                    self.store(ref, v)
                    fr.vars[p['id']] = ref
                else:
                    fr.vars[p['id']] = v
            elif isref(t) or k[0] not in ('r', 'i', 'b', 'p', 'str'):
                fr.vars[p['id']] = leaf(Ref(((('A'), i),)))
            else:
                fr.vars[p['id']] = leaf(Ref((('A', i),)))
        return self.body(f, fr)

    def body(self, f, fr):
        pc0, old = self.pc, getattr(self, 'fr', None)
        self.fr = fr
        try:
            if f.get('ctor'):
                self.inits(f, fr)
            self.stmt(f['body'])
        finally:
            self.fr = old
        self.pc = pc0
        return fr

    def inits(self, f, fr):
        for i in f.get('inits') or []:
            if i.get('deleg'):
                self.expr_into(fr.this, i['e'])
                continue
            if 'm' in i:
                ref = self.field(fr.this, i['m'])
                self.init_at(ref, None, i['e'])
            elif i.get('e') is not None and i['e'].get('k') == 'Ctor':
                self.construct(fr.this, i['e'])

    def call_function(self, f, this, args, e=None, parent=None, T=None, byval=True):
        """inline f; args are evaluated values in order"""
        if getattr(self, 'depth', 0) > self.maxdepth:
            raise Undecided('inline depth')
        fr = Frame(f, T or f['T'], this, parent)
        if not fr.file and self.fr:
            fr.file = self.fr.file
        self.frames += 1
        fr.no = self.frames
        self.inlined.add(f.get('q', '<lambda>'))
        for i, p in enumerate(f['params']):
            t = fr.T[p['t']]
            k = self.prog.kind(t)
            if i < len(args):
                v = args[i]
            elif p.get('def') is not None:
                v = self.with_frame(fr, lambda: self.ev(p['def']))
            else:
                raise Undecided('missing argument')
            fr.vars[p['id']] = self.bind(v, t, k, ('P', p['n'], fr.no))
        self.depth = getattr(self, 'depth', 0) + 1
        pc0, ab0 = self.pc, self.ab
        old = self.fr
        self.fr = fr
        try:
            if f.get('ctor'):
                self.inits(f, fr)
            self.stmt(f['body'])
        finally:
            self.fr = old
            self.depth -= 1
        self.pc = pc0
        rt = fr.T[f['ret']] if 'ret' in f and f['ret'] is not None else 'void'
        return self.result(fr, rt)

    def with_frame(self, fr, fn):
        old = self.fr
        self.fr = fr
        try:
            return fn()
        finally:
            self.fr = old

    def result(self, fr, rt):
        if not fr.rets:
            return None
        vals = [(g, v) for g, v in fr.rets if v is not None]
        if not vals:
            return None
        r = vals[-1][1]
        if len(vals) == 1:
            return r
        if isinstance(r, N):
            for g, v in reversed(vals[:-1]):
                r = ite(restrict(g, self.pc) if self.pc.c is not None else g, v, r)
            return r
        if isinstance(r, Obj):
            ref = r.ref
            for g, v in reversed(vals[:-1]):
                ref = ite(g, v.ref, ref)
            return Obj(ref, r.t)
        if isinstance(r, Mat) or isinstance(r, EV):
            r = self.mat_load(r)
            for g, v in reversed(vals[:-1]):
                v = self.mat_load(v)
                r = Mat(r.r, r.c, [ite(g, a, b) for a, b in zip(v.e, r.e)], r.quat)
            return r
        return r

    def bind(self, v, t, k, name):
        """value of an argument -> what the parameter name denotes (N of Ref, or EV)"""
        if isref(t):
            if isinstance(v, LV):
                return v.ref
            if isinstance(v, Obj):
                return v.ref
            if isinstance(v, EV):
                if v.base is not None:
                    return v.base
                return v
            if isinstance(v, Mat):
                return self.materialize(v)
            if isinstance(v, N):
                ref = leaf(Ref((('L',) + name,) + self.itidx()))
                self.put(ref.v.loc, v, TRUE)
                return ref
            if isinstance(v, Lam):
                return v
            raise Undecided('bind ref %r' % (v,))
        if isinstance(v, Lam):
            return v
        ref = leaf(Ref((('L',) + name,) + self.itidx()))
        if isinstance(v, LV):
            v = self.load(v.ref, self.kindp(t))
        if isinstance(v, N):
            self.store(ref, v)
            return ref
        if isinstance(v, (EV, Mat)):
            m = self.mat_load(v)
            if k[0] in ('mat', 'q'):
                e2 = self.ev_at(ref, m.r, m.c, k[3] if k[0] == 'mat' else False)
                self.mat_store(e2, m)
                return ref
            if isinstance(v, EV):
                return v
            return self.materialize(v)
        if isinstance(v, Obj):
            self.copy_obj(ref, v.ref, t)
            return ref
        raise Undecided('bind %r' % (v,))

    def materialize(self, m):
        ref = self.temp('m')
        for i in range(m.r):
            for j in range(m.c):
                self.put(self.elem(ref, num(i + j * m.r)).v.loc, m.at(i, j), TRUE)
        return ref

    def kindp(self, t):
        k = self.prog.kind(t)
        if k[0] == 'p':
            s = t.strip()
            raw = s.rstrip('&').strip().endswith('*') or s.rstrip('&').strip().endswith('*const') or '_iterator' in s.split('<')[0] \
                or s.rstrip('& ').endswith('* const') or s.replace('const ', '').startswith('Kokkos::View')
            return ('p', k[1], 'raw' if raw else '')
        return k

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.pc is FALSE:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Undecided('statement %s' % k)
        m(s)

    def s_Block(self, s):
        for x in rotate_loops(s['b']):
            self.stmt(x)
            if self.pc is FALSE:
                return

    def s_Null(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s['e'], discard=True)

    def s_Label(self, s):
        self.stmt(s.get('b'))

    def s_Try(self, s):
        self.stmt(s['b'])

    def s_OMP(self, s):
        if s.get('b') is not None:
            self.stmt(s['b'])

    def s_Decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.fr
        t = fr.T[d['t']]
        init = d.get('init')
        if d.get('static'):
            ref = leaf(Ref((('G', 'static', self.statics.setdefault((fr.f.get('q', ''), d['n']), len(self.statics))),)))
            fr.vars[d['id']] = ref
            k = self.prog.kind(t)
            if init is not None and t.strip().startswith('const') or 'const' in t.split('[')[0]:
                self.init_at(ref, t, init)
            elif init is not None and k[0] in ('r', 'i', 'b', 'p') and not self.loops:
                # initialised by the first call; a later one finds what the previous left
                self.store(ref, ite(alg.boolatom(atom('first', (num(self.statics[fr.f.get('q', ''), d['n']]),), 'b')), self.ev(init),
                                    self.load(ref, self.kindp(t))))
            return
        if d.get('ref'):
            v = self.lv(init)
            if isinstance(v, LV):
                v = v.ref
            elif isinstance(v, N) and self.prog.kind(t)[0] in ('r', 'i', 'b', 'p', 'str'):
                # a temporary
                x, v = v, leaf(Ref((('L', d['n'], d['id'], fr.no),) + self.itidx()))
                self.store(v, x)
            fr.vars[d['id']] = self.bindref(v, t)
            return
        k = self.prog.kind(t)
        if init is not None and k[0] in ('rec', 'fn') and init.get('k') in ('Lambda', 'Ctor'):
            l = self.find_lambda(init)
            if l is not None:
                fr.vars[d['id']] = self.ev(l)
                return
        ref = leaf(Ref((('L', d['n'], d['id'], fr.no),) + self.itidx()))
        fr.vars[d['id']] = ref
        if init is not None:
            self.init_at(ref, t, init)

    def bindref(self, v, t):
        if isinstance(v, Obj):
            return v.ref
        if isinstance(v, N):
            return v
        if isinstance(v, EV):
            return v.base if v.base is not None else v
        if isinstance(v, Mat):
            return self.materialize(v)
        if isinstance(v, Lam):
            return v
        raise Undecided('reference to %r' % (v,))

    def find_lambda(self, e):
        while isinstance(e, dict):
            if e.get('k') == 'Lambda':
                return e
            if e.get('k') == 'Cast':
                e = e['e']
            elif e.get('k') == 'Ctor' and len(e['a']) == 1:
                e = e['a'][0]
            else:
                return None
        return None

    def etype(self, e):
        return self.fr.T[e['t']]

    def init_at(self, ref, t, e):
        """initialise the object at ref from initialiser expression e"""
        if e is None:
            return
        if t is None:
            t = self.etype(e)
        k = self.prog.kind(t)
        if e['k'] == 'Ctor' and k[0] not in ('mat', 'q', 'map', 'mapq', 'eig', 'str', 'p'):
            self.construct(ref, e)
            return
        if e['k'] == 'IList':
            self.ilist(ref, t, e)
            return
        if e['k'] == 'Zero':
            self.zero_fill(ref)
            return
        v = self.ev(e)
        self.assign(ref, t, v)

    def ilist(self, ref, t, e):
        k = self.prog.kind(t)
        a = e['a']
        if k[0] == 'arr':
            self.zero_fill(ref)
            for i, x in enumerate(a):
                self.init_at(self.elem(ref, num(i)), None, x)
            return
        if k[0] in ('r', 'i', 'b', 'p'):
            if not a:
                self.store(ref, self.zero(k))
            else:
                self.init_at(ref, t, a[0])
            return
        r = self.prog.rec.get(t.replace('const ', '').strip('& '))
        if r:
            self.zero_fill(ref)
            for fld, x in zip(r['fields'], a):
                self.init_at(self.field(ref, fld['n']), r['T'][fld['t']], x)
            return
        if k[0] == 'rec' and len(a) <= 1:
            self.zero_fill(ref)
            if a:
                self.init_at(ref, t, a[0])
            return
        raise Undecided('init list for %s' % t)

    def assign(self, ref, t, v):
        k = self.prog.kind(t)
        if isinstance(v, LV):
            v = self.rv(v, t)
        if isinstance(v, N):
            self.know(ref, self.kindp(t) if k[0] == 'p' else k)
            self.store(ref, v)
        elif isinstance(v, (EV, Mat)):
            m = self.mat_load(v)
            if k[0] == 'mat':
                if (m.r, m.c) != (k[1], k[2]) and m.r * m.c == k[1] * k[2]:
                    m = Mat(k[1], k[2], m.e)
                self.mat_store(self.ev_at(ref, k[1], k[2], k[3]), m)
            elif k[0] == 'q':
                self.mat_store(self.ev_at(ref, 4, 1, quat=True), m)
            elif k[0] in ('map', 'mapq') and isinstance(v, EV):
                self.store(self.field(ref, '#ptr'), v.refs[0])
            else:
                raise Undecided('assign matrix to %s' % t)
        elif isinstance(v, Obj):
            self.copy_obj(ref, v.ref, t)
        elif v is None:
            pass
        else:
            raise Undecided('assign %r to %s' % (v, t))

    def s_Return(self, s):
        e = s.get('e')
        v = None
        if e is not None:
            rt = self.fr.T[self.fr.f['ret']] if self.fr.f.get('ret') is not None else self.etype(e)
            if isref(rt):
                v = self.lv(e)
                if isinstance(v, N):
                    v = LV(v)
            else:
                k = self.prog.kind(rt)
                v = self.ev(e)
                if isinstance(v, Obj) and e['k'] not in ('Ctor', 'Call') or isinstance(v, Obj) and e['k'] == 'Ctor' and e.get('copy'):
                    tmp = self.temp('ret')
                    self.copy_obj(tmp, v.ref, rt)
                    v = Obj(tmp, rt)
                elif isinstance(v, EV):
                    v = self.mat_load(v) if k[0] in ('mat', 'q') else v
        self.fr.rets.append((self.pc, v))
        self.pc = FALSE

    def s_If(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvd'):
            self.stmt(s['cvd'])
        c = self.cond(s['c'])
        pc0 = self.pc
        if self.facts.c is not None:
            c = restrict(c, self.facts)
        if pc0.c is not None:
            c = restrict(c, pc0)
        t, f = band(pc0, c), band(pc0, bnot(c))
        ab0 = self.ab
        self.ab = FALSE
        if t is not FALSE:
            self.pc = t
            self.stmt(s['a'])
            t = self.pc
        if s.get('b') is not None and f is not FALSE:
            self.pc = f
            self.stmt(s['b'])
            f = self.pc
        ab = self.ab
        self.ab = bor(ab0, ab)
        self.pc = bor(bor(t, f), ab)

    def cond(self, e):
        v = self.ev(e)
        if isinstance(v, Obj):
            raise Undecided('condition on object')
        return alg.truth(v)

    def abort(self, why):
        self.note(('abort', why, self.pc))
        self.ab = bor(self.ab, self.pc)
        self.pc = FALSE

    def s_Break(self, s):
        l = self.fr.loop
        l.brk = bor(l.brk, self.pc)
        self.pc = FALSE

    def s_Continue(self, s):
        l = self.fr.loop
        while getattr(l, 'isswitch', False):
            l = l.up
        l.cont = bor(l.cont, self.pc)
        self.pc = FALSE

    def s_Switch(self, s):
        v = self.ev(s['c'])
        old = self.fr.loop
        ctx = LoopCtx()
        ctx.isswitch = True
        ctx.up = old
        self.fr.loop = ctx
        pc0 = self.pc
        body = s['b']['b'] if s['b']['k'] == 'Block' else [s['b']]
        # flatten nested case labels
        items = []
        for x in body:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else x['v'])
                x = x.get('b')
            items.append((labels, x))
        conds = {}
        anyc = FALSE
        for i, (labels, x) in enumerate(items):
            for lb in labels:
                if lb is not None:
                    c = alg.eq(v, self.ev(lb))
                    conds.setdefault(i, FALSE)
                    conds[i] = bor(conds[i], c)
                    anyc = bor(anyc, c)
        hasdef = False
        for i, (labels, x) in enumerate(items):
            if None in labels:
                conds[i] = bor(conds.get(i, FALSE), bnot(anyc))
                hasdef = True
        self.pc = FALSE
        ab0 = self.ab
        self.ab = FALSE
        for i, (labels, x) in enumerate(items):
            if i in conds:
                self.pc = bor(self.pc, band(pc0, conds[i]))
            if x is not None and self.pc is not FALSE:
                self.stmt(x)
        out = bor(self.pc, ctx.brk)
        if not hasdef:
            out = bor(out, band(pc0, bnot(anyc)))
        self.pc = bor(out, self.ab)
        self.ab = bor(ab0, self.ab)
        self.fr.loop = old

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        self.stmt(s.get('init'))
        self.loop(lambda: self.cond(s['c']) if s.get('c') else TRUE, s['b'],
                  (lambda: self.ev(s['inc'], discard=True)) if s.get('inc') else None, s)

    def s_While(self, s):
        self.loop(lambda: self.cond(s['c']), s['b'], None, s)

    def s_Do(self, s):
        # body once, then while
        old = self.fr.loop
        first = [True]
        flag = leaf(Ref((('L', '#do', self.frames + 1),) + self.itidx()))
        self.frames += 1
        self.store(flag, TRUE)

        def c():
            f = self.load(flag, ('b',))
            if f is TRUE:
                return TRUE
            pc0 = self.pc
            v = self.cond(s['c'])
            return bor(f, v)

        def i():
            self.store(flag, FALSE)
        self.loop(c, s['b'], i, s)

    def s_RFor(self, s):
        rng = self.lv(s['range'])
        rt = self.etype(s['range'])
        k = self.prog.kind(rt)
        if isinstance(rng, LV):
            rng = rng.ref
        if isinstance(rng, Obj):
            rng = rng.ref
        cnt = leaf(Ref((('L', '#rng', self.frames + 1),) + self.itidx()))
        self.frames += 1
        self.store(cnt, FALSE)
        var = s['var']

        def size():
            if k[0] == 'arr':
                return num(k[2])
            if k[0] == 'vec' or k[0] == 'rec':
                return self.size_of(rng)
            raise Undecided('range for over %s' % rt)
        n0 = size()

        def body():
            i = self.load(cnt, ('i',))
            r = self.elem(rng, i)
            vt = self.fr.T[var['t']]
            if isref(vt) or var.get('ref'):
                self.fr.vars[var['id']] = r
            else:
                ref = leaf(Ref((('L', var['n'], var['id'], self.fr.no),) + self.itidx()))
                self.fr.vars[var['id']] = ref
                kk = self.prog.kind(vt)
                if kk[0] in ('r', 'i', 'b', 'p', 'str'):
                    self.store(ref, self.load(r, self.kindp(vt)))
                else:
                    self.copy_obj(ref, r)
            self.stmt(s['b'])
        self.loop(lambda: alg.lt(self.load(cnt, ('i',)), n0), body,
                  lambda: self.store(cnt, alg.add(self.load(cnt, ('i',)), TRUE)), s)

    def runbody(self, b):
        if callable(b):
            b()
        else:
            self.stmt(b)

    def loop(self, cond, body, inc, node):
        old = self.fr.loop
        try:
            if not self.unroll(cond, body, inc):
                self.symbolic(cond, body, inc, node)
        finally:
            self.fr.loop = old

    def unroll(self, cond, body, inc):
        s0 = self.snap()
        pc0 = self.pc
        brk = FALSE
        n = 0
        vars0 = dict(self.fr.vars)
        rets0 = len(self.fr.rets)
        while True:
            c = cond()
            if self.pc.c is not None:
                c = restrict(c, self.pc)
            if c is FALSE:
                break
            if c is not TRUE or n >= 70:
                self.rollback(s0)
                self.fr.vars = vars0
                del self.fr.rets[rets0:]
                return False
            ctx = LoopCtx()
            self.fr.loop = ctx
            self.runbody(body)
            self.pc = bor(self.pc, ctx.cont)
            brk = bor(brk, ctx.brk)
            if self.pc is FALSE:
                break
            if inc:
                inc()
            n += 1
        self.pc = bor(self.pc, brk)
        return True

    def symbolic(self, cond, body, inc, node):
        s0 = self.snap()
        vars0 = dict(self.fr.vars)
        rets0 = len(self.fr.rets)
        nl = len(self.loops)
        fr, depth = self.fr, getattr(self, 'depth', 0)
        try:
            return self.symbolic1(cond, body, inc, node)
        except Undecided as u:
            del self.loops[nl:]
            self.fr, self.depth = fr, depth
            self.rollback(s0)
            self.fr.vars = vars0
            del self.fr.rets[rets0:]
            self.lastgen = str(u)
            self.symbolic1(cond, body, inc, node, force=str(u) or 'undecided')

    def symbolic1(self, cond, body, inc, node, force=None, nopi=frozenset()):
        L = Loop()
        L.nopi = nopi
        L.ci = {}
        L.indc = {}
        L.node = node
        L.it = alg.fresh_it('i', 'i')
        L.carried = {}
        L.prev = []
        L.scan = {}
        L.closed = {}
        L.final = False
        L.seq0 = None
        L.generic = False
        s0 = self.snap()
        vars0 = dict(self.fr.vars)
        rets0 = len(self.fr.rets)
        pc0, facts0 = self.pc, self.facts

        def attempt():
            self.rollback(s0)
            self.fr.vars = dict(vars0)
            del self.fr.rets[rets0:]
            self.loops.append(L)
            L.seq0 = len(self.log)
            L.scan = {}
            L.heads = []
            for key, cv in list(L.carried.items()):
                v = L.closed.get(key, cv[0]) if L.final else cv[0]
                if isinstance(key[0], str) and key[0] in ('scan', 'ind'):
                    continue
                L.heads.append(self.put(key, cv[0], TRUE, 'havoc') if cv[2] == 'obj' else self.put(key, v, TRUE))
            ctx = LoopCtx()
            self.fr.loop = ctx
            c = cond()
            if not L.generic and not L.final:
                # the body runs only while the loop condition holds
                self.facts = band(facts0, c)
            pcb = self.pc
            if L.generic:
                self.pc = band(pcb, c)
            self.runbody(body)
            self.pc = bor(self.pc, ctx.cont)
            pcend = self.pc
            if inc and self.pc is not FALSE:
                inc()
            self.loops.pop()
            return c, ctx, pcend

        generic = force
        if force:
            L.generic = True
            return self.generic_loop(L, attempt, s0, pc0, node, force)
        for rounds in range(20):
            had = set(L.carried)
            try:
                c, ctx, pcend = attempt()
            except BaseException:
                if self.loops and self.loops[-1] is L:
                    self.loops.pop()
                raise
            if ctx.brk is not FALSE or len(self.fr.rets) != rets0:
                generic = 'early exit'
            new = False
            prev = []
            for e in self.log[L.seq0:]:
                if e.kind == 'hint':
                    continue
                if e.kind == 'w' and e.val is not None and e.loc in L.carried:
                    continue
                fr = free_its(e.loc)
                if L.it.id in fr:
                    if not self.periter(e.loc, L):
                        prev.append(e)
                    continue
                if e.loc in L.carried:
                    continue
                if e.kind == 'w' and not (fr & {q[0].id for q in e.q}):
                    phis = {c2[1].id for c2 in L.carried.values() if c2[1] is not None}
                    if fr & phis:
                        prev.append(e)
                        continue
                    vt = self.valtype(e.val)
                    if vt in ('r', 'i', 'b'):
                        a = alg.fresh_phi('phi', vt)
                        if vt == 'i' and e.loc not in L.nopi and self.counter(L, e.loc, None):
                            a = alg.fresh_phi('ctr', vt)
                        v = alg.boolatom(a) if vt == 'b' else leaf(pa(a))
                        L.carried[e.loc] = (v, a, vt)
                    else:
                        a = None
                        self.heap += 1
                        if vt == 'p':
                            v = leaf(Ref((('PHI', L.it.id, e.loc),)))
                            r0 = self.read(e.loc, ('p', ''), L.seq0) if e.loc not in L.nopi else None
                            if r0 is not None and r0.c is None and isinstance(r0.v, Ref) and r0.v.loc and isinstance(r0.v.loc[-1], P):
                                # pointer or iterator that steps through a sequence
                                a = alg.fresh_phi('step', 'i')
                                v = leaf(Ref(r0.v.loc[:-1] + (padd(r0.v.loc[-1], pa(a)),)))
                                vt = 'pi'
                        else:
                            v = leaf(Ob('phi', L.it.id, e.loc))
                        L.carried[e.loc] = (v, a, vt)
                    new = True
                else:
                    phis = {c2[1].id for c2 in L.carried.values() if c2[1] is not None}
                    if fr & phis:
                        prev.append(e)
                        continue
                    # object or array content that every iteration overwrites
                    pre = self.stable_prefix(e, L)
                    if not any(pre[:len(k)] == k for k in L.carried if not isinstance(k[0], str)):
                        L.carried[pre] = ((('PHI', L.it.id, pre),), None, 'obj')
                        new = True
            for key, (loc, t) in L.scan.items():
                if key not in L.carried:
                    vt = self.typ(t)
                    a = alg.fresh_phi('scan', vt if vt != 'o' else 'r')
                    L.carried[key] = (alg.boolatom(a) if vt == 'b' else leaf(pa(a)), a, vt, loc, t)
                    new = True
            pl = [canon_entry(e) for e in prev]
            if pl != [canon_entry(e) for e in L.prev]:
                L.prev = [self.frozen(e) for e in prev]
                # addresses written by this loop are now known: reads must be rechecked
                new = True
            if generic is None:
                for key, cv in list(L.carried.items()):
                    if cv[2] == 'i' and key in had and not isinstance(key[0], str) and key not in L.nopi and \
                            (cv[1].args[0] == 'ctr') != self.counter(L, key, cv):
                        if cv[1].args[0] == 'ctr':
                            L.nopi = L.nopi | {key}
                        a = alg.fresh_phi('phi' if cv[1].args[0] == 'ctr' else 'ctr', 'i')
                        L.carried[key] = (leaf(pa(a)), a, 'i')
                        for k in list(L.carried):
                            if isinstance(k[0], str):
                                del L.carried[k]
                        L.prev = []
                        new = True
            if not new:
                # writes seen in early rounds at provisional addresses
                stale = [k for k, cv in L.carried.items() if not isinstance(k[0], str) and not self.written(k, cv, L)]
                if not stale:
                    break
                for k in list(L.carried):
                    if k in stale or isinstance(k[0], str):
                        del L.carried[k]
                L.prev = []
        else:
            raise Undecided('loop fixpoint')
        if generic is None:
            try:
                ok = self.close_forms(L, c, s0)
            except PtrRetry as r:
                self.rollback(s0)
                self.fr.vars = dict(vars0)
                del self.fr.rets[rets0:]
                return self.symbolic1(cond, body, inc, node, force, nopi | {r.key})
            except Undecided as u:
                ok = False
                self.lastgen = str(u)
        else:
            ok = False
        if not ok:
            return self.generic_loop(L, attempt, s0, pc0, node, generic)
        T = L.T
        if T is FALSE or (T.c is None and isinstance(T.v, P) and T.v.const() is not None and T.v.const() <= 0):
            self.rollback(s0)
            self.fr.vars = dict(vars0)
            return
        # final pass with the closed forms
        L.final = True
        self.facts = facts0
        f2 = band(facts0, band(alg.le(FALSE, leaf(pa(L.it))), alg.lt(leaf(pa(L.it)), T)))
        s0 = s0[:3] + (f2,) + s0[4:]
        for e in L.prev:
            for k2, cf in L.closed.items():
                cf = L.ci.get(k2, cf)
                b = L.carried[k2][1]
                if b is not None and b.id in free_its(e.loc):
                    try:
                        e.loc = alg._subst_loc(e.loc, b, cf)
                    except Undecided:
                        break
        for rounds in range(12):
            try:
                c, ctx, pcend = attempt()
            except BaseException:
                if self.loops and self.loops[-1] is L:
                    self.loops.pop()
                raise
            again = False
            for key, (loc, t) in L.scan.items():
                if key not in L.carried:
                    vt = self.typ(t)
                    a = alg.fresh_phi('scan', vt if vt != 'o' else 'r')
                    L.carried[key] = (alg.boolatom(a) if vt == 'b' else leaf(pa(a)), a, vt, loc, t)
                    again = True
            prev = [e for e in self.log[L.seq0:] if L.it.id in free_its(e.loc) and not self.periter(e.loc, L) and
                    not (e.kind == 'w' and e.loc in L.carried) and e.kind != 'hint']
            if [canon_entry(e) for e in prev] != [canon_entry(e) for e in L.prev]:
                L.prev = [self.frozen(e) for e in prev]
                again = True
            if again:
                continue
            openk = [k for k, cv in L.carried.items() if k[0] == 'scan' and k not in L.closed]
            if not openk:
                break
            phis = {cv[1].id: k for k, cv in L.carried.items() if cv[1] is not None and k not in L.closed}
            prog = False
            for key in openk:
                v, a, vt, loc, t = L.carried[key]
                self.loops.append(L)
                try:
                    n = self.read(key[1], t)
                finally:
                    self.loops.pop()
                init = self.read(alg._subst_loc(loc, L.it, FALSE), t, L.seq0)
                for k2, cf in L.closed.items():
                    cf = L.ci.get(k2, cf)
                    b2 = L.carried[k2][1]
                    if b2 is not None and b2.id in n.free:
                        n = subst(n, b2, cf)
                r = self.recurrence(key, v, a, n, init, L, phis)
                if r is not None:
                    L.closed[key] = r
                    prog = True
            if not prog:
                for key in openk:
                    self.note(('unclosed', [str(key[0])]))
                    L.closed[key] = poison('no closed form', L.carried[key][2])
        else:
            raise Undecided('loop summary')
        self.facts = facts0
        for e in L.heads:
            # values at the head of an iteration exist only if the loop is reached
            e.g = band(e.g, pc0)
        for e in self.log[L.seq0:]:
            e.q = e.q + [(L.it, T)]
        for v in self.events[s0[1]:]:
            v.loops = ((L.it, T),) + v.loops
        for l in self.loopinfo[s0[8]:]:
            l['outer'] = ((L.it, T),) + l.get('outer', ())
        self.pc = pc0
        for key, cv in L.carried.items():
            if isinstance(key[0], str) and key[0] in ('scan', 'ind'):
                if key[0] == 'ind':
                    fv = self.final_value(L, key, T)
                    loc = L.info[key]
                    self.put(loc, fv, pc0, 'hint')
                continue
            if cv[2] == 'obj':
                continue
            self.put(key, self.final_value(L, key, T), pc0)

    def counter(self, L, key, cv):
        """starts at a nonnegative constant and advances by a positive constant"""
        try:
            i0 = self.read(key, ('i',), L.seq0)
        except Undecided:
            return False
        if i0.c is not None or not isinstance(i0.v, P) or i0.v.const() is None or i0.v.const() < 0:
            return False
        self.loops.append(L)
        try:
            n = self.read(key, ('i',))
        except Undecided:
            return False
        finally:
            self.loops.pop()
        if n.c is not None or not isinstance(n.v, P):
            return False
        d = padd(n.v, i0.v if cv is None else cv[0].v, -1).const()
        return d is not None and d > 0

    def written(self, key, cv, L):
        n = len(key)
        heads = 0
        phis = {c[1].id for c in L.carried.values() if c[1] is not None} | {L.it.id}
        for e in self.log[L.seq0:]:
            if e.loc[:n] == key:
                if cv[2] == 'obj' and not L.generic and free_its(e.loc) & phis:
                    continue
                if e.loc == key:
                    heads += 1
                    if heads < 2:
                        continue
                return True
        return False

    @staticmethod
    def periter(loc, L):
        """a local object declared inside the loop body: earlier iterations had their own"""
        return isinstance(loc[0], tuple) and loc[0][0] == 'L' and pa(L.it) in loc[1:]

    def frozen(self, e):
        f = Entry()
        f.loc, f.val, f.g, f.kind, f.q, f.seq, f.src, f.srcseq, f.inst = e.loc, e.val, e.g, e.kind, list(e.q), e.seq, e.src, e.srcseq, ()
        return f

    def stable_prefix(self, e, L, phis=()):
        ids = {q[0].id for q in e.q} | {L.it.id} | set(phis)
        out = []
        for x in e.loc:
            f, _ = alg._argfree(x)
            if f & ids:
                break
            out.append(x)
        if not out:
            raise Undecided('loop store')
        return tuple(out)

    def valtype(self, v):
        ts = set()
        for x in leafset(v):
            if isinstance(x, P):
                if alg.isint(x):
                    ts.add('i')
                else:
                    ts.add('r')
            elif isinstance(x, Ref) or x is NULL:
                ts.add('p')
            else:
                ts.add('o')
        if ts <= {'i'}:
            if v.c is not None and all(x in (P0, P1) for x in leafset(v)):
                return 'b'
            return 'i'
        if ts <= {'i', 'r'}:
            return 'r'
        if ts <= {'p', 'i'}:
            return 'p'
        return 'o'

    def close_forms(self, L, c, s0):
        """closed forms of the loop-carried values as functions of the iteration number"""
        it = leaf(pa(L.it))
        nxt = {}
        init = {}
        end = len(self.log)
        L.info = {}
        for key, cv in L.carried.items():
            if cv[2] == 'obj':
                continue
            if isinstance(key[0], str) and key[0] == 'scan':
                loc, t = cv[3], cv[4]
                self.loops.append(L)
                try:
                    nxt[key] = self.read(key[1], t)
                finally:
                    self.loops.pop()
                loc0 = alg._subst_loc(loc, L.it, FALSE)
                init[key] = self.read(loc0, t, L.seq0)
                continue
            if isinstance(key[0], str) and key[0] == 'ind':
                continue
            t = {'r': ('r',), 'i': ('i',), 'b': ('b',), 'p': ('p', ''), 'pi': ('p', ''), 'o': ('o',)}[cv[2]]
            # types from the initial contents
            init[key] = self.read(key, t, L.seq0)
            self.loops.append(L)
            try:
                nxt[key] = self.read(key, t)
            finally:
                self.loops.pop()
        for key, cv in L.carried.items():
            if isinstance(key[0], str) and key[0] == 'ind':
                loc, t = cv[3], cv[4]
                # index expression in terms of carried phis: its next value
                locn, loc0 = loc, loc
                for k2, c2 in L.carried.items():
                    if c2[1] is not None and k2 in nxt and c2[1].id in free_its(loc):
                        locn = alg._subst_loc(locn, c2[1], nxt[k2])
                        loc0 = alg._subst_loc(loc0, c2[1], init[k2])
                self.loops.append(L)
                try:
                    nxt[key] = self.read(locn, t)
                finally:
                    self.loops.pop()
                init[key] = self.read(loc0, t, L.seq0)
        L.closed = {}
        self._init, self._next = init, nxt
        phis = {cv[1].id: key for key, cv in L.carried.items() if cv[1] is not None}
        pend = [k for k in L.carried if k in nxt]
        L.T = None
        progress = True
        kinds = {}
        while pend and progress:
            progress = False
            for key in list(pend):
                v, a, vt = L.carried[key][:3]
                n = nxt[key]
                for k2, cf in L.closed.items():
                    cf = L.ci.get(k2, cf)
                    b = L.carried[k2][1]
                    if b is not None and b.id in n.free:
                        n = subst(n, b, cf)
                r = self.recurrence(key, v, a, n, init[key], L, phis)
                if r is not None:
                    L.closed[key] = r
                    pend.remove(key)
                    progress = True
                    nxt[key] = n
        if pend:
            for key in pend:
                v, a, vt = L.carried[key][:3]
                if a is None:
                    raise Undecided('loop-carried pointer/object')
            self.note(('unclosed', [alg.show_loc(k) if not isinstance(k[0], str) else str(k[0]) for k in pend]))
            for key in pend:
                L.closed[key] = poison('no closed form', L.carried[key][2])
        L.indc = {}
        for key, cv in L.carried.items():
            if isinstance(key[0], str) and key[0] == 'ind' and key in L.closed:
                loc = key[2]
                for k2, cf in L.closed.items():
                    cf = L.ci.get(k2, cf)
                    b = L.carried[k2][1]
                    if b is not None and b.id in free_its(loc):
                        loc = alg._subst_loc(loc, b, cf)
                L.indc[key[1], loc] = L.closed[key]
        # trip count
        cc = c
        for k2, cf in L.closed.items():
            cf = L.ci.get(k2, cf)
            b = L.carried[k2][1]
            if b is not None and b.id in cc.free:
                cc = subst(cc, b, cf)
        T = self.trip(cc, L.it)
        if T is None and L.it.id in cc.free and not (cc.free & set(phis)) and not poisoned(cc):
            T = alg.mu_(L.it, cc)
        if T is None:
            self.lastgen = 'trip count of %s' % cc
            return False
        L.T = T
        L.info['init'], L.info['next'] = init, nxt
        for key, cv in L.carried.items():
            if isinstance(key[0], str) and key[0] == 'ind':
                loc = cv[3]
                for k2, c2 in L.carried.items():
                    if c2[1] is not None and k2 in L.closed and c2[1].id in free_its(loc):
                        loc = alg._subst_loc(loc, c2[1], self.final_value(L, k2, T))
                L.info[key] = loc
        return True

    def recurrence(self, key, v, a, n, init, L, phis):
        it = leaf(pa(L.it))
        others = set(phis) - ({a.id} if a is not None else set())
        if n is v:
            return init
        if L.carried[key][2] == 'pi':
            base = v.v.loc[:-1]
            if n.c is not None or not isinstance(n.v, Ref) or n.v.loc[:-1] != base or not isinstance(n.v.loc[-1], P):
                raise PtrRetry(key)
            d = padd(n.v.loc[-1], v.v.loc[-1], -1)
            if a.id in d.free:
                raise PtrRetry(key)
            if d.free & others:
                return None
            j = alg.fresh_it('j', 'i')
            L.ci[key] = s = alg.sum_(it, j, subst(leaf(d), L.it, leaf(pa(j))))
            off = padd(v.v.loc[-1], pa(a), -1)
            return mapleaves(s, lambda x: leaf(Ref(base + (padd(off, x),))))
        if n.free & others:
            return None
        if a is None:
            # pointer or opaque: only 'last value' is representable
            if any(x is v.v for x in leafset(n)):
                return None
            prev = subst(n, L.it, alg.sub(it, TRUE))
            return ite(alg.eq(it, FALSE), init, prev)
        if a.id not in n.free:
            prev = subst(n, L.it, alg.sub(it, TRUE))
            return ite(alg.le(it, FALSE), init, prev)
        typ = L.carried[key][2]
        if typ == 'b':
            hi, lo = self.cofactor(n, a, True), self.cofactor(n, a, False)
            if a.id in hi.free or a.id in lo.free:
                return None
            j = alg.fresh_it('j', 'i')
            if hi is TRUE:
                f = alg.fold_(it, j, 'any', subst(lo, L.it, leaf(pa(j))), FALSE)
                return bor(init, f)
            if lo is FALSE:
                f = alg.fold_(it, j, 'all', subst(hi, L.it, leaf(pa(j))), TRUE)
                return band(init, f)
            return None
        try:
            d = alg.sub(n, v)
        except Undecided:
            return None
        if a.id not in d.free:
            j = alg.fresh_it('j', 'i')
            return alg.add(init, alg.sum_(it, j, subst(d, L.it, leaf(pa(j)))))
        # min / max: the value with phi beyond every other operand tells what competes with phi
        for kind, fnn, up in (('min', alg.min_, True), ('max', alg.max_, False)):
            cand = self.atinf(n, a, up)
            if cand is None:
                continue
            keep = mapleaves(cand, lambda x: TRUE if x is v.v else FALSE)
            rest = restrict(cand, bnot(keep)) if keep is not FALSE else cand
            if a.id in rest.free:
                continue
            w = ite(keep, v, fnn(v, rest))
            if alg.same(w, n) or alg.same_lin(w, n):
                j = alg.fresh_it('j', 'i')
                return alg.fold_(it, j, kind, subst(ite(keep, init, rest), L.it, leaf(pa(j))), init)
        return None

    def atinf(self, n, a, up):
        """n with every comparison of phi decided as if phi were above (below) everything else"""
        if n.c is None:
            return n if a.id not in n.free or n.v is pa(a) else None
        if a.id in n.c.free:
            if n.c.kind != 'thr':
                return None
            co = n.c.L.d.get(((a.id, 1),))
            if co is None or a.id in mkless(n.c.L, ((a.id, 1),)).free:
                return None
            return self.atinf(n.lo if (co > 0) == up else n.hi, a, up)
        h, l = self.atinf(n.hi, a, up), self.atinf(n.lo, a, up)
        if h is None or l is None:
            return None
        return alg.iteC(n.c, h, l)

    def loser(self, n, a):
        """drop phi leaves: the expression that replaces phi"""
        def rec(m):
            if m.c is None:
                if isinstance(m.v, P) and a.id in m.v.free:
                    return None
                return m
            h, l = rec(m.hi), rec(m.lo)
            if a.id in m.c.free:
                if h is None:
                    return l
                if l is None:
                    return h
                return h if h is l else False
            if h is None or l is None or h is False or l is False:
                return False if (h is False or l is False) else (h or l)
            return alg.iteC(m.c, h, l)
        r = rec(n)
        return r if isinstance(r, N) else None

    def cofactor(self, n, a, val):
        c = alg.boolatom(a)
        return restrict(n, c if val else bnot(c))

    def final_value(self, L, key, T):
        cf = L.closed[key]
        v = subst(cf, L.it, T)
        return v

    def trip(self, c, it):
        """number of iterations while c(it) holds, starting from 0; c is a decision diagram"""
        if it.id not in c.free:
            if c is FALSE:
                return FALSE
            return None
        # hoist tests that do not depend on the iteration
        if c.c is not None and it.id not in c.c.free:
            a, b = self.trip(c.hi, it), self.trip(c.lo, it)
            if a is None or b is None:
                return None
            return alg.iteC(c.c, a, b)
        cs = alg._conds(c)
        ks = {x.L for x in cs}
        if any(x.kind != 'thr' for x in cs) or len(ks) != 1:
            inv = [x for x in cs if it.id not in x.free]
            if inv:
                x = inv[0]
                a, b = self.trip(alg._cofall(c, x, True), it), self.trip(alg._cofall(c, x, False), it)
                if a is None or b is None:
                    return None
                return alg.iteC(x, a, b)
            return None
        Lp = ks.pop()
        co = Lp.d.get(((it.id, 1),))
        if co is None:
            return None
        rest = mkless(Lp, ((it.id, 1),))
        if it.id in rest.free:
            return None
        if len(cs) == 1:
            x = cs[0]
            if not alg._allint(Lp):
                return None
            k = pc(x.k)
            if c.hi is TRUE and c.lo is FALSE and co > 0:
                n = padd(k, rest, -1)
                if co == 1:
                    return leaf(n)
                return alg.idiv(leaf(padd(n, pc(co - 1))), num(co))
            if c.hi is FALSE and c.lo is TRUE and co < 0:
                n = padd(padd(rest, k, -1), pc(1))
                if co == -1:
                    return leaf(n)
                return alg.idiv(leaf(padd(n, pc(-co - 1))), num(-co))
            return None
        if len(cs) == 2:
            # it*co + rest != k
            lo_, hi_ = sorted(cs, key=lambda x: x.k)
            if hi_.k - lo_.k == 1:
                k = lo_.k
                if c is bnot(alg._eq_v(Lp, pc(k))) and abs(co) == 1:
                    return leaf(pscale(padd(pc(k), rest, -1), 1 / co))
        return None

    def generic_loop(self, L, attempt, s0, pc0, node, why):
        """loops without closed form: summarise by the state at the loop head"""
        L.generic = True
        L.final = False
        L.closed = {}
        # every location written by the body is an opaque value at the head
        L.prev = []
        for key in list(L.carried):
            if isinstance(key[0], str):
                del L.carried[key]
        info = {'node': node, 'why': why or getattr(self, 'lastgen', ''), 'pc': pc0,
                'fn': self.fr.f.get('q'), 'line': node.get('p') if isinstance(node, dict) else None}
        for rounds in range(16):
            try:
                c, ctx, pcend = attempt()
            except BaseException:
                if self.loops and self.loops[-1] is L:
                    self.loops.pop()
                raise
            new = False
            for e in self.log[L.seq0:]:
                if e.kind == 'hint':
                    continue
                if e.loc in L.carried or any(e.loc[:len(k)] == k for k in L.carried):
                    continue
                if isinstance(e.loc[0], tuple) and e.loc[0][0] in ('L', 'H') and any(isinstance(x, P) and L.it.id in x.free for x in e.loc):
                    continue
                fr = free_its(e.loc)
                phis = {c2[1].id for c2 in L.carried.values() if c2[1] is not None}
                if e.kind == 'w' and not (fr & ({q[0].id for q in e.q} | phis | {L.it.id})):
                    vt = self.valtype(e.val)
                    if vt in ('r', 'i', 'b'):
                        a = alg.fresh_phi('phi', vt)
                        L.carried[e.loc] = (alg.boolatom(a) if vt == 'b' else leaf(pa(a)), a, vt)
                    else:
                        v = leaf(Ref((('PHI', L.it.id, e.loc),))) if vt == 'p' else leaf(Ob('phi', L.it.id, e.loc))
                        L.carried[e.loc] = (v, None, vt)
                else:
                    pre = self.stable_prefix(e, L, phis)
                    for k in list(L.carried):
                        if not isinstance(k[0], str) and k[:len(pre)] == pre:
                            del L.carried[k]
                    L.carried[pre] = ((('PHI', L.it.id, pre),), None, 'obj')
                new = True
            if not new:
                stale = [k for k, cv in L.carried.items() if not self.written(k, cv, L)]
                if not stale:
                    break
                for k in stale:
                    del L.carried[k]
        else:
            raise Undecided('loop widening')
        info['carried'] = dict(L.carried)
        info['cond'] = c
        info['brk'] = ctx.brk
        info['pcend'] = pcend
        info['head'] = L.seq0
        info['end'] = len(self.log)
        nx = {}
        ini = {}
        for key, cv in L.carried.items():
            if cv[2] == 'obj':
                continue
            t = {'r': ('r',), 'i': ('i',), 'b': ('b',), 'p': ('p', ''), 'pi': ('p', ''), 'o': ('o',)}[cv[2]]
            self.loops.append(L)
            try:
                nx[key] = self.read(key, t)
            finally:
                self.loops.pop()
            ini[key] = self.read(key, t, L.seq0)
        info['next'], info['init'] = nx, ini
        info['events'] = list(self.events[s0[1]:])
        info['log'] = list(self.log[L.seq0:])
        info['it'] = L.it
        self.loopinfo.append(info)
        for e in self.log[L.seq0:]:
            e.q = e.q + [(L.it, leaf(pa(atom('trip', (L.it.id,), 'i'))))]
        for v in self.events[s0[1]:]:
            v.loops = ((L.it, None),) + v.loops
        self.pc = pc0
        # state after the loop: opaque
        for key, cv in L.carried.items():
            if cv[2] == 'obj':
                self.put(key, (('POST', L.it.id, key),), pc0, 'havoc')
            elif cv[1] is not None:
                a = atom('phi', ('post', L.it.id, key), 'i' if cv[2] == 'pi' else cv[2])
                v = alg.boolatom(a) if cv[2] == 'b' else subst(cv[0], cv[1], leaf(pa(a))) if cv[2] == 'pi' else leaf(pa(a))
                self.put(key, v, pc0)
                info.setdefault('post', {})[key] = v
            else:
                v = leaf(Ref((('POST', L.it.id, key),))) if cv[2] == 'p' else leaf(Ob('post', L.it.id, key))
                self.put(key, v, pc0)
                info.setdefault('post', {})[key] = v
        for e in L_writes(info['log'], L):
            pre = self.stable_prefix(e, L)
            self.put(pre, (('POST', L.it.id, pre),), pc0, 'havoc')

    # ------------------------------------------------------------------ expressions
    def ev(self, e, discard=False):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Undecided('expression %s' % k)
        if not self.fr.file.startswith('#'):
            self.line = (self.fr.file, e.get('p'))
        v = m(e)
        if isinstance(v, LV) and not discard:
            return self.rv(v, self.etype(e))
        return v

    def rv(self, v, t):
        """load a scalar, or keep a class object by address"""
        k = self.prog.kind(t)
        if k[0] in ('r', 'i', 'b', 'p', 'str'):
            r = self.load(v.ref, self.kindp(t))
            if k[0] == 'i':
                u = t.replace('const ', '').rstrip(' &')
                if u.startswith('unsigned') or u in ('size_t', 'uint32_t', 'uint64_t'):
                    for x in alg.leafset(r):
                        a = alg.oneatom(x) if isinstance(x, P) else None
                        if a is not None and a.name == 'rd':
                            if u in _UNS:
                                alg.WID[a.id] = _UNS[u]
                            alg._nnm[a.id] = True
            return r
        if k[0] in ('mat', 'q'):
            return self.view(Obj(v.ref), k)
        if k[0] in ('map', 'mapq'):
            return self.view(Obj(v.ref), k)
        return Obj(v.ref, t)

    def lv(self, e):
        """lvalue: LV, Obj, EV or a temporary value"""
        k = e['k']
        m = getattr(self, 'e_' + k)
        v = m(e)
        return v

    def e_Int(self, e):
        return num(int(e['v']))

    def e_Bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_Float(self, e):
        return self.models.literal(e)

    def e_Str(self, e):
        return leaf(S((('l', e['v']),)))

    def e_Null(self, e):
        return leaf(NULL)

    def e_Zero(self, e):
        t = self.etype(e)
        k = self.prog.kind(t)
        if k[0] in ('r', 'i', 'b', 'p'):
            return self.zero(k)
        ref = self.temp('z')
        self.zero_fill(ref)
        return Obj(ref, t)

    def e_This(self, e):
        fr = self.fr
        while fr is not None and fr.this is None:
            fr = fr.parent
        if fr is None:
            raise Undecided('this')
        return fr.this

    def e_Ref(self, e):
        dk = e['dk']
        if dk == 'local':
            v = self.fr.lookup(e['id'])
            if v is None:
                raise Undecided('unbound local %s' % e['n'])
            if isinstance(v, N):
                return LV(v)
            return v
        if e.get('cv') is not None:
            return self.constval(e)
        if dk == 'enum':
            return leaf(Ob('enum', e['q']))
        if dk == 'global':
            g = self.prog.glob.get(e['q'])
            t = self.etype(e)
            if g and g.get('init') is not None and 'const' in g['T'][g['t']]:
                fr = Frame({'q': '#global', 'ret': None}, g['T'], None)
                return self.with_frame(fr, lambda: self.ev(g['init']))
            return LV(leaf(Ref((('G', e['q']),))))
        if dk == 'fn':
            return leaf(Ob('fn', e.get('q')))
        raise Undecided('ref %s' % dk)

    def constval(self, e):
        cv = e['cv']
        try:
            return num(int(cv))
        except ValueError:
            return self.models.floatval(float(cv))

    def e_Mem(self, e):
        if e.get('dk') == 'enum' or (e.get('cv') is not None and e.get('b') is None):
            return self.constval(e)
        b = e['b']
        if e.get('arrow'):
            base = self.ev(b)
            if isinstance(base, Obj):
                base = base.ref
        else:
            v = self.lv(b)
            if isinstance(v, LV):
                base = v.ref
            elif isinstance(v, Obj):
                base = v.ref
            elif isinstance(v, N):
                base = v
            else:
                raise Undecided('member of %r' % (v,))
        base = mapleaves(base, lambda r: leaf(self.norm_ptr(r)))
        ref = self.field(base, e['n'])
        # reference members: the stored address
        fo = e.get('fo')
        if self.is_ref_field(e):
            ref = self.load(ref, ('p', ''))
        return LV(ref)

    def is_ref_field(self, e):
        r = e.get('fo')
        if r is None:
            return False
        cls = self.prog.rec.get(r) if isinstance(r, str) else None
        if cls:
            for f in cls['fields']:
                if f['n'] == e['n']:
                    return isref(cls['T'][f['t']])
        return False

    def norm_ptr(self, r):
        """pointer to an object: drop a trailing [0] when it addresses a lone object"""
        if isinstance(r, Ref):
            l = r.loc
            if len(l) == 2 and l[1] is P0 and isinstance(l[0], tuple) and l[0][0] == 'D':
                return Ref(l[:1])
        return r

    def e_Idx(self, e):
        b = self.ev(e['b'])
        i = self.ev(e['i'])
        if isinstance(b, Obj):
            return LV(self.elem(b.ref, i))
        if isinstance(b, LV):
            b = b.ref
        # array lvalue (not decayed) or pointer value
        kb = self.prog.kind(self.etype(e['b']))
        if isinstance(b, N) and any(isinstance(x, S) for x in alg.leafset(b)):
            return self.models.charat(b, i)
        if kb[0] == 'arr':
            return LV(self.elem(b, i))
        return LV(alg.add(b, i))

    def e_Cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'ArrayToPointerDecay':
            v = self.lv(sub)
            if isinstance(v, LV):
                return self.elem(v.ref, FALSE)
            if isinstance(v, Obj):
                return self.elem(v.ref, FALSE)
            return v  # string literal
        if ck == 'LValueToRValue':
            return self.ev(sub)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return leaf(NULL)
        if ck == 'ToVoid':
            self.ev(sub, discard=True)
            return None
        v = self.e_any(sub)
        t = self.etype(e)
        k = self.prog.kind(t)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'FunctionToPointerDecay', 'LValueBitCast', 'AtomicToNonAtomic', 'BuiltinFnToFnPtr'):
            return v
        if isinstance(v, LV):
            v = self.rv(v, self.etype(sub))
        if not isinstance(v, N):
            raise Undecided('cast %s of %r' % (ck, v))
        if ck == 'IntegralCast' and t.replace('const ', '') in _UNS:
            return alg.lowbits(v, _UNS[t.replace('const ', '')])
        if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast', 'BooleanToSignedIntegral'):
            return v
        if ck == 'FloatingToIntegral':
            return alg.toint(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return alg.truth(v)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return v
        raise Undecided('cast %s' % ck)

    def e_any(self, e):
        return getattr(self, 'e_' + e['k'])(e)

    def e_Un(self, e):
        op = e['op']
        if op in ('++', '--'):
            r = self.lv(e['e'])
            if not isinstance(r, LV):
                raise Undecided('%s on %r' % (op, r))
            old = self.load(r.ref, self.kindp(self.etype(e['e'])))
            new = alg.add(old, TRUE) if op == '++' else alg.sub(old, TRUE)
            self.know(r.ref, self.kindp(self.etype(e['e'])))
            self.store(r.ref, new)
            return old if e.get('post') else LV(r.ref)
        if op == '*':
            p = self.ev(e['e'])
            return self.deref(p, self.etype(e))
        if op == '&':
            v = self.lv(e['e'])
            if isinstance(v, (LV, Obj)):
                return v.ref
            raise Undecided('address of %r' % (v,))
        if op in ('__extension__', '+'):
            return self.ev(e['e'])
        v = self.ev(e['e'])
        if op == '-':
            return alg.neg(v)
        if op == '!':
            return bnot(alg.truth(v))
        if op == '~':
            return alg.sub(alg.neg(v), TRUE)
        raise Undecided('unary %s' % op)

    def deref(self, p, t):
        k = self.prog.kind(t)
        if isinstance(p, Obj):
            raise Undecided('deref object')
        p = mapleaves(p, lambda r: leaf(r if k[0] in ('r', 'i', 'b', 'p', 'str') else self.norm_ptr(r)))
        if k[0] in ('r', 'i', 'b', 'p', 'str', 'mat', 'q'):
            return LV(p)
        return Obj(p, t)

    def e_Asg(self, e):
        l = self.lv(e['l'])
        t = self.etype(e['l'])
        r = self.ev(e['r'])
        if isinstance(l, LV):
            self.assign(l.ref, t, r)
            return l
        if isinstance(l, Obj):
            self.assign(l.ref, t, r)
            return l
        raise Undecided('assignment to %r' % (l,))

    def e_CAsg(self, e):
        l = self.lv(e['l'])
        if not isinstance(l, LV):
            raise Undecided('compound assignment to %r' % (l,))
        r = self.ev(e['r'])
        old = self.load(l.ref, self.kindp(self.etype(e['l'])))
        lt_ = self.prog.kind(self.etype(e['l']))
        ct = self.prog.kind(self.fr.T[e['ct']]) if e.get('ct') is not None else lt_
        v = self.binop(e['op'][:-1], old, r, ct, self.prog.kind(self.etype(e['r'])))
        if lt_[0] == 'i' and ct[0] == 'r':
            v = alg.toint(v)
        self.know(l.ref, lt_)
        self.store(l.ref, v)
        return l

    def e_Bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['l'], discard=True)
            return self.e_any(e['r'])
        if op in ('&&', '||'):
            a = alg.truth(self.ev(e['l']))
            if (op == '&&' and a is FALSE) or (op == '||' and a is TRUE):
                return a
            pc0 = self.pc
            self.pc = band(pc0, a if op == '&&' else bnot(a))
            if self.pc is FALSE:
                self.pc = pc0
                return a if op == '||' else FALSE
            try:
                b = alg.truth(self.ev(e['r']))
            finally:
                self.pc = pc0
            return band(a, b) if op == '&&' else bor(a, b)
        a = self.ev(e['l'])
        b = self.ev(e['r'])
        return self.binop(op, a, b, self.prog.kind(self.etype(e['l'])), self.prog.kind(self.etype(e['r'])))

    def binop(self, op, a, b, ka, kb):
        if not isinstance(a, N) or not isinstance(b, N):
            raise Undecided('binary %s on %r %r' % (op, a, b))
        if op == '+':
            return alg.add(a, b)
        if op == '-':
            return alg.sub(a, b)
        if op == '*':
            return alg.mul(a, b)
        if op == '/':
            if ka[0] in ('i', 'b') and kb[0] in ('i', 'b'):
                return alg.idiv(a, b)
            return alg.div(a, b)
        if op == '%':
            return alg.imod(a, b)
        if op == '<':
            return alg.lt(a, b)
        if op == '>':
            return alg.lt(b, a)
        if op == '<=':
            return alg.le(a, b)
        if op == '>=':
            return alg.le(b, a)
        if op == '==':
            return alg.eq(a, b)
        if op == '!=':
            return bnot(alg.eq(a, b))
        if op in ('&', '|', '^', '<<', '>>'):
            return self.models.bitop(op, a, b, ka)
        raise Undecided('binary %s' % op)

    def e_Cond(self, e):
        c = alg.truth(self.ev(e['c']))
        if self.facts.c is not None:
            c = restrict(c, self.facts)
        if self.pc.c is not None:
            c = restrict(c, self.pc)
        if c is TRUE:
            return self.e_any(e['a'])
        if c is FALSE:
            return self.e_any(e['b'])
        pc0 = self.pc
        self.pc = band(pc0, c)
        a = self.e_any(e['a'])
        if isinstance(a, LV) and not e.get('lv'):
            a = self.rv(a, self.etype(e['a']))
        self.pc = band(pc0, bnot(c))
        b = self.e_any(e['b'])
        if isinstance(b, LV) and not e.get('lv'):
            b = self.rv(b, self.etype(e['b']))
        self.pc = pc0
        if a is None and b is None:
            return None
        if isinstance(a, LV) and isinstance(b, LV):
            return LV(ite(c, a.ref, b.ref))
        if isinstance(a, LV):
            a = self.rv(a, self.etype(e['a']))
        if isinstance(b, LV):
            b = self.rv(b, self.etype(e['b']))
        if isinstance(a, N) and isinstance(b, N):
            return ite(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return Obj(ite(c, a.ref, b.ref), a.t)
        if isinstance(a, (EV, Mat)) and isinstance(b, (EV, Mat)):
            a, b = self.mat_load(a), self.mat_load(b)
            return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)], a.quat)
        raise Undecided('conditional')

    def e_Throw(self, e):
        self.abort('throw')
        return None

    def e_SizeOf(self, e):
        if e.get('cv') is not None:
            return num(int(e['cv']))
        raise Undecided('sizeof')

    def e_Trait(self, e):
        return num(int(e.get('cv', 0)))

    def e_TypeId(self, e):
        return leaf(Ob('typeid', str(e.get('at'))))

    def e_Lambda(self, e):
        return Lam(e['fns'], self.fr, e.get('caps'))

    def e_IList(self, e):
        t = self.etype(e)
        k = self.prog.kind(t)
        if k[0] in ('r', 'i', 'b', 'p'):
            return self.ev(e['a'][0]) if e['a'] else self.zero(k)
        ref = self.temp('il')
        self.ilist(ref, t, e)
        return Obj(ref, t)

    def e_ArrCopy(self, e):
        raise Undecided('array copy')

    def e_Delete(self, e):
        self.ev(e['e'])
        return None

    def e_New(self, e):
        t = self.fr.T[e['at']]
        loc = self.new_heap(t)
        n = e.get('n')
        ref = leaf(Ref(loc))
        if n is not None:
            self.ev(n) if isinstance(n, dict) else None
            return self.elem(ref, FALSE)
        if e.get('init') is not None:
            self.init_at(ref, t, e['init'])
        return ref

    def e_Ctor(self, e):
        t = self.etype(e)
        k = self.prog.kind(t)
        if k[0] in ('mat', 'q', 'map', 'mapq', 'eig', 'str', 'p'):
            return self.models.ctor(self, e, t, k)
        lam = self.find_lambda(e)
        if lam is not None:
            return self.ev(lam)
        if e.get('copy') and len(e['a']) == 1 and False:
            return self.lv(e['a'][0])
        ref = self.temp('c')
        self.construct(ref, e)
        return Obj(ref, t)

    def expr_into(self, ref, e):
        if e.get('k') == 'Ctor':
            self.construct(ref, e)
        else:
            raise Undecided('delegating constructor')

    def construct(self, ref, e):
        """run constructor expression e on the object at ref"""
        t = self.etype(e)
        k = self.prog.kind(t)
        if k[0] in ('mat', 'q', 'map', 'mapq', 'eig', 'str', 'p'):
            self.assign(ref, t, self.ev(e))
            return
        h = self.models.construct(self, ref, e, t, k)
        if h:
            return
        if e.get('list') and not e.get('f'):
            self.ilist(ref, t, e)
            return
        a = e['a']
        if e.get('copy') and len(a) == 1:
            v = self.lv(a[0])
            if isinstance(v, LV):
                v = Obj(v.ref)
            if isinstance(v, N):
                v = Obj(v)
            if isinstance(v, Lam):
                raise Undecided('lambda copy')
            self.copy_obj(ref, v.ref, self.etype(e))
            return
        sq = strip(e.get('q') or '')
        if sq in self.opaque:
            ev = self.event(sq, None, [self.e_any(x) for x in a], e)
            ev.ret = (('R', sq, self.ordinal(('R', sq))),) + self.itidx()
            self.copy_obj(ref, leaf(Ref(ev.ret)), t)
            return
        f = self.prog.fn.get(e.get('f'))
        if f is not None and f.get('body') is not None and not (f.get('defaulted')):
            args = [self.e_any(x) for x in a]
            self.default_members(ref, t, skip={i['m'] for i in (f.get('inits') or []) if 'm' in i and i.get('written')})
            self.call_function(f, ref, args, e)
            return
        if e.get('zero'):
            self.zero_fill(ref)
        if e.get('def') or not a:
            self.default_members(ref, t)
            return
        raise Undecided('constructor %s' % e.get('q'))

    def default_members(self, ref, t, skip=()):
        r = self.prog.rec.get(t.replace('const ', '').strip('& '))
        if not r:
            return
        for b in r.get('bases') or []:
            bt = b if isinstance(b, str) else None
            if bt:
                self.default_members(ref, bt)
        for fld in r['fields']:
            if fld['n'] in skip:
                continue
            ft = r['T'][fld['t']]
            fref = self.field(ref, fld['n'])
            if fld.get('init') is not None:
                fr = Frame({'q': '#init ' + t, 'ret': None}, r['T'], ref)
                self.with_frame(fr, lambda: self.init_at(fref, ft, fld['init']))
            else:
                k = self.prog.kind(ft)
                if k[0] == 'vec' or (k[0] == 'rec' and strip(k[1]).startswith('std::')):
                    self.set_size(fref, FALSE)
                elif k[0] == 'str':
                    self.store(fref, leaf(S(())))
                elif k[0] == 'p' and not ft.endswith('*'):
                    self.store(fref, leaf(NULL))
                elif k[0] == 'rec' and self.prog.rec.get(ft):
                    self.default_members(fref, ft)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        q = e.get('q')
        if q is None:
            return self.call_indirect(e)
        sq = strip(q)
        h = self.hooks.get(sq)
        if h is not None:
            r = h(self, e, sq)
            if r is not NotImplemented:
                return r
        if sq in self.pure:
            return self.pure_call(e, sq, self.pure[sq])
        if sq in self.opaque or '%s/%d' % (sq, len(e['a'])) in self.opaque:
            return self.opaque_call(e, sq)
        if sq in self.models.PREFER:
            r = self.models.call(self, e, sq)
            if r is not NotImplemented:
                return r
        f = self.prog.fn.get(e.get('f'))
        if f is not None and f.get('defaulted') and sq.endswith('operator=') and e.get('a'):
            if e.get('obj') is not None:
                l, x, lx = self.lv(e['obj']) if not e.get('arrow') else Obj(self.ev(e['obj'])), e['a'][0], e['obj']
            else:
                l, x, lx = self.lv(e['a'][0]), e['a'][1], e['a'][0]
            r = self.e_any(x)
            if isinstance(r, LV):
                r = Obj(r.ref)
            ref = l.ref if isinstance(l, (LV, Obj)) else l
            self.copy_obj(ref, r.ref, self.etype(lx))
            return l
        if f is not None and f.get('body') is not None and not e.get('virt'):
            return self.inline_call(f, e)
        if f is not None and f.get('body') is not None and e.get('virt') and (e.get('qual') or not self.prog.derived(f.get('clsq') or f.get('cls'))):
            return self.inline_call(f, e)
        r = self.models.call(self, e, sq)
        if r is not NotImplemented:
            return r
        if sq.endswith('::operator=') and e.get('a') and f is None:
            cls = sq[:-len('::operator=')]
            if cls in self.prog.rec:
                if e.get('obj') is not None:
                    l, x = (self.ev(e['obj']) if e.get('arrow') else self.lv(e['obj'])), e['a'][0]
                else:
                    l, x = self.lv(e['a'][0]), e['a'][1]
                r = self.e_any(x)
                self.copy_obj(l.ref if isinstance(l, (LV, Obj)) else l, r.ref if isinstance(r, (LV, Obj)) else r, cls)
                return l
        # lambda call
        if e.get('obj') is not None and e.get('op') == '()':
            o = self.lv(e['obj'])
            if isinstance(o, Lam):
                return self.call_lambda(o, e['a'], e)
        if f is not None and f.get('defaulted') and sq.endswith('operator='):
            l = self.lv(e['obj'])
            r = self.ev(e['a'][0])
            self.assign(l.ref, self.etype(e['obj']), r)
            return l
        return self.unknown_call(e, sq)

    def pure_call(self, e, sq, spec):
        """a call replaced by uninterpreted functions of its inputs.  spec: {argument: (mode, count)} for pointer
        arguments; references to non const are outputs"""
        ins, outs = [], []
        if e.get('obj') is not None and not spec.get('stateless'):
            o = self.ev(e['obj']) if e.get('arrow') else self.lv(e['obj'])
            r = o.ref if isinstance(o, (LV, Obj)) else o
            ins.append(mapleaves(r, lambda x: leaf(self.norm_ptr(x))))
        pts = [self.fr.T[t] for t in e.get('pt') or []]
        for i, x in enumerate(e['a']):
            v = self.e_any(x)
            pt = pts[i] if i < len(pts) else ''
            t = self.etype(x)
            mode = spec.get(i)
            if mode is not None:
                if mode == 'unused':
                    continue
                if mode == 'inout':
                    if isinstance(v, (LV, Obj)) and self.prog.kind(t)[0] in ('mat', 'q', 'map', 'mapq'):
                        v = self.view(Obj(v.ref, t), t)
                    if isinstance(v, EV):
                        rs = list(v.refs)
                    else:
                        rs = [v.ref]
                    ins += [self.load(r, ('r',)) for r in rs]
                    outs += rs
                    continue
                md, n = mode
                base = self.rv(v, t) if isinstance(v, LV) and self.prog.kind(t)[0] == 'p' else (v.ref if isinstance(v, (LV, Obj)) else v)
                if isinstance(v, LV) and self.prog.kind(t)[0] == 'arr':
                    refs = [self.elem(v.ref, num(k)) for k in range(n)]
                else:
                    refs = [alg.add(base, num(k)) for k in range(n)]
                if md == 'in':
                    ins += [self.load(r, ('r',)) for r in refs]
                else:
                    outs += refs
            elif isref(pt) and not pt.startswith('const') and '&&' not in pt:
                if isinstance(v, (LV, Obj)) and self.prog.kind(t)[0] in ('mat', 'q', 'map', 'mapq'):
                    outs += list(self.view(Obj(v.ref, t), t).refs)
                elif self.prog.kind(t)[0] == 'rec' and self.leaves_of(t):
                    r = self.lvref(v)
                    outs += [(mapleaves(r, lambda x, p=p: leaf(Ref(x.loc + p))), k) for p, k in self.leaves_of(t)]
                elif isinstance(v, LV):
                    outs.append(v.ref)
                else:
                    outs += list(self.view(v, t).refs)
            elif isinstance(v, (LV, Obj)) and self.prog.kind(t)[0] in ('mat', 'q', 'map', 'mapq'):
                ins += list(self.mat_load(self.view(Obj(v.ref, t), t)).e)
            elif isinstance(v, (LV, Obj)) and self.prog.kind(t)[0] == 'rec' and self.leaves_of(t):
                r = self.lvref(v)
                ins += [self.load(mapleaves(r, lambda x, p=p: leaf(Ref(x.loc + p))), k) for p, k in self.leaves_of(t)]
            elif isinstance(v, LV):
                ins.append(self.load(v.ref, self.kindp(t)))
            elif isinstance(v, (EV, Mat)) or isinstance(v, Obj) and self.prog.kind(t)[0] in ('mat', 'q', 'map', 'mapq'):
                ins += list(self.mat_load(self.view(v, t)).e)
            elif isinstance(v, Obj):
                ins.append(v.ref)
            else:
                ins.append(v)
        ins = tuple(ins)
        ev = self.event(sq, None, list(ins), e)
        for j, r in enumerate(outs):
            k = ('r',)
            if isinstance(r, tuple):
                r, k = r
            self.store(r, self.uf((sq, j) + ins, k))
        t = self.etype(e)
        k = self.prog.kind(t)
        if k[0] == 'void':
            return None
        if k[0] == 'b':
            return alg.boolatom(atom('uf', (sq, 'ret') + ins, 'b'))
        if k[0] in ('r', 'i'):
            return leaf(pa(atom('uf', (sq, 'ret') + ins, k[0])))
        raise Undecided('result of abstract call %s' % sq)

    def uf(self, key, k):
        if k[0] in ('r', 'i'):
            return leaf(pa(atom('uf', key, k[0])))
        if k[0] == 'b':
            return alg.boolatom(atom('uf', key, 'b'))
        if k[0] == 'p':
            return leaf(Ref((('uf',) + key,)))
        return leaf(Ob('uf', *key))

    def lvref(self, v):
        if isinstance(v, (LV, Obj)):
            return mapleaves(v.ref, lambda x: leaf(self.norm_ptr(x)))
        raise Undecided('address of %r' % (v,))

    def inline_call(self, f, e):
        this = None
        if e.get('obj') is not None:
            o = self.ev(e['obj']) if e.get('arrow') else self.lv(e['obj'])
            if isinstance(o, Lam):
                return self.call_lambda(o, e['a'], e)
            if isinstance(o, (LV, Obj)):
                this = o.ref
            elif isinstance(o, N):
                this = o
            elif isinstance(o, EV):
                this = o
            else:
                raise Undecided('receiver %r' % (o,))
            if isinstance(this, N):
                this = mapleaves(this, lambda r: leaf(self.norm_ptr(r)))
        elif e.get('op') and e.get('cls') is not None and not f.get('static') and e.get('a') and f.get('clsq') and len(e['a']) == len(f['params']) + 1:
            o = self.lv(e['a'][0])
            this = o.ref if isinstance(o, (LV, Obj)) else o
            args = [self.e_any(x) for x in e['a'][1:]]
            return self.call_function(f, this, args, e)
        args = [self.e_any(x) for x in e['a']]
        return self.call_function(f, this, args, e)

    def call_lambda(self, lam, a, e):
        f = lam.fns[0]
        for g in lam.fns:
            if g.get('u') == e.get('f'):
                f = g
        if f.get('T') is None:
            f = dict(f)
        args = [self.e_any(x) for x in a] if a and isinstance(a[0], dict) else list(a)
        T = lam.frame.T
        return self.call_function(f, lam.frame.this, args, e, parent=lam.frame, T=T)

    def call_indirect(self, e):
        fx = e.get('fx')
        if fx is not None:
            o = self.lv(fx)
            if isinstance(o, Lam):
                return self.call_lambda(o, e['a'], e)
        raise Undecided('indirect call')

    def argkeys(self, e):
        out = []
        for x in e['a']:
            v = self.e_any(x)
            if isinstance(v, LV):
                k = self.prog.kind(self.etype(x))
                v = self.load(v.ref, self.kindp(self.etype(x))) if k[0] in ('r', 'i', 'b', 'p', 'str') else v.ref
            out.append(v)
        return out

    def event(self, name, recv, args, e=None, raw=None):
        ev = Event()
        ev.name, ev.recv, ev.args = name, recv, args
        ev.g = self.pc
        ev.loops = ()
        ev.seq = len(self.log)
        ev.fn = self.fr.f.get('q')
        ev.line = (self.fr.file, e.get('p') if e else None)
        ev.ret = None
        ev.raw = raw
        self.events.append(ev)
        return ev

    def opaque_call(self, e, sq):
        """a call kept abstract by the rule: event + uninterpreted result"""
        recv = None
        if e.get('obj') is not None:
            o = self.lv(e['obj'])
            recv = o.ref if isinstance(o, (LV, Obj)) else o
            if isinstance(recv, N):
                recv = mapleaves(recv, lambda r: leaf(self.norm_ptr(r)))
        args = []
        pts = [self.fr.T[t] for t in e.get('pt') or []]
        for i, x in enumerate(e['a']):
            y = x
            while y.get('k') == 'Cast' and y.get('ck') in ('BitCast', 'NoOp'):
                y = y['e']
            if y.get('k') == 'Un' and y.get('op') == '&' and i < len(pts) and pts[i].startswith('const ') and y['e'].get('k') == 'Ref' \
                    and y['e'].get('dk') == 'local' and self.prog.kind(self.etype(y['e']))[0] in ('r', 'i', 'b'):
                args.append(self.ev(y['e']))        # the value of a variable
                continue
            v = self.e_any(x)
            if isinstance(v, LV) and i < len(pts) and (not isref(pts[i]) or pts[i].startswith('const ') and not pts[i].rstrip().endswith('&&')) and self.prog.kind(pts[i])[0] in ('r', 'i', 'b', 'p', 'str'):
                v = self.rv(v, self.etype(x))
            args.append(v)
        if sq in ('std::make_shared', 'std::make_unique'):
            sq = '%s<%s>' % (sq, self.prog.kind(self.etype(e))[1])
        ev = self.event(sq, recv, args, e)
        if sq in self.clobber and isinstance(recv, N):
            self.havoc(recv, sq)
        if sq in self.clobber:
            # arguments handed over by mutable reference
            for i, (v, t) in enumerate(zip(args, pts)):
                if t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and not t.startswith('const ') and ' const &' not in t \
                        and isinstance(v, (LV, Obj)):
                    for d, gg in alg.leaves(v.ref):
                        if isinstance(d, Ref):
                            n = self.ordinal(('X', sq, i))
                            self.put(d.loc, (('Y', sq, n, i),) + self.itidx(), band(self.pc, gg), 'havoc')
        t = self.etype(e)
        k = self.kindp(t)
        if k[0] == 'void':
            return None
        n = self.ordinal(('R', sq))
        key = (('R', sq, n),) + self.itidx()
        ev.ret = key
        if k[0] in ('r', 'i', 'b', 'p', 'str'):
            v = self.initial(key, k)
            if e.get('lv'):
                return LV(leaf(Ref(key)))
            return v
        return Obj(leaf(Ref(key)), t)

    def unknown_call(self, e, sq):
        recv = None
        if e.get('obj') is not None:
            o = self.lv(e['obj'])
            recv = o.ref if isinstance(o, (LV, Obj)) else o
        args = [self.e_any(x) for x in e['a']]
        ev = self.event(sq, recv, args, e)
        self.note(('unknown', sq, self.line))
        # arguments passed by mutable reference or pointer may change
        for x, v in zip(e['a'], args):
            t = self.etype(x)
            if isinstance(v, LV) and not t.startswith('const') and x.get('lv'):
                self.havoc(v.ref, 'unknown')
            elif isinstance(v, Obj) and x.get('lv') and not t.startswith('const'):
                self.havoc(v.ref, 'unknown')
        if recv is not None and isinstance(recv, N) and not e.get('const'):
            try:
                self.havoc(recv, 'unknown')
            except Undecided:
                pass
        k = self.prog.kind(self.etype(e))
        if k[0] == 'void':
            return None
        if k[0] in ('r', 'i', 'b', 'p', 'str'):
            v = poison(sq, self.typ(k))
            return v
        self.frames += 1
        return Obj(leaf(Ref((('X', 'unknown:' + sq, self.frames, 0),))), self.etype(e))


_UNS = {'unsigned char': 8}     # unsigned types whose bits are followed


class LV:
    """address of a scalar or array"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


def L_writes(log, L):
    seen = set()
    for e in log:
        if e.loc in L.carried:
            continue
        if any(not isinstance(k[0], str) and e.loc[:len(k)] == k for k in L.carried):
            continue
        try:
            key = shape(e.loc)
        except Exception:
            continue
        if key in seen:
            continue
        seen.add(key)
        if isinstance(e.loc[0], tuple) and e.loc[0][0] == 'L' and any(isinstance(x, P) and L.it.id in x.free for x in e.loc):
            continue
        yield e


def mkless(p, key):
    d = dict(p.d)
    d.pop(key, None)
    return alg.mkp(d)


_pm = {}


def poisoned(x, extra=('PHI', 'POST', 'X')):
    """does the normal form contain a construct the analysis could not represent?"""
    if isinstance(x, N):
        k = ('n', x.id)
        r = _pm.get(k)
        if r is None:
            if x.c is None:
                r = poisoned(x.v)
            else:
                r = poisoned(x.c.L) or poisoned(x.hi) or poisoned(x.lo)
            _pm[k] = r
        return r
    if isinstance(x, P):
        k = ('p', x.id)
        r = _pm.get(k)
        if r is None:
            r = any(poisoned(_alist[a]) for m in x.d for a, _ in m)
            _pm[k] = r
        return r
    if isinstance(x, alg.Atom):
        if x.name == 'poison':
            return True
        if x.name == 'phi':
            return True
        k = ('a', x.id)
        r = _pm.get(k)
        if r is None:
            r = any(poisoned(y) for y in x.args)
            _pm[k] = r
        return r
    if isinstance(x, Ref):
        return poisoned(x.loc)
    if isinstance(x, tuple):
        if x and x[0] in extra:
            return True
        return any(poisoned(y) for y in x)
    if isinstance(x, S):
        return any(poisoned(p[1]) for p in x.parts if p[0] == 'n')
    if isinstance(x, Ob):
        return x.key[0] in ('poison', 'phi', 'post') or any(poisoned(y) for y in x.key)
    if isinstance(x, (list,)):
        return any(poisoned(y) for y in x)
    return False
