"""Protocol of a driver function: the regular language of the calls it makes and the guards it passes, read off its control flow (helper
functions inlined).  Two functions follow the same protocol when their automata accept the same language."""
from prog import strip

FLIP = {'>': '<', '>=': '<=', '<': '>', '<=': '>='}


class Unknown(Exception):
    pass


class Frame:
    def __init__(self, f, env, this):
        self.f, self.env, self.this = f, env, this
        self.T = f['T']


class Protocol:
    def __init__(self, p, f, events):
        self.p, self.events = p, events
        self.edges = []         # (from, letter or None, to)
        self.n = 0
        self.depth = 0
        self.functions = {f['q']}
        fr = Frame(f, {x['id']: 'argument %d' % i for i, x in enumerate(f['params'])}, None)
        self.start, self.stop = self.node(), self.node()
        self.written = self.assigned(f['body'])
        end = self.stmt(fr, f['body'], self.start, dict(ret=self.stop))
        self.eps(end, self.stop)

    # ------------------------------------------------------------------ automaton
    def node(self):
        self.n += 1
        return self.n

    def eps(self, a, b):
        if a is not None:
            self.edges.append((a, None, b))

    def emit(self, a, letter):
        b = self.node()
        self.edges.append((a, letter, b))
        return b

    def assigned(self, x, out=None):
        """ids of locals that are assigned after their declaration"""
        out = set() if out is None else out
        if isinstance(x, list):
            for y in x:
                self.assigned(y, out)
        elif isinstance(x, dict):
            t = None
            if x.get('k') in ('Asg', 'CAsg'):
                t = x['l']
            elif x.get('k') == 'Un' and x.get('op') in ('++', '--'):
                t = x['e']
            elif x.get('k') == 'Call' and x.get('op') in ('=', '+='):
                t = x.get('obj') or (x['a'] or [None])[0]
            while isinstance(t, dict) and t.get('k') == 'Cast':
                t = t['e']
            if isinstance(t, dict) and t.get('k') == 'Ref':
                out.add(t.get('id'))
            for k, y in x.items():
                if isinstance(y, (dict, list)) and k not in ('T',):
                    self.assigned(y, out)
        return out

    # ------------------------------------------------------------------ expressions
    def text(self, fr, e):
        k = e.get('k')
        if k == 'Cast':
            return self.text(fr, e['e'])
        if k in ('Int', 'Float', 'Bool'):
            return str(e.get('v'))
        if k == 'Str':
            return '"%s"' % e.get('v')
        if k == 'This':
            return fr.this or 'this'
        if k == 'Ref':
            if e.get('dk') == 'enum':
                return str(e.get('cv'))
            if e.get('id') in fr.env and e.get('dk') != 'global':
                v = fr.env[e['id']]
                if v is None:
                    raise Unknown('value of %s' % e.get('n'))
                return v
            return e.get('q') or e.get('n') or '?'
        if k == 'Mem':
            return '%s.%s' % (self.text(fr, e['b']), e['n'])
        if k == 'Un':
            if e['op'] in ('&', '*', '+'):
                return '%s%s' % (e['op'] if e['op'] != '+' else '', self.text(fr, e['e']))
            if e['op'] in ('!', '-'):
                return '%s(%s)' % (e['op'], self.text(fr, e['e']))
            raise Unknown('operator %s' % e['op'])
        if k == 'Bin':
            l, r, op = self.text(fr, e['l']), self.text(fr, e['r']), e['op']
            if op in ('+', '*', '==', '!=', '&&', '||') and r < l:
                l, r = r, l
            if op in ('>', '>='):
                l, r, op = r, l, FLIP[op]
            return '(%s %s %s)' % (l, op, r)
        if k == 'Cond':
            return '(%s ? %s : %s)' % tuple(self.text(fr, e[x]) for x in 'cab')
        if k == 'Ctor':
            q = strip(e.get('q') or '')
            if 'basic_string' in q or e.get('copy'):
                return self.text(fr, e['a'][0]) if e['a'] else '""'
            if not e['a']:
                return '<%s>' % q.split('::')[0]
            return '%s(%s)' % (q.split('::')[0], ', '.join(self.text(fr, a) for a in e['a']))
        if k == 'Call':
            q = strip(e.get('q') or '')
            f = self.p.fn.get(e.get('f'))
            if q not in self.events and f is not None and f.get('body') and f['F'].startswith(_roots()):
                b = f['body']['b'] if f['body'].get('k') == 'Block' else [f['body']]
                b = [s for s in b if s.get('k') != 'Null']
                if len(b) == 1 and b[0].get('k') == 'Return' and b[0].get('e'):
                    inner = Frame(f, self.bind(fr, f, e), self.text(fr, e['obj']) if e.get('obj') else None)
                    return self.text(inner, b[0]['e'])
            obj = self.text(fr, e['obj']) + '.' if e.get('obj') else ''
            return '%s%s(%s)' % (obj, q, ', '.join(self.text(fr, a) for a in e['a'] if a.get('k') != 'DefArg' or True))
        raise Unknown('expression %s' % k)

    def bind(self, fr, f, e):
        env = {}
        for x, a in zip(f['params'], e['a']):
            try:
                env[x['id']] = self.text(fr, a)
            except Unknown:
                env[x['id']] = None
        return env

    def run(self, fr, e, at):
        """events of evaluating e, in order; returns the node afterwards"""
        if not isinstance(e, dict):
            return at
        k = e.get('k')
        if k == 'Lambda':
            return at
        if k in ('Call', 'Ctor'):
            q = strip(e.get('q') or '')
            for y in ([e['obj']] if e.get('obj') else []) + list(e['a']):
                at = self.run(fr, y, at)
            f = self.p.fn.get(e.get('f'))
            if q in self.events:
                obj = self.text(fr, e['obj']) if e.get('obj') else ''
                return self.emit(at, (q, obj) + tuple(self.text(fr, a) for a in e['a']))
            if f is not None and f.get('body') and f['F'].startswith(_roots()) and not f.get('defaulted') and self.relevant(f):
                return self.inline(fr, f, e, at, self.text(fr, e['obj']) if e.get('obj') else '<%s>' % q.split('::')[0] if k == 'Ctor' else None)
            return at
        if k in ('Asg', 'CAsg'):
            at = self.run(fr, e['r'], at)
            l = e['l']
            while l.get('k') == 'Cast':
                l = l['e']
            if l.get('k') == 'Mem':
                return self.emit(at, ('set', self.text(fr, l), e.get('op') or '=', self.text(fr, e['r'])))
            return at
        if k == 'Bin' and e.get('op') in ('&&', '||') or k == 'Cond':
            if any(self.has(fr, e[x]) for x in ('l', 'r', 'a', 'b') if isinstance(e.get(x), dict)):
                raise Unknown('call inside %s' % (e.get('op') or '?:'))
        for key, y in e.items():
            if isinstance(y, dict):
                at = self.run(fr, y, at)
            elif isinstance(y, list):
                for z in y:
                    if isinstance(z, dict):
                        at = self.run(fr, z, at)
        return at

    def has(self, fr, x):
        from prog import calls
        for c in calls(x):
            if strip(c['q']) in self.events:
                return True
            f = self.p.fn.get(c.get('f'))
            if f is not None and f.get('body') and f['F'].startswith(_roots()) and self.relevant(f):
                return True
        return False

    def relevant(self, f, seen=None):
        """whether a call of f can reach an event"""
        seen = set() if seen is None else seen
        if f['u'] in seen:
            return False
        seen.add(f['u'])
        from prog import calls
        for c in calls(f.get('body')):
            if strip(c['q']) in self.events:
                return True
            g = self.p.fn.get(c.get('f'))
            if g is not None and g.get('body') and g['F'].startswith(_roots()) and self.relevant(g, seen):
                return True
        return False

    def inline(self, fr, f, e, at, this):
        if self.depth > 12:
            raise Unknown('recursion in %s' % f['q'])
        self.depth += 1
        self.functions.add(f['q'])
        self.written |= self.assigned(f['body'])
        inner = Frame(f, self.bind(fr, f, e), this)
        out = self.node()
        end = self.stmt(inner, f['body'], at, dict(ret=out))
        self.eps(end, out)
        self.depth -= 1
        return out

    def cond(self, fr, e, at, yes, no):
        """guards of condition e from node at"""
        while e.get('k') == 'Cast':
            e = e['e']
        k = e.get('k')
        if k == 'Un' and e['op'] == '!':
            return self.cond(fr, e['e'], at, no, yes)
        if k == 'Bin' and e['op'] in ('&&', '||'):
            mid = self.node()
            if e['op'] == '&&':
                self.cond(fr, e['l'], at, mid, no)
            else:
                self.cond(fr, e['l'], at, yes, mid)
            return self.cond(fr, e['r'], mid, yes, no)
        if k in ('Bool', 'Int'):
            on = str(e.get('v')) not in ('0', 'false', 'False')
            return self.eps(at, yes if on else no)
        at = self.run(fr, e, at)
        t = self.text(fr, e)
        while t.startswith('!(') and t.endswith(')'):
            t, yes, no = t[2:-1], no, yes
        if k == 'Bin' and e['op'] in ('<', '>', '<=', '>='):
            l, r = self.text(fr, e['l']), self.text(fr, e['r'])
            if e['op'] in ('>', '<='):
                l, r = r, l
            if e['op'] in ('>=', '<='):
                yes, no = no, yes
            t = '(%s < %s)' % (l, r)
        elif k == 'Bin' and e['op'] == '!=':
            t, yes, no = t.replace(' != ', ' == '), no, yes
        self.edges.append((at, ('if', t), yes))
        self.edges.append((at, ('unless', t), no))

    # ------------------------------------------------------------------ statements
    def silent(self, fr, s):
        """whether statement s has no event and does not leave the enclosing statements"""
        from prog import walk
        for x in walk(s):
            k = x.get('k')
            if k in ('Return', 'Break', 'Continue', 'Throw', 'Goto'):
                return False
            if k in ('Asg', 'CAsg'):
                l = x['l']
                while l.get('k') == 'Cast':
                    l = l['e']
                if l.get('k') == 'Mem':
                    return False
            if k == 'Call' and strip(x.get('q') or '') in ('exit', 'std::exit', 'abort', 'std::abort', 'MPI_Abort'):
                return False
        return not self.has(fr, s)

    def stmt(self, fr, s, at, to):
        """returns the node after s (None when s never ends normally)"""
        if at is None or s is None:
            return at
        k = s.get('k')
        if k in ('Null', 'Label'):
            return at
        if k == 'Block':
            for x in s['b']:
                at = self.stmt(fr, x, at, to)
            return at
        if k == 'Expr':
            at = self.run(fr, s['e'], at)
            c = s['e']
            while c.get('k') == 'Cast':
                c = c['e']
            if c.get('k') == 'Call' and strip(c.get('q') or '') in ('exit', 'std::exit', 'abort', 'std::abort', 'MPI_Abort'):
                self.emit(at, ('stop',))
                return None
            return at
        if k == 'Decl':
            for d in s['d']:
                v = '<%s>' % strip(fr.T[d['t']]).split('::')[-1]
                if d.get('init'):
                    at = self.run(fr, d['init'], at)
                    if d['init'].get('k') != 'Ctor' or d['init'].get('a'):
                        try:
                            v = None if d['id'] in self.written else self.text(fr, d['init'])
                        except Unknown:
                            v = None
                        if v is not None and d['init'].get('k') == 'Ctor' and v.startswith('SylinderSystem('):
                            v = '<SylinderSystem>'
                fr.env[d['id']] = v
            return at
        if k == 'Return':
            if s.get('e'):
                at = self.run(fr, s['e'], at)
                if self.depth == 0:
                    at = self.emit(at, ('return', self.text(fr, s['e'])))
            self.eps(at, to['ret'])
            return None
        if k == 'Break':
            self.eps(at, to['brk'])
            return None
        if k == 'Continue':
            self.eps(at, to['cnt'])
            return None
        if k == 'If':
            if self.silent(fr, s):
                return at
            y, n, out = self.node(), self.node(), self.node()
            self.cond(fr, s['c'], at, y, n)
            self.eps(self.stmt(fr, s['a'], y, to), out)
            self.eps(self.stmt(fr, s.get('b'), n, to), out)
            return out
        if k in ('While', 'For', 'Do', 'RFor') and self.silent(fr, s):
            return at
        if k in ('While', 'For'):
            if s.get('init'):
                at = self.stmt(fr, s['init'] if s['init'].get('k') in ('Decl', 'Expr') else {'k': 'Expr', 'e': s['init']}, at, to)
            head, body, out, inc = self.node(), self.node(), self.node(), self.node()
            self.eps(at, head)
            if s.get('c'):
                self.cond(fr, s['c'], head, body, out)
            else:
                self.eps(head, body)
            self.eps(self.stmt(fr, s['b'], body, dict(to, brk=out, cnt=inc)), inc)
            self.eps(self.run(fr, s['inc'], inc) if s.get('inc') else inc, head)
            return out
        if k == 'Do':
            head, test, out = self.node(), self.node(), self.node()
            self.eps(at, head)
            self.eps(self.stmt(fr, s['b'], head, dict(to, brk=out, cnt=test)), test)
            self.cond(fr, s['c'], test, head, out)
            return out
        if self.silent(fr, s):
            return at
        raise Unknown('statement %s' % k)

    # ------------------------------------------------------------------ language
    def closure(self, S):
        S, todo = set(S), list(S)
        while todo:
            x = todo.pop()
            for a, l, b in self.out.get(x, ()):
                if l is None and b not in S:
                    S.add(b)
                    todo.append(b)
        return frozenset(S)

    def prepare(self):
        self.out = {}
        for e in self.edges:
            self.out.setdefault(e[0], []).append(e)
        return self.closure({self.start})

    def step(self, S):
        r = {}
        for x in S:
            for a, l, b in self.out.get(x, ()):
                if l is not None:
                    r.setdefault(l, set()).add(b)
        return {l: self.closure(t) for l, t in r.items()}

    def letters(self):
        return {l for a, l, b in self.edges if l is not None}


def _roots():
    import prog
    return (prog.REPO, prog.VERIF)


def difference(a, b):
    """shortest sequence of events that one of the automata follows and the other does not: (sequence, which) or None"""
    s = (a.prepare(), b.prepare())
    seen, todo = {s}, [(s, ())]
    while todo:
        (x, y), w = todo.pop(0)
        fx, fy = a.stop in x, b.stop in y
        if fx != fy:
            return w + (('end',),), 1 if fx else 2
        p, q = a.step(x), b.step(y)
        for l in sorted(set(p) | set(q), key=str):
            if l not in p or l not in q:
                return w + (l,), 1 if l in p else 2
            n = (p[l], q[l])
            if n not in seen:
                seen.add(n)
                todo.append((n, w + (l,)))
    return None


def show(l):
    return '%s' % (l[0] if len(l) == 1 else '%s %s' % (l[0], ', '.join(str(x) for x in l[1:] if x != '')))


def check(c, p, q, spec, rule, events):
    f, g = p.find(q), p.find('spec::' + spec)
    where = '%s (%s:%s)' % (f['q'], f['F'].split('/', 2)[-1] if False else f['F'].replace(_roots()[0] + '/', ''), f['line'])
    try:
        a, b = Protocol(p, f, events), Protocol(p, g, events)
        d = difference(a, b)
    except Unknown as u:
        c.und(rule, where, 'not analysable: %s' % u)
        return
    c.functions |= a.functions
    if d is None:
        for l in sorted(a.letters(), key=str):
            c.ok(rule, where, show(l))
        return
    w, side = d
    c.bad(rule, where, 'after [%s] the program %s [%s]' % ('; '.join(show(l) for l in w[:-1]), 'does, but must not,' if side == 1 else 'must, but does not,', show(w[-1])))
