"""Collective calls: every rank must make the same collective calls in the same order.  Data that may differ between ranks is
tracked from its sources (rank, local particles, local vector entries, thread data, clocks) through variables, fields, calls and
control flow; a collective call whose execution depends on such data is reported unless every path makes the same calls."""
from prog import strip, tk, walk

COLL = {'MPI_Allreduce', 'MPI_Reduce', 'MPI_Bcast', 'MPI_Barrier', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Scatter',
        'MPI_Scatterv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Scan', 'MPI_Exscan', 'MPI_Comm_split', 'MPI_Comm_dup', 'MPI_Comm_create',
        'MPI_Init', 'MPI_Finalize', 'MPI_Init_thread', 'MPI_Reduce_scatter', 'MPI_Ibarrier', 'MPI_Iallreduce', 'MPI_Alltoallw',
        'MPI_File_open', 'MPI_File_close', 'MPI_File_write_all', 'MPI_File_read_all', 'MPI_File_write_at_all', 'MPI_Comm_free',
        'Teuchos::reduceAll', 'Teuchos::broadcast', 'Teuchos::gatherAll', 'Teuchos::gather', 'Teuchos::scan', 'Teuchos::barrier', 'Teuchos::reduce',
        'Teuchos::scatter', 'Teuchos::reduceAllAndScatter', 'ParticleSimulator::Initialize', 'ParticleSimulator::Finalize'}
# member functions: (class prefix, names)
COLLM = [('Teuchos::Comm', {'barrier', 'broadcast', 'gatherAll', 'reduceAll', 'scan', 'split', 'duplicate', 'createSubcommunicator'}),
         ('Tpetra::Map', {'Map', 'isSameAs', 'isCompatible', 'getRemoteIndexList', 'isOneToOne', 'createOneToOne'}),
         ('Tpetra::createUniformContigMap', None), ('Tpetra::createOneToOne', None),
         ('Tpetra::MultiVector', {'norm1', 'norm2', 'normInf', 'dot', 'meanValue', 'doImport', 'doExport', 'reduce', 'normWeighted', 'describe'}),
         ('Tpetra::Vector', {'norm1', 'norm2', 'normInf', 'dot', 'meanValue', 'doImport', 'doExport', 'normWeighted', 'describe'}),
         ('Tpetra::DistObject', {'doImport', 'doExport', 'describe'}), ('Tpetra::RowMatrix', {'apply', 'getFrobeniusNorm'}),
         ('Tpetra::CrsMatrix', {'fillComplete', 'apply', 'resumeFill', 'expertStaticFillComplete', 'globalAssemble', 'applyNonTranspose', 'applyTranspose',
                                'getFrobeniusNorm', 'describe'}), ('Tpetra::Operator', {'apply'}),
         ('Tpetra::MatrixMarket::', None), ('MatrixMarket::', None), ('Tpetra::RowMatrixTransposer', {'createTranspose'}),
         ('Belos::', {'solve', 'setProblem', 'iterate'}), ('Ifpack2::', {'compute', 'initialize', 'apply'}),
         ('ParticleSimulator::ParticleSystem', {'exchangeParticle', 'getNumberOfParticleGlobal', 'setAverageTargetNumberOfSampleParticlePerProcess',
                                               'readParticleAscii', 'writeParticleAscii', 'initialize'}),
         ('ParticleSimulator::DomainInfo', {'decomposeDomain', 'decomposeDomainAll', 'collectSampleParticle', 'initialize', 'decomposeDomain2'}),
         ('ParticleSimulator::TreeForForce', {'calcForceAll', 'calcForceAllAndWriteBack', 'makeGlobalTree', 'exchangeLocalEssentialTree', 'initialize'}),
         ('ParticleSimulator::Comm', {'barrier', 'getMaxValue', 'getMinValue', 'getSum', 'broadcast', 'gather', 'allGather', 'allToAll', 'allToAllV',
                                      'gatherV', 'allGatherV', 'gatherVAll', 'gatherAll', 'synchronizeConditionalBranchAND', 'synchronizeConditionalBranchOR'}),
         ('Zoltan_DD_', None), ('Zoltan_DD::', {'Find', 'Update', 'Remove', 'Create', 'Stats', 'Print'}), ('Zoltan_Initialize', None)]
# the value is the same on every rank
UNIF = {'norm1', 'norm2', 'normInf', 'dot', 'meanValue', 'getGlobalLength', 'getGlobalNumElements', 'getGlobalNumRows', 'getGlobalNumCols',
        'getGlobalNumEntries', 'isFillComplete', 'is_null', 'nonnull', 'getSize', 'getNumVectors', 'getMaxAllGlobalIndex', 'getMinAllGlobalIndex',
        'getNumberOfProc', 'use_count', 'isSameAs', 'isCompatible', 'getComm', 'getIndexBase', 'getNumberOfParticleGlobal', 'isContiguous',
        'getMap', 'getDomainMap', 'getRangeMap', 'getRowMap', 'getColMap', 'getFrobeniusNorm'}
# the value may differ from rank to rank
LOCAL = {'getRank', 'getMyRank', 'getLocalLength', 'getNodeNumElements', 'getLocalNumElements', 'getNumberOfParticleLocal', 'getLocalView', 'getLocalViewHost',
         'getData', 'getDataNonConst', 'getNodeNumRows', 'getNodeNumEntries', 'getMinGlobalIndex', 'getMaxGlobalIndex', 'getLocalElement', 'get1dView',
         'getGlobalElement', 'getNodeElementList', 'getMyGlobalIndices', 'getU01', 'getN01', 'getLN', 'getUAB', 'getBE', 'getLocalRowView', 'isNodeLocalElement'}
LOCALFN = {'omp_get_thread_num', 'MPI_Wtime', 'omp_get_wtime', 'clock', 'std::clock', 'time', 'std::time', 'rand', 'std::rand', 'getpid', 'gethostname',
           'std::chrono::high_resolution_clock::now', 'std::chrono::system_clock::now', 'std::chrono::steady_clock::now',
           'ParticleSimulator::Comm::getRank', 'ParticleSimulator::GetWtime'}
ABORT = {'exit', 'std::exit', 'abort', 'std::abort', 'MPI_Abort', 'std::terminate', '_exit', 'std::quick_exit', 'ParticleSimulator::Abort'}
# (function, output argument) made the same on all ranks
SYNC = {'MPI_Allreduce': (1,), 'MPI_Bcast': (0,), 'MPI_Allgather': (3,), 'MPI_Allgatherv': (3,)}
SPREAD = {'MPI_Comm_rank': (1,), 'MPI_Reduce': (1,), 'MPI_Gather': (3,), 'MPI_Gatherv': (3,), 'MPI_Scatter': (3,), 'MPI_Scatterv': (4,), 'MPI_Alltoall': (3,),
          'MPI_Alltoallv': (4,), 'MPI_Scan': (1,), 'MPI_Exscan': (1,), 'MPI_Recv': (0,), 'MPI_Comm_size': ()}


def collective(sq):
    if sq in COLL:
        return True
    last = sq.rsplit('::', 1)[-1]
    for cls, names in COLLM:
        if sq.startswith(cls) and (names is None or last in names):
            return True
    return False


class Frame:
    def __init__(self, f, T, parent=None):
        self.f, self.T, self.parent = f, T, parent
        self.alias = {}       # reference variable -> keys it stands for
        self.taint = {}       # local variable -> reason or None
        self.left = None      # reason why some ranks may have left the function already
        self.ret = None
        self.lams = {}

    def find(self, i):
        fr = self
        while fr is not None:
            if i in fr.taint or i in fr.alias or i in fr.lams:
                return fr
            fr = fr.parent
        return None


class Walker:
    def __init__(self, prog, fields):
        self.prog = prog
        self.fields = fields      # 'Class::field' -> reason
        self.ctl = []             # reasons: data local to the rank that decides whether this point is reached
        self.reports = {}
        self.calls = {}           # collective call sites visited
        self.conds = 0
        self.depth = 0
        self.stack = []
        self.fr = None
        self.loops = []

    def function(self, f):
        fr = Frame(f, f['T'])
        for p in f['params']:
            t = f['T'][p['t']].strip()
            k = self.prog.kind(t)
            local = k[0] in ('vec', 'arr') or k[0] == 'p' and self.prog.kind(k[1])[0] in ('r', 'i', 'b')
            fr.taint[p['id']] = 'the contents of parameter %s' % p['n'] if local else None
        self.fr = fr
        for i in f.get('inits') or []:
            if i.get('e') is not None:
                t, _ = self.ex(i['e'])
                if i.get('n') or i.get('m'):
                    self.put([('F', '%s::%s' % (strip(f.get('clsq') or ''), i.get('n') or i.get('m')))], t)
        return self.stmt(f.get('body'))

    # ------------------------------------------------------------ data
    def keys(self, e):
        """storage that an lvalue (or pointer) expression refers to: [('L', frame, id)] or [('F', field)]"""
        while isinstance(e, dict):
            k = e.get('k')
            if k in ('Cast', 'Un'):
                e = e['e']
            elif k == 'Idx':
                e = e['b']
            elif k == 'Mem':
                own = strip(self.fr.T[e['fo']]) if e.get('fo') is not None else ''
                b = e.get('b')
                while isinstance(b, dict) and b.get('k') == 'Cast':
                    b = b['e']
                if b is None or b.get('k') == 'This' or e.get('arrow') or b.get('k') == 'Mem':
                    return [('F', '%s::%s' % (own, e['n']))]
                ks = self.keys(b)
                # a member of an element or of a local object is part of that object
                return [x if x[0] == 'L' else x for x in ks] or [('F', '%s::%s' % (own, e['n']))]
            elif k == 'Ref':
                if e.get('id') is not None:
                    fr = self.fr.find(e['id'])
                    if fr is not None:
                        if e['id'] in fr.alias:
                            return fr.alias[e['id']]
                        return [('L', fr, e['id'])]
                return [('F', e.get('q') or e.get('n'))]
            elif k == 'Call':
                if e.get('obj') is not None:
                    e = e['obj']
                elif e.get('a'):
                    e = e['a'][0]
                else:
                    return []
            elif k == 'Ctor' and len(e.get('a') or []) >= 1:
                e = e['a'][0]
            else:
                return []
        return []

    def get(self, ks):
        for k in ks:
            r = k[1].taint.get(k[2]) if k[0] == 'L' else self.fields.get(k[1])
            if r:
                return r
        return None

    def put(self, ks, r, strong=False):
        r = r or (self.ctl[-1] if self.ctl else None)
        for k in ks:
            if k[0] == 'L':
                if r or strong:
                    k[1].taint[k[2]] = r
            elif r or strong:
                if r:
                    self.fields[k[1]] = r
                else:
                    self.fields.pop(k[1], None)

    # ------------------------------------------------------------ expressions: (reason or None, trace of collective calls)
    def ex(self, e):
        if e is None:
            return None, []
        if isinstance(e, list):
            r, tr = None, []
            for x in e:
                a, b = self.ex(x)
                r, tr = r or a, tr + b
            return r, tr
        k = e.get('k')
        m = getattr(self, 'x_' + (k or ''), None)
        if m:
            return m(e)
        r, tr = None, []
        for key in ('e', 'l', 'r', 'c', 'b', 'i', 'n', 'init', 'a'):
            x = e.get(key)
            if isinstance(x, (dict, list)):
                a, b = self.ex(x)
                r, tr = r or a, tr + b
        return r, tr

    def x_Ref(self, e):
        if e.get('id') is not None:
            fr = self.fr.find(e['id'])
            if fr is not None and e['id'] in fr.lams:
                return None, []
        return self.get(self.keys(e)), []

    def x_Mem(self, e):
        r, tr = self.ex(e['b']) if e.get('b') is not None else (None, [])
        return self.get(self.keys(e)) or r, tr

    def x_This(self, e):
        return None, []

    def x_Lambda(self, e):
        return None, []

    def x_SizeOf(self, e):
        return None, []

    def x_Asg(self, e):
        r, tr = self.ex(e['r'])
        ri, t2 = self.index(e['l'])
        l = e['l']
        while l.get('k') == 'Cast':
            l = l['e']
        if self.handle(l):
            self.setnull(self.keys(l))
        self.put(self.keys(l), r or ri, strong=l.get('k') == 'Ref' or l.get('k') == 'Mem' and not self.ctl)
        return r, tr + t2

    def index(self, l):
        """reason from the indices used in an lvalue"""
        r, tr = None, []
        while isinstance(l, dict):
            if l.get('k') == 'Idx':
                a, b = self.ex(l['i'])
                r, tr, l = r or a, tr + b, l['b']
            elif l.get('k') in ('Cast', 'Un'):
                l = l['e']
            elif l.get('k') == 'Mem':
                l = l.get('b')
            elif l.get('k') == 'Call':
                a, b = self.ex(l['a'])
                r, tr, l = r or a, tr + b, l.get('obj')
            else:
                break
        return r, tr

    def x_CAsg(self, e):
        r, tr = self.ex(e['r'])
        a, b = self.ex(e['l'])
        self.put(self.keys(e['l']), r)
        return r or a, tr + b

    def handle(self, e):
        return self.prog.kind(self.fr.T[e['t']])[0] == 'p' if e.get('t') is not None else False

    def nullness(self, e):
        """reason why a pointer may be null on some ranks only"""
        ks = self.keys(e)
        for k in ks:
            r = k[1].taint.get(('null', k[2])) if k[0] == 'L' else self.fields.get(k[1] + ' (being null)')
            if r:
                return r
        return None

    def setnull(self, ks):
        r = self.ctl[-1] if self.ctl else None
        for k in ks:
            if r:
                if k[0] == 'L':
                    k[1].taint[('null', k[2])] = r
                else:
                    self.fields[k[1] + ' (being null)'] = r

    def x_Cast(self, e):
        if e.get('ck') in ('PointerToBoolean', 'MemberPointerToBoolean'):
            r, tr = self.ex(e['e'])
            return self.nullness(e['e']), tr
        return self.ex(e['e'])

    def x_Un(self, e):
        r, tr = self.ex(e['e'])
        if e['op'] == '!' and self.handle(e['e']):
            return self.nullness(e['e']), tr
        if e['op'] in ('++', '--'):
            self.put(self.keys(e['e']), None)
        return r, tr

    def x_Bin(self, e):
        r, tr = self.ex(e['l'])
        if e['op'] in ('==', '!='):
            for x, y in ((e['l'], e['r']), (e['r'], e['l'])):
                while y.get('k') == 'Cast':
                    y = y['e']
                if y.get('k') == 'Null':
                    return self.nullness(x), tr
        if e['op'] in ('&&', '||'):
            s, t2 = self.branch(r, e['r'], e)
            return r or s, tr + t2
        s, t2 = self.ex(e['r'])
        return r or s, tr + t2

    def branch(self, r, x, at):
        if r:
            self.ctl.append(r)
        s, t2 = self.ex(x)
        if r:
            self.ctl.pop()
            if t2:
                self.differ(t2, [], r)
        return s, t2

    def x_Cond(self, e):
        r, tr = self.ex(e['c'])
        if r:
            self.ctl.append(r)
        a, t1 = self.ex(e['a'])
        b, t2 = self.ex(e['b'])
        if r:
            self.ctl.pop()
            if names(t1) != names(t2):
                self.differ(t1, t2, r)
        return r or a or b, tr + (t1 if names(t1) == names(t2) else [('if', names(t1), names(t2), t1 + t2)] if t1 or t2 else [])

    def x_Ctor(self, e):
        t = self.fr.T[e['t']] if e.get('t') is not None else ''
        r, tr = self.ex(e.get('a') or [])
        f = self.prog.fn.get(e.get('f'))
        sq = strip(e.get('q') or '')
        if collective(sq):
            tr = tr + [self.coll(sq, e)]
        elif f is not None and f.get('body') is not None and self.mine(f) and not e.get('copy') and self.depth < 9 and f['u'] not in self.stack:
            tr = tr + self.inline(f, e, e.get('a') or [])[1]
        return r, tr

    def x_New(self, e):
        return self.ex([x for x in (e.get('n'), e.get('init')) if isinstance(x, dict)])

    def mine(self, f):
        F = f.get('F') or ''
        return not F.startswith('/usr/') and '/FDPS/' not in F and 'stubs/' not in F and '/spdlog/' not in F

    def coll(self, sq, e):
        site = (self.fr.f.get('q'), (self.fr.f.get('F') or ''), e.get('p') or self.line, sq)
        self.calls[site] = self.calls.get(site, 0) + 1
        left = None
        fr = self.fr
        for fr, _ in [(self.fr, 0)] + [(x, 0) for x in self.frames]:
            left = left or fr.left
        if left:
            self.report(site, left)
        for l in self.loops:
            if l[0]:
                self.report(site, l[0])
        return ('c', sq.rsplit('::', 1)[-1], site)

    frames = []
    line = None

    def report(self, site, why):
        self.reports.setdefault(site, why)

    def differ(self, t1, t2, why):
        """collective calls made by some ranks only"""
        a, b = sites(t1), sites(t2)
        for s in (a or b)[:1]:
            self.report(s, why)

    def x_Call(self, e):
        q = e.get('q')
        if q is None:
            r, tr = self.ex(e['a'])
            return r, tr
        sq = strip(q)
        last = sq.rsplit('::', 1)[-1]
        args = e['a']
        if isinstance(e.get('p'), int):
            self.line = e['p']
        if sq in LOCALFN:
            self.ex(args)
            return 'the value of %s' % last, []
        f = self.prog.fn.get(e.get('f'))
        if e.get('obj') is not None and e.get('op') == '()':
            x = e['obj']
            while x.get('k') == 'Cast':
                x = x['e']
            if x.get('k') == 'Ref' and x.get('id') is not None:
                fr = self.fr.find(x['id'])
                if fr is not None and x['id'] in fr.lams:
                    lam, lfr = fr.lams[x['id']]
                    g = next((g for g in lam['fns'] if g.get('u') == e.get('f')), lam['fns'][0])
                    g = dict(g, F=lfr.f.get('F'), T=g.get('T') or lfr.T)
                    return self.inline(g, e, args, parent=lfr)
        if sq.startswith(('spdlog::', 'fmt::')):
            return self.ex(args)
        if collective(sq):
            ro, tr = self.ex(e['obj']) if e.get('obj') is not None else (None, [])
            r, t2 = self.ex(args)
            c = self.coll(sq, e)
            self.effects(e, sq, last, r)
            if last in UNIF:
                return None, tr + t2 + [c]
            return (r or ro) if 'exchange' not in last else None, tr + t2 + [c]
        if f is not None and f.get('body') is not None and self.mine(f) and self.depth < 9 and f['u'] not in self.stack and last not in LOCAL:
            ro, tr = self.ex(e['obj']) if e.get('obj') is not None else (None, [])
            r, t2 = self.inline(f, e, args)
            return r, tr + t2
        ro, tr = self.ex(e['obj']) if e.get('obj') is not None else (None, [])
        vals = []
        r = None
        for x in args:
            a, b = self.ex(x)
            tr = tr + b
            vals.append(a)
            r = r or a
        if last in LOCAL or 'ParticleSystem' in sq and last == 'operator[]':
            if last != 'getLocalElement' or r:
                return 'the value of %s' % last, tr
        self.effects(e, sq, last, r)
        if e.get('obj') is not None and last in ('operator bool', 'is_null', 'nonnull', 'operator _Bool'):
            return self.nullness(e['obj']), tr
        if e.get('op') in ('==', '!=') and any(peel(x).get('k') == 'Null' for x in args):
            x = e['obj'] if e.get('obj') is not None else args[0]
            return self.nullness(x), tr
        if last in UNIF:
            return None, tr
        return r or ro, tr

    def effects(self, e, sq, last, r):
        pts = [self.fr.T[t] for t in e.get('pt') or []]
        args = e['a']
        done = set()
        if sq == 'Teuchos::reduceAll' and len(args) >= 2:
            self.put(self.keys(args[-1]), None, strong=not self.ctl)
            done.add(len(args) - 1)
        if sq in ('Teuchos::broadcast', 'Teuchos::gatherAll'):
            self.put(self.keys(args[-1]), None, strong=not self.ctl)
            done.add(len(args) - 1)
        for i in SYNC.get(sq, ()):
            self.put(self.keys(args[i]), None, strong=not self.ctl)
            done.add(i)
        for i in SPREAD.get(sq, ()):
            self.put(self.keys(args[i]), 'the rank' if 'rank' in sq else 'what %s delivers to this rank' % sq)
        if sq.startswith('MPI_'):
            return
        if e.get('obj') is not None and not e.get('const'):
            nonw = last in ('begin', 'end', 'data', 'operator[]', 'at', 'front', 'back', 'operator->', 'operator*', 'get', 'find')
            if not nonw:
                strong = last in ('operator=', 'clear', 'reset', 'assign') and not self.ctl
                if last in ('operator=', 'reset', 'swap') and self.handle(e['obj']):
                    self.setnull(self.keys(e['obj']))
                self.put(self.keys(e['obj']), r, strong=strong)
        for i, (x, t) in enumerate(zip(args, pts)):
            t = t.strip()
            if i not in done and t.endswith(('&', '*')) and 'const ' not in t and not t.endswith('&&') and (r or self.ctl):
                self.put(self.keys(x), r)
        if sq.startswith('std::') and last in ('fill', 'copy', 'transform', 'iota', 'partial_sum', 'sort') and (r or self.ctl):
            for x in args[:3]:
                self.put(self.keys(x), r)

    def inline(self, f, e, args, parent=None):
        fr = Frame(f, f['T'], parent)
        if f.get('clsq') and e.get('op') and e.get('obj') is None and len(args) == len(f['params']) + 1:
            args = args[1:]
        tr = []
        for p, x in zip(f['params'], args):
            t = fr.T[p['t']].strip()
            r, t2 = self.ex(x)
            tr += t2
            y = x
            while y.get('k') == 'Cast':
                y = y['e']
            if y.get('k') == 'Lambda':
                fr.lams[p['id']] = (y, self.fr)
            elif y.get('k') == 'Ref' and y.get('id') is not None and self.fr.find(y['id']) is not None and y['id'] in self.fr.find(y['id']).lams:
                fr.lams[p['id']] = self.fr.find(y['id']).lams[y['id']]
            elif t.endswith('&') or t.endswith('*') or self.prog.kind(t)[0] == 'p':
                ks = self.keys(x)
                if ks:
                    if r and not self.get(ks):
                        self.put(ks, r)         # part of something that differs between ranks
                    fr.alias[p['id']] = ks
                else:
                    fr.taint[p['id']] = r
            else:
                fr.taint[p['id']] = r
        for p in f['params'][len(args):]:
            fr.taint[p['id']] = None
        old, self.fr = self.fr, fr
        of = self.frames
        self.frames = of + [old]
        ol, self.loops = self.loops, self.loops
        oline = self.line
        self.depth += 1
        self.stack.append(f['u'])
        for i in f.get('inits') or []:
            if i.get('e') is not None:
                t, b = self.ex(i['e'])
                tr += b
                if i.get('n') or i.get('m'):
                    self.put([('F', '%s::%s' % (strip(f.get('clsq') or ''), i.get('n') or i.get('m')))], t)
        tr += self.stmt(f.get('body'))
        self.stack.pop()
        self.depth -= 1
        self.line = oline
        self.frames = of
        self.fr = old
        t = f['T'][f['ret']] if isinstance(f.get('ret'), int) else ''
        return fr.ret or fr.left, tr

    # ------------------------------------------------------------ statements: trace
    def stmt(self, s):
        if s is None:
            return []
        k = s.get('k')
        if isinstance(s.get('p'), int):
            self.line = s['p']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        tr = []
        for key in ('e', 'v'):
            if isinstance(s.get(key), dict):
                tr += self.ex(s[key])[1]
        for key in ('b', 'h', 'a'):
            x = s.get(key)
            for y in x if isinstance(x, list) else [x] if isinstance(x, dict) else []:
                tr += self.stmt(y if y.get('k') else y.get('b'))
        return tr

    def s_Block(self, s):
        tr = []
        for x in s['b']:
            tr += self.stmt(x)
        return tr

    def s_Expr(self, s):
        return self.ex(s['e'])[1]

    def s_Return(self, s):
        r, tr = self.ex(s.get('e')) if s.get('e') is not None else (None, [])
        self.fr.ret = self.fr.ret or r or (self.ctl[-1] if self.ctl and s.get('e') is not None else None)
        if self.ctl:
            self.fr.left = self.fr.left or self.ctl[-1]
        return tr

    def s_Break(self, s):
        if self.ctl and self.loops:
            self.loops[-1][0] = self.loops[-1][0] or self.ctl[-1]
        return []

    s_Continue = s_Break

    def s_Decl(self, s):
        tr = []
        for d in s['d']:
            t = self.fr.T[d['t']].strip()
            init = d.get('init')
            y = init
            while isinstance(y, dict) and y.get('k') == 'Cast':
                y = y['e']
            if isinstance(y, dict) and y.get('k') in ('Lambda',):
                self.fr.lams[d['id']] = (y, self.fr)
                continue
            if isinstance(y, dict) and y.get('k') == 'Ctor' and y.get('a') and y['a'][0].get('k') == 'Lambda':
                self.fr.lams[d['id']] = (y['a'][0], self.fr)
                continue
            r, b = self.ex(init) if init is not None else (None, [])
            tr += b
            if init is not None and (t.endswith('&') or self.prog.kind(t)[0] == 'p'):
                ks = self.keys(init)
                if ks:
                    if r and not self.get(ks):
                        self.put(ks, r)
                    self.fr.alias[d['id']] = ks
                    continue
            self.fr.alias.pop(d['id'], None)
            self.fr.taint[d['id']] = r or (self.ctl[-1] if self.ctl else None)
        return tr

    def s_If(self, s):
        tr = self.stmt(s['init']) if s.get('init') is not None else []
        r, b = self.ex(s.get('c'))
        tr += b
        self.conds += 1
        if s.get('cvd'):
            tr += self.stmt(s['cvd']) if isinstance(s['cvd'], dict) and s['cvd'].get('k') else []
        dead1, dead2 = aborts(s.get('a')), aborts(s.get('b'))
        if r and not (dead1 or dead2):
            self.ctl.append(r)
        fr = self.fr
        l0 = fr.left
        t1 = self.stmt(s.get('a'))
        left1 = fr.left
        t2 = self.stmt(s.get('b'))
        if r and not (dead1 or dead2):
            self.ctl.pop()
        if dead1 or dead2:
            return tr + (t2 if dead1 else t1)
        if names(t1) == names(t2):
            return tr + t1
        if r:
            self.differ(t1, t2, r)
        return tr + [('if', names(t1), names(t2), t1 + t2)]

    def loop(self, cond, body, pre=None):
        tr = []
        self.loops.append([None])
        r = None
        for _ in range(2):
            if cond is not None:
                a, b = self.ex(cond)
                tr = tr + b if _ == 0 else tr
                r = r or a
            r = r or self.loops[-1][0]
            if r:
                self.ctl.append(r)
            o = self.loops[-1][0]
            t = []
            for x in body:
                if x is not None:
                    t += self.stmt(x) if x.get('k') in STM else self.ex(x)[1]
            if r:
                self.ctl.pop()
                if t:
                    self.differ(t, [], r)
        self.loops.pop()
        return tr + ([('loop', names(t), (), t)] if t else [])

    def s_For(self, s):
        tr = self.stmt(s['init']) if s.get('init') is not None and s['init'].get('k') in STM else self.ex(s.get('init'))[1]
        return tr + self.loop(s.get('c'), [s.get('b'), s.get('inc')])

    def s_While(self, s):
        return self.loop(s['c'], [s['b']])

    def s_Do(self, s):
        return self.loop(s['c'], [s['b']])

    def s_RFor(self, s):
        r, tr = self.ex(s['range'])
        d = s['var']
        d = d['d'][0] if isinstance(d, dict) and 'd' in d and isinstance(d['d'], list) else d
        ks = self.keys(s['range'])
        if ks:
            self.fr.alias[d['id']] = ks
        else:
            self.fr.taint[d['id']] = r
        return tr + self.loop(s['range'], [s['b']])

    def s_Switch(self, s):
        r, tr = self.ex(s.get('c') or s.get('e'))
        if r:
            self.ctl.append(r)
        t = self.stmt(s.get('b'))
        if r:
            self.ctl.pop()
            if t:
                self.differ(t, [], r)
        return tr + t

    def s_OMP(self, s):
        return self.stmt(s.get('b'))

    def s_Try(self, s):
        tr = self.stmt(s.get('b'))
        for h in s.get('h') or []:
            if isinstance(h, dict):
                self.stmt(h.get('b'))
        return tr


STM = {'Block', 'Decl', 'If', 'For', 'While', 'Do', 'RFor', 'Switch', 'Case', 'Default', 'Break', 'Continue', 'Return', 'Null', 'Try', 'Label',
       'OMP', 'Expr'}


def peel(e):
    while isinstance(e, dict) and e.get('k') == 'Cast':
        e = e['e']
    return e or {}


def names(t):
    return tuple((x[0], x[1]) if x[0] == 'c' else x[:3] for x in t)


def sites(t):
    out = []
    for x in t:
        if x[0] == 'c':
            out.append(x[2])
        else:
            out += sites(x[3])
    return out


def aborts(s):
    """whether statement s always ends the program"""
    if s is None:
        return False
    if s.get('k') == 'Block':
        return any(aborts(x) for x in s['b'])
    if s.get('k') == 'Expr':
        e = s['e']
        while e.get('k') == 'Cast':
            e = e['e']
        return e.get('k') == 'Throw' or e.get('k') == 'Call' and strip(e.get('q') or '') in ABORT
    if s.get('k') == 'If':
        return s.get('b') is not None and aborts(s.get('a')) and aborts(s['b'])
    return False
