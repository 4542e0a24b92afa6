"""text output and input

Output: whatever the interface (ostream <<, fprintf), a write is the event '<<' [file name, text]; text is a string value whose number
parts carry their format. Input: a stream holds its source (file name or string), the number of lines and tokens consumed; a token is an
uninterpreted function of source, position and requested type.
"""
import re
import alg
from alg import N, S, leaf, FALSE, TRUE, num, mapleaves, bnot

OUT = ('std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_ostream')
IN = ('std::basic_ifstream', 'std::basic_istringstream', 'std::basic_istream')
BOTH = ('std::basic_stringstream', 'std::basic_fstream', 'std::basic_iostream')
_SPEC = re.compile(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L|q)?([diouxXeEfFgGaAcspn%])')
STR0 = leaf(S(()))


def lit(t):
    return leaf(S((('l', t),)))


def field(m, ref, f, k, default=None):
    v = m.load(m.field(ref, f), k)
    return v


def number(v, fmt=None, typ=None):
    """text of a number"""
    def f(x):
        n = leaf(x)
        if fmt:
            return leaf(S((('n', alg.fn('fmt' + fmt, n, typ='s')),)))
        if isinstance(x, alg.P):
            c = x.const()
            if c is not None and c == int(c):
                return leaf(S((('l', str(int(c))),)))
        return leaf(S((('n', n),)))
    if fmt:
        return mapleaves(v, lambda x: leaf(S((('n', alg.fn('fmt' + fmt, leaf(x), typ='s')),))))
    return mapleaves(v, f)


def text_of(m, v, t):
    """text of a value of type t written with <<"""
    from models import tostr
    k = m.prog.kind(t)
    if k[0] == 'b':
        v = alg.ite(alg.truth(v), TRUE, FALSE)
    tt = t.replace('const ', '').strip(' &')
    if tt in ('char', 'unsigned char', 'signed char', 'uint8_t'):
        return mapleaves(v, lambda x: chr_(x))
    if k[0] in ('r', 'i', 'b'):
        return number(v)
    return tostr(v)


def chr_(x):
    c = x.const() if isinstance(x, alg.P) else None
    if c is not None and c == int(c) and 0 < int(c) < 128:
        return leaf(S((('l', chr(int(c))),)))
    return leaf(S((('n', alg.fn('chr', leaf(x), typ='s')),)))


def formatted(m, fmt, args):
    """text produced by printf(fmt, args); None when the format is unknown"""
    from models import cat, tostr
    if not isinstance(fmt, N) or fmt.c is not None or not isinstance(fmt.v, S) or fmt.v.text() is None:
        return None
    s = fmt.v.text()
    out = STR0
    pos = 0
    args = list(args)
    for mt in _SPEC.finditer(s):
        out = cat(out, lit(s[pos:mt.start()]))
        pos = mt.end()
        flags, width, prec, ln, c = mt.groups()
        if c == '%':
            out = cat(out, lit('%'))
            continue
        if not args:
            return None
        v = args.pop(0)
        if not isinstance(v, N):
            return None
        if flags or width or prec is not None or c not in 'diugsc':
            if c == 's':
                v = tostr(v)
            f = flags + width + ('.' + prec if prec is not None else '') + ('f' if c == 'F' else c)
            out = cat(out, number(v, f))
        elif c == 's':
            out = cat(out, tostr(v))
        elif c == 'c':
            out = cat(out, mapleaves(v, chr_))
        else:
            out = cat(out, number(v))
    return cat(out, lit(s[pos:]))


def write(m, ref, text, e):
    m.event('<<', None, [name_of(m, ref), text], e)


def name_of(m, ref):
    if isinstance(ref, N) and ref.c is None and isinstance(ref.v, alg.Ref) and ref.v.loc[0][0] == 'G':
        return leaf(alg.Ob('stream', str(ref.v.loc[0][-1])))
    return m.load(m.field(ref, '#name'), ('str',))


def openmode(m, v):
    """canonical name of an open mode: w, a, r, ..."""
    if isinstance(v, N) and v.c is None:
        if isinstance(v.v, S) and v.v.text() is not None:
            return lit(v.v.text().replace('b', '').replace('t', ''))
        c = v.v.const() if isinstance(v.v, alg.P) else None
        if c is not None:
            c = int(c)   # libstdc++: app 1, ate 2, binary 4, in 8, out 16, trunc 32
            return lit('a' if c & 1 else 'r+' if c & 24 == 24 and not c & 32 else 'w' if c & 16 else 'r')
    return v


def open_stream(m, ref, base, args, e):
    from models import tostr
    if base in OUT + BOTH and 'string' not in base and args:
        mode = openmode(m, args[1]) if len(args) > 1 else lit('w')
        m.store(m.field(ref, '#name'), tostr(args[0]))
        m.event('open', None, [tostr(args[0]), mode], e)
    if 'string' in base:
        m.store(m.field(ref, '#text'), STR0)
        m.store(m.field(ref, '#name'), STR0)
    if base in IN + BOTH:
        v = tostr(args[0]) if args else STR0
        if 'string' not in base:
            v = mapleaves(v, lambda x: leaf(S((('l', 'file:'),) + (x.parts if isinstance(x, S) else (('n', leaf(x)),)))))
        m.store(m.field(ref, '#src'), v)
        m.store(m.field(ref, '#nl'), FALSE)
        m.store(m.field(ref, '#nt'), FALSE)
        m.store(m.field(ref, '#ok'), TRUE if 'string' in base else opened(v))


def opened(src):
    return mapleaves(src, lambda x: alg.truth(alg.boolatom(alg.atom('opened', (leaf(x),), 'b'))))


def construct(m, ref, e, base, a):
    from models import aval, itername
    if base not in OUT + IN + BOTH:
        return False
    args = [m.e_any(x) if m.prog.kind(m.etype(x))[0] == 'o' else aval(m, x) for x in a]
    open_stream(m, ref, base, args, e)
    return True


def state(m, ref):
    return [m.load(m.field(ref, f), k) for f, k in (('#src', ('str',)), ('#nl', ('i',)), ('#nt', ('i',)))]


def read(m, ref, dst, t):
    """one formatted token"""
    from models import tostr
    src, nl, nt = state(m, ref)
    k = m.prog.kind(t)
    ok = alg.boolatom(alg.atom('inok', (src, nl, nt), 'b'))
    tt = t.replace('const ', '').strip(' &')
    if k[0] == 'str':
        v = mapleaves(alg.fn('tok:string', src, nl, nt, typ='s'), lambda x: leaf(S((('n', leaf(x)),))))
    else:
        v = alg.fn('tok:' + tt, src, nl, nt, typ=k[0] if k[0] in 'irb' else 'i')
    old = None
    try:
        old = m.load(dst, k)
    except Exception:
        pass
    if old is not None and not uninit(old):
        v = alg.ite(ok, v, old)
    m.store(dst, v)
    m.store(m.field(ref, '#nt'), advance(nt, tt))
    m.store(m.field(ref, '#ok'), ok)


def advance(nt, tt):
    code = {'int': 1, 'double': 2, 'char': 3, 'unsigned int': 4, 'float': 5, 'long': 6}.get(tt, 7)
    return alg.add(alg.mul(nt, num(8)), num(code))


def uninit(v):
    from interp import poisoned
    return poisoned(v) or any(fresh(x) for x in alg.leafset(v))


def fresh(x, known=()):
    """x depends on a local variable that was never assigned"""
    if isinstance(x, S):
        return any(isinstance(y, N) and y.c is None and isinstance(y.v, alg.Ref) and local(y.v.loc, known) for k, y in x.parts if k == 'n')
    return isinstance(x, (alg.P, alg.Ref, alg.Ob)) and any(
        a.name == 'rd' and local(a.args, known) for a in (alg._alist[i] for i in alg.atoms_in(x)))


def local(loc, known=()):
    return bool(loc) and isinstance(loc[0], tuple) and bool(loc[0]) and loc[0][0] == 'L' and loc[0] not in known


def call(m, e, sq, meth, a):
    from models import aval, ref_of, peel, recv, tostr, cat
    from models import IV
    I = IV()
    if sq in ('std::operator<<', 'std::basic_ostream::operator<<'):
        if e.get('obj') is not None:
            o, x = m.lv(peel(e['obj'])), a[0]
        else:
            o, x = m.lv(peel(a[0])), a[1]
        t = m.etype(x)
        y = peel(x)
        if 'basic_ostream' in t or 'ios_base' in t:
            n = y.get('n') or (y.get('e') or {}).get('n') or ''
            n = n.split('::')[-1].split('<')[0]
            txt = lit('\n') if n == 'endl' else STR0 if n == 'flush' else leaf(S((('n', leaf(alg.Ob('manip', n))),)))
        elif m.prog.kind(t)[0] in ('r', 'i', 'b', 'p', 'str', 'arr'):
            txt = text_of(m, aval(m, x), t)
        else:
            m.e_any(x)
            txt = leaf(S((('n', leaf(alg.Ob('object', str(t)[:30]))),)))
        r = ref_of(m, o) if not isinstance(o, N) else o
        if isinstance(r, N) and 'stringstream' in str(m.etype(peel(e['obj'] if e.get('obj') is not None else a[0]))):
            old = m.load(m.field(r, '#text'), ('str',))
            m.store(m.field(r, '#text'), cat(old, txt))
            m.store(m.field(r, '#src'), cat(old, txt))
        else:
            write(m, r, txt, e)
        return o
    if sq in ('fprintf', 'fputs', 'fputc'):
        vals = []
        for x in a:
            vals.append(aval(m, x))
        if sq == 'fputs':
            f, txt = vals[1], tostr(vals[0])
        elif sq == 'fputc':
            f, txt = vals[1], mapleaves(vals[0], chr_)
        else:
            f, txt = vals[0], formatted(m, vals[1], vals[2:])
        if txt is None:
            m.event(sq, None, vals, e)
        else:
            write(m, f, txt, e)
        return FALSE
    if sq == 'fopen':
        args = [aval(m, x) for x in a]
        ref = leaf(alg.Ref(m.new_heap('FILE')))
        m.store(m.field(ref, '#name'), tostr(args[0]))
        m.event('open', None, [tostr(args[0]), openmode(m, args[1])], e)
        return ref
    if sq == 'fclose':
        v = aval(m, a[0])
        m.event('fclose', None, [name_of(m, v)], e)
        return FALSE
    b = sq.rsplit('::', 1)[0]
    if b in OUT + BOTH + IN and meth == 'open':
        open_stream(m, recv(m, e), b, [aval(m, x) for x in a], e)
        return None
    if b in OUT + BOTH + IN and meth == 'close':
        return None
    if b in OUT + BOTH and meth == 'flush':
        return I.LV(recv(m, e))
    if b in OUT + BOTH and meth == 'write':
        write(m, recv(m, e), cat(tostr(aval(m, a[0])), STR0), e)
        return I.LV(recv(m, e))
    if b in OUT + BOTH and meth == 'str' and not a:
        return m.load(m.field(recv(m, e), '#text'), ('str',))
    if sq in ('std::basic_istream::operator>>', 'std::operator>>'):
        if e.get('obj') is not None:
            o, x = m.lv(peel(e['obj'])), a[0]
        else:
            o, x = m.lv(peel(a[0])), a[1]
        d = m.lv(x)
        read(m, ref_of(m, o), ref_of(m, d), m.etype(x))
        return o
    if sq == 'std::getline':
        o = m.lv(peel(a[0]))
        r = ref_of(m, o)
        d = ref_of(m, m.lv(peel(a[1])))
        src, nl, nt = state(m, r)
        m.store(d, mapleaves(alg.fn('line', src, nl, nt, typ='s'), lambda x: leaf(S((('n', leaf(x)),)))))
        m.store(m.field(r, '#ok'), alg.boolatom(alg.atom('inok', (src, nl, nt), 'b')))
        m.store(m.field(r, '#nl'), alg.add(nl, TRUE))
        return o
    if sq in ('std::basic_ios::operator bool', 'std::basic_ios::good') or b in IN + BOTH and meth in ('good', 'is_open'):
        return ok_of(m, recv(m, e))
    if sq in ('std::basic_ios::fail', 'std::basic_ios::operator!', 'std::basic_ios::eof', 'std::basic_ios::bad'):
        return bnot(ok_of(m, recv(m, e)))
    return NotImplemented


def ok_of(m, ref):
    return m.load(m.field(ref, '#ok'), ('b',))


# ------------------------------------------------------------------ reading VTK files
WHOLE = ('gid', 'group', 'isImmovable', 'globalIndex', 'oneSide', 'bilateral', 'endLabel')


def vtk(m, e, sq, meth, a):
    """a reader gives the objects of its file; what they hold is a function of file, array name, index and component"""
    from models import aval, ref_of, peel, tostr
    from models import IV
    I = IV()

    def ptr(x):
        v = m.lv(peel(x))
        return m.load(v.ref, ('p', '')) if isinstance(v, I.LV) and m.prog.kind(m.etype(peel(x)))[0] == 'p' else v.ref if isinstance(v, I.LV) else v
    if meth == 'New' and e.get('obj') is None:
        return leaf(alg.Ref(m.new_heap('vtk')))
    if sq in ('vtkSmartPointer::operator=', 'vtkSmartPointerBase::operator='):
        o = m.lv(peel(e['obj']))
        v = aval(m, a[0])
        m.store(o.ref, m.load(v.ref, ('p', '')) if isinstance(v, I.LV) else v)
        return o
    if e.get('obj') is not None:
        o = ptr(e['obj'])
        if sq in ('vtkSmartPointer::operator->', 'vtkSmartPointer::Get', 'vtkSmartPointer::GetPointer', 'vtkSmartPointerBase::GetPointer',
                  'vtkNew::operator->', 'vtkNew::Get'):
            return o
        if sq.endswith('operator*'):
            return I.LV(o)
        if meth == 'SetFileName':
            m.store(m.field(o, '#name'), tostr(aval(m, a[0])))
            return None
        if meth == 'Update':
            f = m.load(m.field(o, '#name'), ('str',))
            m.event('vtkUpdate', None, [f], e)
            m.store(m.field(o, '#file'), f)
            return None
        if meth in ('GetOutput', 'GetPoints', 'GetCellData', 'GetPointData'):
            return sub(m, o, meth)
        if meth in ('GetArray', 'GetAbstractArray') and len(a) == 1:
            return sub(m, o, 'array', tostr(aval(m, a[0])))
        if meth in ('GetNumberOfPoints', 'GetNumberOfCells', 'GetNumberOfTuples', 'GetNumberOfLines'):
            return mapleaves(o, lambda x: alg.fn('vtk:' + meth, *key(x), typ='i'))
        if meth in ('GetComponent', 'GetTypedComponent', 'GetValue', 'GetTuple1'):
            ix = [aval(m, x) for x in a] + ([FALSE] if len(a) == 1 else [])
            return mapleaves(o, lambda x: alg.fn('vtk:value', *key(x), *ix, typ='i' if whole(x) else 'r'))
        if meth in ('GetPoint', 'GetTuple') and len(a) == 2:
            i, d = aval(m, a[0]), aval(m, a[1])
            for k in range(3):
                m.store(alg.add(d, num(k)), mapleaves(o, lambda x: alg.fn('vtk:value', *key(x), i, num(k), typ='r')))
            return None
    if sq == 'vtkArrayDownCast':
        v = aval(m, a[0])
        return ptr(a[0]) if isinstance(v, I.LV) else v
    return NotImplemented


def whole(x):
    n = x.key[-1]
    return isinstance(n, N) and n.c is None and isinstance(n.v, S) and n.v.text() in WHOLE


def key(x):
    if not (isinstance(x, alg.Ob) and x.key[0] == 'vtk'):
        raise alg_undecided('vtk object')
    return [y if isinstance(y, N) else lit(y) for y in x.key[1:]]


def alg_undecided(s):
    from interp import Undecided
    return Undecided(s)


def sub(m, o, what, *more):
    def f(x):
        if isinstance(x, alg.Ref):
            return leaf(alg.Ob('vtk', m.load(leaf(alg.Ref(x.loc + ('#file',))), ('str',)), what, *more))
        if isinstance(x, alg.Ob) and x.key[0] == 'vtk':
            return leaf(alg.Ob(*x.key, what, *more))
        return leaf(alg.Ob('poison', 'vtk', what))
    return mapleaves(o, f)
