"""debug aid: print an extracted function as compact pseudo code"""
import json, sys
def ex(e, T):
    if e is None: return '_'
    k = e.get('k')
    r = lambda x: ex(x, T)
    L = lambda l: ', '.join(r(x) for x in l)
    if k == 'Cast': return '(%s:%s)' % (e.get('ck'), r(e['e']))
    if k == 'Int': return str(e['v'])
    if k == 'Float': return e.get('sp') or str(e['v'])
    if k in ('Bool', 'Str'): return repr(e['v'])
    if k == 'Ref': return e['n']
    if k == 'This': return 'this'
    if k == 'Mem': return '%s.%s' % (r(e.get('b')), e['n'])
    if k == 'Idx': return '%s[%s]' % (r(e['b']), r(e['i']))
    if k == 'Un': return '(%s%s%s)' % (e['op'], r(e['e']), 'post' if e.get('post') else '')
    if k in ('Bin', 'Asg', 'CAsg'): return '(%s %s %s)' % (r(e['l']), e['op'], r(e['r']))
    if k == 'Cond': return '(%s ? %s : %s)' % (r(e['c']), r(e['a']), r(e['b']))
    if k == 'Call':
        return 'CALL<%s>%s(%s)' % ((e.get('q') or '?')[:70] if e.get('q') else 'fx', ('{' + r(e['obj']) + '}') if e.get('obj') else ('{' + r(e.get('fx')) + '}' if e.get('fx') else ''), L(e['a']))
    if k == 'Ctor': return 'CTOR<%s%s>(%s)' % ((e.get('q') or '?')[:50], ' copy' if e.get('copy') else '', L(e['a']))
    if k == 'IList': return '{%s}' % L(e['a'])
    if k == 'Lambda': return 'LAMBDA%s' % json.dumps(e.get('fns'))[:100]
    d = {x: (r(y) if isinstance(y, dict) and 'k' in y else y) for x, y in e.items() if x not in ('t', 'p', 'lv')}
    return json.dumps(d)[:200]
def st(s, T, ind=0):
    p = '  ' * ind
    if s is None: return
    k = s['k']
    o = lambda x: print(p + x)
    if k == 'Block':
        for x in s['b']: st(x, T, ind)
    elif k == 'Decl':
        for d in s['d']: o('decl %s%s : %s = %s' % (d['n'], '&' if d.get('ref') else '', T[d['t']][:60], ex(d.get('init'), T)))
    elif k == 'Expr': o(ex(s['e'], T))
    elif k == 'If':
        o('if ' + ex(s['c'], T)); st(s['a'], T, ind + 1)
        if s.get('b'): o('else'); st(s['b'], T, ind + 1)
    elif k == 'For': o('for'); st(s.get('init'), T, ind + 2); o('  ; %s ; %s' % (ex(s.get('c'), T), ex(s.get('inc'), T))); st(s['b'], T, ind + 1)
    elif k == 'RFor': o('rfor %s : %s' % (json.dumps(s['var'])[:80], ex(s['range'], T))); st(s['b'], T, ind + 1)
    elif k in ('While', 'Do'): o(k + ' ' + ex(s['c'], T)); st(s['b'], T, ind + 1)
    elif k == 'Return': o('return ' + ex(s.get('e'), T))
    elif k == 'OMP': o('OMP %s %s' % (s['d'], json.dumps(s.get('cl'))[:150])); st(s.get('b'), T, ind + 1)
    else: o(k + ' ' + str({a: (ex(b, T) if isinstance(b, dict) and 'k' in b and a in ('e', 'c', 'v') else '') for a, b in s.items()}));
    if k in ('Switch', 'Case', 'Default', 'Label', 'Try') and isinstance(s.get('b'), (dict,)): st(s['b'], T, ind + 1)
if __name__ == '__main__':
    d = json.load(open(sys.argv[1])); T = d['types']
    for f in d['functions']:
        if sys.argv[2] in f['q']:
            print('==', f['q'], [(p['n'], T[p['t']][:50]) for p in f['params']], f['file'], f['line'])
            for i in f.get('inits') or []: print('  init', {k: (v if k != 'e' else ex(v, T)) for k, v in i.items()})
            st(f.get('body'), T, 1)
