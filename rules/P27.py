"""binary data arrays: base64"""
import alg
from prog import BrokenAnalysis
from rule import conforms
TUS = ['Base64', 'spec_b64']
B = 'B64Converter::'
E = B + 'kwsysBase64_Encode'


def check(c, p):
    conforms(c, p, B + 'kwsysBase64_Encode3', 'three', 'three bytes')
    conforms(c, p, B + 'kwsysBase64_Encode2', 'two', 'two bytes')
    conforms(c, p, B + 'kwsysBase64_Encode1', 'one', 'one byte')
    conforms(c, p, B + 'kwsysBase64_Decode3', 'four', 'four digits')
    def text(m):
        m.strout = True
    conforms(c, p, E, 'encode', 'byte sequence', pre=text, events=lambda e: e.name == '<<')
    conforms(c, p, B + 'getBase64FromVector', 'vecText', 'data array', opaque=(E,), events=lambda e: e.name == E)
    tables(c, p)


def tables(c, p):
    """the tables are inverse to each other"""
    g = p.glob.get(B + 'kwsysBase64DecodeTable')
    if g is None or not g.get('init'):
        raise BrokenAnalysis('no decoding table')
    vals = [v for v in numbers(g['init'])]
    digits = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    where = 'B64Converter::kwsysBase64DecodeTable (%s)' % g.get('file', 'Util/Base64.cpp')
    if len(vals) != 256:
        c.und('decoding table', where, '%d entries can be read' % len(vals))
        return
    for i, v in enumerate(vals):
        want = digits.index(chr(i)) if chr(i) in digits else 0 if chr(i) == '=' else 255
        c.equal('decoding table', where, alg.num(v), alg.num(want), alg.TRUE, None, 'entry %d' % i)


def numbers(e):
    if isinstance(e, dict):
        if e.get('k') == 'Int':
            yield int(e['v'])
            return
        for k in ('e', 'a'):
            if k in e:
                yield from numbers(e[k])
    elif isinstance(e, list):
        for x in e:
            yield from numbers(x)
