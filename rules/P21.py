"""exchange between ranks"""
import alg
from rule import THIS, conforms
TUS = ['spec_exch']
USES = [('P30', ('sortDataWithTag',))]
MEMORY = ('resize', 'assign', 'reserve', 'clear')


def ev(e):
    return e.name not in MEMORY and e.name not in ('Zoltan_DD::Print', 'Zoltan_DD::Stats') and not e.name.startswith('spdlog')


def sizes(m):
    """established by the constructor, nothing else changes a size"""
    n = m.load(m.field(THIS, 'nProcs'), ('i',))
    m.facts = alg.le(alg.num(1), n)
    for f in ('Counts', 'Displs'):
        for g in ('send', 'recv'):
            m.set_size(m.field(THIS, g + f), n if f == 'Counts' else alg.add(n, alg.num(1)))


def check(c, p):
    conforms(c, p, 'createMPIStructType', 'byteType', 'message type', pred=lambda f: 'Full' in str(f.get('ta')), events=ev)
    conforms(c, p, 'CommMPI::CommMPI', 'commMake', 'construction', pred=lambda f: not f['params'], events=ev)
    conforms(c, p, 'CommMPI::exchangeAllToAllV', 'exchange', 'exchange', events=ev, opaque={'sortDataWithTag'}, clobber=(), pre=sizes)
    conforms(c, p, 'MixPairInteraction::updateSystem', 'mixUpdate', 'mixed system', events=ev)
    conforms(c, p, 'MixPairInteraction::updateTree', 'mixTree', 'tree', events=ev)
    conforms(c, p, 'MixPairInteraction::computeForce', 'mixForce', 'results', events=ev)
    for q, s in (('MixEPI', 'epi'), ('MixEPJ', 'epj')):
        conforms(c, p, q + '::copyFromFP', s, 'copy')
        conforms(c, p, q + '::getPos', s + 'Pos', 'position')
        conforms(c, p, q + '::setPos', s + 'Set', 'position')
        conforms(c, p, q + '::getRSearch', s + 'Radius', 'radius')
    conforms(c, p, 'MixFP::getPos', 'fpPos', 'position')
    conforms(c, p, 'MixFP::setPos', 'fpSet', 'position')
    conforms(c, p, 'MixFP::getRadius', 'fpRadius', 'radius')
    conforms(c, p, 'ZDD::ZDD', 'zddMake', 'directory', pred=lambda f: len(f['params']) == 1 and f['params'][0]['n'], events=ev)
    conforms(c, p, 'ZDD::find', 'zddFind', 'directory', events=ev)
    conforms(c, p, 'ZDD::buildIndex', 'zddBuild', 'directory', events=ev)
