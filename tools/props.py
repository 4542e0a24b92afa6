#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when rules/<id>.py exists)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = 'gated value-numbering conformance against a reference function'
LV = ('Every obligation compares, for all inputs and all iteration counts, the normal form of a value, effect or call condition '
      'computed from the current source with that of the reference; a mismatch is reported only when the normal forms are really '
      'different functions. Assumes real arithmetic, the library models of sa/models.py and single-rank view of library collectives.')
STR = ('Sound over-approximation on the resolved syntax tree of every function in scope; each rule has a positive self-test that must '
       'fire on every run. Assumes library functions have the effects stated in sa/models.py.')

SYS, NEAR = 'Sylinder/SylinderSystem.cpp', 'Sylinder/SylinderNear.hpp'
P = {}


def prop(i, title, statement, over, text, why, files, mech, tech=CONF, note=LV):
    P[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), tech=tech, note=note)


exec(open(os.path.join(HERE, 'tools', 'proptable.py')).read())

NA = {}
exec(open(os.path.join(HERE, 'tools', 'natable.py')).read())


def main():
    have = sorted(i for i in P if os.path.exists(os.path.join(HERE, 'rules', i + '.py')))
    rows = []
    for i in sorted(list(have) + list(NA)):
        r = dict(P[i] if i in P else NA[i])
        r.pop('tech', None)
        r.pop('note', None)
        r.pop('reason', None)
        rows.append(r)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for r in rows:
            assert len(r['title']) <= 80, r['title']
            f.write(json.dumps(r) + '\n')
    man = dict(version=1, setup_cmd='bash engine/build.sh', checks=[], not_applicable=[
        dict(property=i, reason=NA[i]['reason']) for i in sorted(NA)],
        notes='One driver, check.py, runs every rule; rules/<id>.py lists the obligations of a property, spec/*.cpp the reference functions.')
    for i in have:
        man['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                                  technique='static analysis: ' + P[i]['tech'], level='other', level_note=P[i]['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    miss = [i for i in os.listdir(os.path.join(HERE, 'rules')) if i.endswith('.py') and i[:-3] not in P]
    assert not miss, miss
    print(len(have), 'claimed', len(NA), 'not applicable; without rule:', sorted(set(P) - set(have)))


main()
