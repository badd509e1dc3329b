#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the catalogue below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
EV = 'src/buildtool/build_engine/expression/evaluator.cpp'
TECH = 'contract-based deductive verification (WP over WhyML extracted from the Clang AST, SMT)'
P = []


def prop(id, title, statement, over, text, tests, files, mech, note, level='proof'):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), dict(note=note, level=level)))


NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


exec(open(os.path.join(HERE, 'catalog_data.py')).read())

if __name__ == '__main__':
    from props.ids import IDS
    claimed = [x for x in P if x[0]['id'] in IDS]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in sorted(claimed + NA, key=lambda x: x[0]['id']):
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='true', checks=[dict(
        property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
        technique=TECH, level=x['level'], level_note=x['note']) for p, x in claimed],
        not_applicable=[dict(property=p['id'], reason=r) for p, r in NA], notes='see DESIGN.md')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p, _ in P + NA:
        assert len(p['title']) <= 80, p['id']
