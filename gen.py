"""Writes properties.jsonl and MANIFEST.json from one table (kept in step by construction)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

D = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=x, where=p['files'][0]) for x in p['functions']]))) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=NOT_APPLICABLE, notes=NOTES)
for p in PROPS:
    if p['id'] in na:
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                            thorough_cmd='./check.sh %s thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique=p.get('technique', 'contract-based deductive verification: VCs generated from the LLVM IR of '
                                                         "/repo's sources, discharged by z3 and cvc5"),
                            level=p.get('level', 'proof'), level_note=p['note']))
with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
