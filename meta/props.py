"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, note, level='proof', claim=True, reason=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if claim:
        CHECKS.append(dict(property=id, quick_cmd='python3-vt engine/check.py %s --tier quick' % id, thorough_cmd='python3-vt engine/check.py %s --tier thorough' % id,
                           technique='contracts on the real functions; path VCs from their LLVM IR discharged by z3/cvc5 (deductive verification)', level=level, level_note=note))
    else:
        NA.append(dict(property=id, reason=reason))


CHECKS = []
exec(open(os.path.join(V, 'meta', 'props_data.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='bash engine/setup.sh', checks=CHECKS, not_applicable=NA,
         notes='Every check builds contracts/<id>_*.cc together with the functions of /repo/src it names and has each obligation discharged; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(CHECKS), 'checks')
