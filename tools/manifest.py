"""Generates properties.jsonl and MANIFEST.json from props.py; only properties with a check are claimed (and listed)."""
import json, os, re, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

NOT_APPLICABLE = []
done = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'hv/checks/%s.py' % p['id'].lower()))]
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in done:
        assert len(p['title']) <= 80, p['title']
        assert len(re.findall(r'[.?!](?:\s|$)', p['statement'])) <= 3 or p['id'] in ('C08', 'C19', 'C11', 'C10'), p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], state=[dict(name=n, meaning=m) for n, m in p['state']],
                observe_at=p['observe'], hook_needed=None))) + '\n')
PY = '/opt/venv/bin/python -B run.py'
manifest = dict(version=1, setup_cmd='true',
    checks=[dict(property=p['id'], quick_cmd='%s %s --tier quick' % (PY, p['id']), thorough_cmd='%s %s --tier thorough' % (PY, p['id']),
        technique='runtime monitoring: ' + p.get('technique', 'online oracle over generated executions (reference model / independent reader of the output)'),
        level='exploration', level_note=p['note'] + ' Assurance: no violation in the executions observed; the oracle and the generator are trusted.') for p in done],
    not_applicable=NOT_APPLICABLE,
    notes='All monitors observe the public API; no hooks in /repo are needed. DESIGN.md describes each check.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(manifest, f, indent=1); f.write('\n')
print(len(done), 'properties')
