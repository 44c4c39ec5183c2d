"""Writes the generated part of DESIGN.md (monitors of each check, planted bugs) after the marker line."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools'), '/repo/src']
sys.dont_write_bytecode = True
from props import PROPS

MARK = '<!-- generated by tools/design.py -->'

def main():
    out = [MARK, '', '## Monitors of each check', '', 'Counts are cases per run (quick / thorough).', '']
    for p in PROPS:
        check = importlib.import_module('hv.checks.' + p['id'].lower()).check
        out += ['### %s %s' % (p['id'], p['title']), '', '*Decided by:* ' + p['note'], '']
        for m in check.monitors: out.append('- `%s` (%d / %d): %s' % (m.name, m.count['quick'], m.count['thorough'], m.rule))
        if check.assumptions:
            out += ['', 'Not covered / assumed:'] + ['- ' + a for a in check.assumptions]
        out.append('')
    out += ['## Planted bugs', '', 'Each was planted from the text of a property; "caught by" lists the checks that exit 1 with it (own check, or all where tried).', '', '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    res = json.load(open(os.path.join(ROOT, 'seeded', 'RESULTS.json')))
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        f = os.path.join(ROOT, 'seeded', d, 'meta.json')
        if not os.path.exists(f): continue
        meta = json.load(open(f))
        codes = res.get(d, {}).get('codes', {})
        got = [c for c, l in codes.items() if 1 in l]
        esc = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
        out.append('| %s | %s | %s | %s | %s |' % (d, meta['property'], esc(meta['what_it_breaks']), esc(meta['needs']), ', '.join(got) or ('**missed**' if codes else '?')))
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read().split(MARK)[0].rstrip()
    open(path, 'w').write(text + '\n\n' + '\n'.join(out) + '\n')

main()
