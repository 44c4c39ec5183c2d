"""Creates seeded/<id>/ folders from a spec file: a Python file with SEEDS = [dict(id, property, file, edits=[(old, new)...], demo, needs, breaks)]."""
import json, os, runpy, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys
from hypertag import HyperHTML, DOM, Tag, TagFunction, Markup, Runtime
def render(script, **ctx): return HyperHTML().render(script, **ctx)
def outcome(fun, *args, **kw):
    try: return fun(*args, **kw)
    except Exception as ex: return type(ex).__name__
def put(path, text):
    import os
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f: f.write(text)
def expect(got, want):
    if got != want:
        print('got:  %r\\nwant: %r' % (got, want))
        sys.exit(1)
'''
SH = '''#!/bin/bash
# run with cwd = the repository
cd "${PWD}"
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
def main():
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        files = s.get('files') or [(s['file'], s['edits'])]
        patch = ''
        for file, edits in files:
            text = orig = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + file], capture_output=True, text=True, check=True).stdout
            for old, new in edits:
                assert text.count(old) == 1, (s['id'], text.count(old), old)
                text = text.replace(old, new)
            with tempfile.TemporaryDirectory() as t:
                for n, x in (('a', orig), ('b', text)):
                    p = os.path.join(t, n, file); os.makedirs(os.path.dirname(p))
                    with open(p, 'w') as f: f.write(x)
                patch += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + file, 'b/' + file], cwd=t, capture_output=True, text=True).stdout
        with open(d + '/patch.diff', 'w') as f: f.write(patch)
        with open(d + '/demo.sh', 'w') as f: f.write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as f: f.write(PRE + s['demo'].strip('\n') + '\n')
        with open(d + '/meta.json', 'w') as f: json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1); f.write('\n')
        print(s['id'])
main()
