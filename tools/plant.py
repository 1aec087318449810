"""python3 tools/plant.py SPEC.py: writes seeded/<id>/ from BUGS in SPEC.py

BUGS = [dict(id, property, edits=[(file, old, new), ...], demo, needs, what)]"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH=$PWD
exec $PY -W ignore "$(dirname "$0")/demo.py"
'''


def main(spec, only=()):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        patch = ''
        byfile = {}
        for f, old, new in b['edits']:
            src = byfile.get(f) or open(os.path.join(REPO, f)).read()
            assert src.count(old) == 1, (b['id'], f, src.count(old), old)
            byfile[f] = src.replace(old, new)
        for f, src in sorted(byfile.items()):
            p = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label',
                                'b/' + f, os.path.join(REPO, f), '-'],
                               input=src, capture_output=True, text=True)
            patch += p.stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['what']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(b['id'])


main(sys.argv[1], sys.argv[2:])
