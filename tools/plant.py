#!/usr/bin/env python3
"""plant.py SPEC.py [ID...] -- confirm planted bugs in a scratch copy and store them under seeded/.

SPEC.py defines BUGS: list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo).
demo is Python code run with the repository as working directory; it must raise or exit
non-zero with the change.  Then runs the property's check on the changed copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(tree):
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('passed') or base.get('tests') or base
    out = os.path.join(tree, '..', 'o.json')
    rc, o = sh('. /opt/vp/env.sh; %s -B -m pytest -q -p no:cacheprovider kajiki 2>&1 | tail -5' % PY, tree)
    return o


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        tree = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', tree, symlinks=True)
        try:
            ok = True
            demo = ('#!/bin/bash\n# exit 0: the property holds; non-zero: it does not\n'
                    '[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\n'
                    'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$(dirname "$0")/demo.py"\n')
            d = os.path.join(tmp, 'demo')
            os.mkdir(d)
            open(os.path.join(d, 'demo.sh'), 'w').write(demo)
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            rc, o = sh(['bash', os.path.join(d, 'demo.sh')], tree)
            if rc:
                print(b['id'], 'DEMO FAILS ON UNCHANGED TREE\n', o[-1500:])
                continue
            for f, old, new in b['edits']:
                p = os.path.join(tree, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    print(b['id'], f, 'text found', s.count(old), 'times')
                    ok = False
                    break
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            if not ok:
                continue
            rc, o = sh(['bash', os.path.join(d, 'demo.sh')], tree)
            if rc == 0:
                print(b['id'], 'DEMO PASSES WITH THE CHANGE')
                continue
            why = o.strip().splitlines()[-1][:150] if o.strip() else ''
            o = tests(tree)
            if '142 passed' not in o or 'failed' in o:
                print(b['id'], 'TESTS:', o.strip().splitlines()[-1])
                continue
            rc, diff = sh('git diff', tree)
            out = os.path.join(HERE, 'seeded', b['id'])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            for n in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(d, n), os.path.join(out, n))
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            rc, o = sh([PY, os.path.join(HERE, 'check.py'), b['prop']], HERE, SYMKJ_REPO=tree,
                       SYMKJ_EVIDENCE=os.path.join(tmp, 'evidence'), PYTHONHASHSEED='0')
            line = [l for l in o.splitlines() if l.startswith(('scenario:', 'ERROR'))]
            print('%-14s %s rc=%d %s %s  [demo: %s]' % (b['id'], b['prop'], rc, {1: 'CAUGHT', 0: 'MISSED', 2: 'NO ANSWER'}.get(rc),
                                         (line or [''])[0][:160], why), flush=True)
        finally:
            shutil.rmtree(tmp, True)


main()
