"""Write seeded/<id>/ from a definitions file (development only; no check uses it)

usage: mkbug.py DEFS.py [ID...]

DEFS.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)], demo (Python code),
accel (0, 1 or 'both': which build the demo runs with), needs, breaks.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'f15d50a'

DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case, 1: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
%s
'''
RUN = {
    0: 'PYTHONPATH=$PWD exec /opt/venv/bin/python "$here/demo.py"',
    1: 'PYTHONPATH=$PWD:$PWD/accelerate exec /opt/venv/bin/python "$here/demo.py"',
    'both': 'PYTHONPATH=$PWD /opt/venv/bin/python "$here/demo.py" || exit 1\n'
            'PYTHONPATH=$PWD:$PWD/accelerate exec /opt/venv/bin/python "$here/demo.py"',
}


def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout


def make(bug):
    tmp = tempfile.mkdtemp(prefix='mkbug-')
    try:
        wt = tmp + '/w'
        sh('git', 'clone', '-q', '--no-hardlinks', os.environ.get('BASE_REPO', '/repo'), wt)
        for name, old, new in bug['edits']:
            path = os.path.join(wt, name)
            text = open(path, newline='').read()
            if text.count(old) != 1:
                raise SystemExit('%s: %d matches of %r in %s' % (bug['id'], text.count(old), old, name))
            open(path, 'w', newline='').write(text.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], check=True, capture_output=True).stdout
        mine = []
        removed = 0
        for name in {e[0] for e in bug['edits']}:
            bl = sh('git', '-C', wt, 'blame', '-s', '-l', 'HEAD', '--', name).splitlines()
            for line in sh('git', '-C', wt, 'diff', '-U0', '--', name).splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:]
                    start, _, n = a.partition(',')
                    n = int(n or 1)
                    removed += n
                    for i in range(int(start), int(start) + n):
                        if not bl[i - 1].lstrip('^').startswith(BASE):
                            mine.append((name, i, bl[i - 1][-60:]))
        if mine:
            print('%s: WARNING removed lines are not the original ones: %s' % (bug['id'], mine))
        if not removed:
            print('%s: WARNING removes no line' % bug['id'])
        out = os.path.join(HERE, 'seeded', bug['id'])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO % RUN[bug.get('accel', 0)])
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print(bug['id'], 'written')
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) == 2 or b['id'] in sys.argv[2:]:
            make(b)
