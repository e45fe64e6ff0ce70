#!/opt/venv/bin/python
"""Plants and confirms bugs.  plant.py FILE [ID...]: FILE defines bug(id, property, file edits, needs, breaks, demo).

For each: an exported copy of /repo's HEAD with the edits applied must import, pass the stable tests, and make demo.sh
fail; demo.sh must pass on /repo. Then /verif/seeded/<id>/ is written. tools/seeded.py runs the checks against them."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds for this scenario.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0',
           MPLBACKEND='Agg')
BUGS = {}


def bug(i, prop, edits, needs, breaks, demo):
    assert i not in BUGS, i
    BUGS[i] = (prop, edits, needs, breaks, demo)


def tests(copy):
    env = dict(ENV, PYTHONPATH=copy)
    out = os.path.join(copy, 'junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--continue-on-collection-errors', '--randomly-seed=0', '--randomly-dont-reorganize',
                    '--ignore=test_DARMInstruction.py', '--ignore=test_instructionModifier.py',
                    '--ignore=test_instructionPartFrequencyChange.py',
                    '--ignore=test_instructionPartFrequencyCounter.py', '-o', 'junit_family=xunit2',
                    '--junitxml=' + out], cwd=copy + '/tests', env=env, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(out).getroot().iter('testcase'):
        if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]:
            ok.add(c.get('classname') + '::' + c.get('name'))
    os.remove(out)
    return sorted(STABLE - {k.split('tests.', 1)[-1] for k in ok})


def demo(folder, cwd):
    return subprocess.run(['bash', folder + '/demo.sh'], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def export(to):
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + to, shell=True, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=to,
                   check=True)


def plant(i):
    prop, edits, needs, breaks, src = BUGS[i]
    copy = tempfile.mkdtemp(prefix='plant')
    try:
        export(copy)
        for f, old, new in edits:
            s = open(os.path.join(copy, f)).read()
            if s.count(old) != 1:
                print(i, 'EDIT', f, s.count(old), repr(old))
                return False
            open(os.path.join(copy, f), 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE, text=True, check=True).stdout
        folder = os.path.join(HERE, 'seeded', i)
        os.makedirs(folder, exist_ok=True)
        for n, t in (('demo.sh', SH), ('demo.py', src.lstrip('\n')), ('patch.diff', diff),
                     ('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1))):
            with open(os.path.join(folder, n), 'w') as f:
                f.write(t)
        missing = tests(copy)
        good, bad = demo(folder, '/repo'), demo(folder, copy)
        ok = not missing and good.returncode == 0 and bad.returncode not in (0, 124)
        print(i, prop, 'OK' if ok else 'NOT KEPT', 'tests:', missing or 'pass', 'demo:', good.returncode, bad.returncode,
              '' if ok else (good.stdout[-600:] if good.returncode else bad.stdout[-600:]))
        print('    ' + (bad.stdout.strip().splitlines() or ['-'])[-1][:150])
        if not ok:
            shutil.rmtree(folder)
        return ok
    finally:
        shutil.rmtree(copy)


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
    todo = sys.argv[2:] or list(BUGS)
    bad = [i for i in todo if not plant(i)]
    print('not kept:', bad)
