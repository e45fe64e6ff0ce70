#!/opt/venv/bin/python
"""seeded.py [ID...]: runs the property's quick check against every planted bug in a copy of /repo; prints who catches
(and keeps it in tools/caught.json)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, props=None, seed='1'):
    folder = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(folder + '/meta.json'))
    copy = tempfile.mkdtemp(prefix='seeded')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + copy, shell=True, check=True)
        subprocess.run(['git', 'apply', folder + '/patch.diff'], cwd=copy, check=True)
        res = {}
        for p in props or [meta['property']]:
            r = subprocess.run([HERE + '/run.py', p, '--no-evidence', '--seed', seed], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=copy, VERIF_TIER='quick'))
            line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            res[p] = (r.returncode, line[:1], r.stdout.splitlines()[-1:])
        return i, meta['property'], res
    finally:
        shutil.rmtree(copy)


if __name__ == '__main__':
    args = sys.argv[1:]
    props = None
    if args and args[0] == '--all':
        props = sorted(f[:-3] for f in os.listdir(HERE + '/checks') if f[0] == 'C' and f[1:3].isdigit())
        args = args[1:]
    ids = args or sorted(os.listdir(HERE + '/seeded'))
    save = HERE + '/tools/caught.json'
    known = json.load(open(save)) if os.path.exists(save) else {}
    missed = []
    with ThreadPoolExecutor(2) as ex:
        for i, prop, res in ex.map(lambda i: one(i, props), ids):
            caught = [p for p, (rc, line, _) in res.items() if rc == 1 and line]
            known[i] = sorted(set(caught) | (set() if props else set(known.get(i, [])) - {prop}))
            if prop not in caught:
                missed.append(i)
            print(i, prop, 'CAUGHT' if prop in caught else 'MISSED %s' % (res.get(prop),),
                  ('also ' + ' '.join(p for p in caught if p != prop)) if props else '', flush=True)
    known = {k: v for k, v in known.items() if os.path.isdir(HERE + '/seeded/' + k)}
    json.dump(known, open(save, 'w'), indent=0, sort_keys=True)
    print(len(ids), 'planted', len(missed), 'missed', missed)
