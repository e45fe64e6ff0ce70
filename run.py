#!/opt/venv/bin/python
"""Entry point of every check:  run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--workload W] [--index I]

Exit 0: held on everything explored.  Exit 1 (+ VIOLATION line): broken.  Exit 2: inconclusive / harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def _environment():
    """Deterministic environment: fixed hash seed, no bytecode written or read, code under test from /repo's tree."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent',
            'PYTHONPATH': REPO, 'MPLBACKEND': 'Agg', 'VERIF_REEXEC': '1', 'PYTHONWARNINGS': 'ignore'}
    if os.environ.get('VERIF_REEXEC') != '1' or any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        os.execve(PY, [PY, '-s', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    _environment()
    sys.path.insert(0, HERE)
    from mon import core
    sys.exit(core.main(sys.argv[1:], HERE, REPO))
