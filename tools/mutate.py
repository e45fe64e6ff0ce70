#!/opt/venv/bin/python
"""mutate.py OUT.jsonl [FILE...]: small changes of the sources which the stable tests do not notice, and which of the
checks notices each. Those nobody notices are read by hand: either they change nothing that matters, or a check is weak."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'semantic_codec/'
FILES = {
    S + 'architecture/bits.py': 'C01 C02 C05 C06 C10 C12 C21',
    S + 'interleaver/interleaver2d.py': 'C03 C04 C05 C06 C44 C30',
    S + 'corruption/corruption.py': 'C07 C08 C10 C09 C11 C30',
    S + 'corruption/corruptors.py': 'C08 C09 C11 C30',
    S + 'architecture/capstone_instruction.py': 'C12 C13 C15 C17 C41',
    S + 'architecture/instruction.py': 'C12 C13 C15 C17 C25 C27',
    S + 'architecture/functions.py': 'C14 C35 C18',
    S + 'architecture/disassembler_readers.py': 'C14',
    S + 'architecture/instruction_modifier.py': 'C37',
    S + 'architecture/arm_constants.py': 'C12 C13 C15 C27',
    S + 'metadata/metadata_collector.py': 'C15 C16 C41 C17',
    S + 'metadata/probabilistic_model.py': 'C41 C38 C17',
    S + 'metadata/probabilistic_rules/counting_rules.py': 'C34 C38 C40',
    S + 'metadata/probabilistic_rules/rules.py': 'C38 C35 C34 C40',
    S + 'metadata/probabilistic_rules/distance_rule.py': 'C38 C40',
    S + 'metadata/recuperator.py': 'C41 C40 C17 C38 C18 C19',
    S + 'solution/solution_builders.py': 'C31 C20 C21 C30 C18',
    S + 'solution/solution_io.py': 'C22 C23 C30',
    S + 'solution/solution_quality.py': 'C24 C39',
    S + 'compressor/huffman.py': 'C29',
    S + 'compressor/shiftcompressor.py': 'C33',
    S + 'report/print_progress.py': 'C36',
    S + 'probability/probabilities.py': 'C28',
    S + 'static_analysis/cfg.py': 'C25 C27 C26 C32',
    S + 'static_analysis/dominators.py': 'C26 C27',
    S + 'static_analysis/ssa.py': 'C27 C26',
    'libs/dot/dotio.py': 'C32',
    'recover_program.py': 'C39 C18 C17 C30',
    'store_packets.py': 'C33',
}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
       ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
SWAP = {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!='], '!=': ['=='],
        'in': ['not in'], 'not in': ['in'], 'is': ['is not'], 'is not': ['is']}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.BitAnd: ('&', '|'),
       ast.BitOr: ('|', '&'), ast.BitXor: ('^', '|'), ast.LShift: ('<<', '>>'), ast.RShift: ('>>', '<<'),
       ast.Mod: ('%', '*'), ast.Pow: ('**', '*')}


def mutants(text):
    """[(line, what, new text)]"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = text.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    res = []

    def put(n, a, b, new, what):
        res.append((n.lineno, what, (data[:a] + new.encode() + data[b:]).decode()))

    def between(n, left, right, old, news):
        a, b = span(left)[1], span(right)[0]
        seg = data[a:b].decode()
        if old in seg:
            k = seg.index(old)
            for new in news:
                put(n, a + k, a + k + len(old), new, '%s -> %s' % (old, new))

    def skip(n):
        return isinstance(n, ast.If) and ast.unparse(n.test).startswith('__name__')

    def walk(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            old = CMP[type(n.ops[0])]
            between(n, n.left, n.comparators[0], old, SWAP[old])
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            old, new = BIN[type(n.op)]
            between(n, n.left, n.right, old, [new])
        if isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                between(n, l, r, old, [new])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            put(n, a, b, '(' + data[slice(*span(n.operand))].decode() + ')', 'not dropped')
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            a, b = span(n)
            if isinstance(n.value, bool):
                put(n, a, b, str(not n.value), str(n.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    put(n, a, b, '(%d)' % (n.value + d), '%d -> %d' % (n.value, n.value + d))
            else:
                put(n, a, b, repr(n.value * 1.1), '%r * 1.1' % n.value)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(
                n.value, ast.Call):
            t = ast.unparse(n)
            if not t.startswith(('print(', 'sys.stdout.write')):
                a, b = span(n)
                put(n, a, b, 'pass', 'dropped: ' + t[:60])
        if isinstance(n, (ast.If, ast.While)) and not skip(n):
            a, b = span(n.test)
            for v in ('True', 'False') if isinstance(n, ast.If) else ('False',):
                put(n, a, b, v, 'condition ' + v)
        if isinstance(n, ast.IfExp):
            a, b = span(n.test)
            for v in ('True', 'False'):
                put(n, a, b, v, 'condition ' + v)
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    seen, out = set(), []
    for ln, what, t in res:
        if t not in seen:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    compile(t, 'x', 'exec')
            except (SyntaxError, ValueError):
                continue
            seen.add(t)
            out.append((ln, what, t))
    return out


def one(job):
    f, ln, what, new, copies = job
    copy = copies.pop()
    path = os.path.join(copy, f)
    old = open(path).read()
    try:
        open(path, 'w').write(new)
        limit = ['bash', '-c', 'ulimit -v 5000000; exec "$@"', 'x', 'timeout', '-k', '5']
        try:
            r = subprocess.run(limit + ['60', sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import plant; '
                                'print(len(plant.tests(%r)))' % (HERE + '/tools', copy)], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=90)
            if r.stdout.strip() != '0':
                return 'tests'
        except subprocess.TimeoutExpired:
            return 'tests'
        for p in FILES[f].split():
            try:
                r = subprocess.run(['timeout', '-k', '5', '240', HERE + '/run.py', p, '--no-evidence', '--procs', '1'],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, VERIF_REPO=copy, VERIF_TIER='quick', VERIF_SEED='1'))
            except UnicodeDecodeError:
                return p
            if 'VIOLATION' in r.stdout:
                return p
            if r.returncode != 0:
                return p + '?%d' % r.returncode
        return ''
    finally:
        open(path, 'w').write(old)
        copies.append(copy)


if __name__ == '__main__':
    out, files = sys.argv[1], sys.argv[2:] or list(FILES)
    done = set()
    if os.path.exists(out):
        done = {(d['file'], d['line'], d['what'], d['n']) for d in map(json.loads, open(out))}
    copies = []
    for _ in range(8):
        d = tempfile.mkdtemp(prefix='mutate')
        plant.export(d)
        copies.append(d)
    jobs = []
    for f in files:
        text = open(os.path.join(copies[0], f)).read()
        count = {}
        for ln, what, new in mutants(text):
            k = (f, ln, what)
            count[k] = count.get(k, 0) + 1
            if k + (count[k],) not in done:
                jobs.append((f, ln, what, new, copies, count[k]))
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'jobs', flush=True)
    log = open(out, 'a')
    try:
        with ThreadPoolExecutor(8) as ex:
            for j, by in zip(jobs, ex.map(lambda j: one(j[:5]), jobs)):
                log.write(json.dumps({'file': j[0], 'line': j[1], 'what': j[2], 'n': j[5], 'by': by}) + '\n')
                log.flush()
    finally:
        for d in copies:
            shutil.rmtree(d)
