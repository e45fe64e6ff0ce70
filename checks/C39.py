"""The printed report of a recovery: its figures are those of the candidates it lists."""
import os
import re
import sys
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
import recover_program

PROPERTY = 'C39'
RULE = ('random corrupted programs (0..25 addresses, 1..16 candidates in any order, textual twins, scores with many '
        'ties, some discarded, rules missing in some score tables), reported one after the other over the same file. '
        'Non-trivial: an address with several candidates; distinct by program and scores.')
ASSUMPTIONS = ['the original of every address is among its candidates']
LEVEL_NOTE = 'summary and every line recomputed from the candidates'
MIN_EVENTS = {'reports': 200, 'candidate_lines': 4000, 'lost': 200, 'ties': 100, 'won': 200, 'error_free': 10,
              'bad_rules': 100, 'discarded': 100}


def make(rng):
    original, recovered = [], []
    grades = rng.choice([[0, .5, 1], [.5], [0, .1, .2, .3, .4, .5], [1],
                         [.5, .5 + 1e-12, .5 - 1e-11, .5 + 1e-8], [.5, .5 + 1e-14, .5 - 1e-15, 1e-17, 0], [.5, .5, .5 - 1e-14]])
    names = rng.choice([('pc', 'po', 'pcfg'), ('pr', 'pbd', 'ppp'), ('prd', 'CFG1', 'REG_COUNT2')])
    for i in gen.program(rng, rng.choice([0, 1, 3, 10, 25]), gaps=rng.random() < .3):
        original.append(CAPSInstruction(i.enc, i.addr))
        bits = rng.sample(range(32), rng.choice([0, 1, 1, 2, 4, 6]))
        encs = sorted(gen.flip_set(i.enc, bits))
        rng.shuffle(encs)
        v = [CAPSInstruction(e, i.addr) for e in encs]
        for c in v:
            for k in names:
                if rng.random() < .9:
                    c.scores_by_rule[k] = rng.choice(grades)
            if rng.random() < .15:
                c.ignore = True
        recovered.append(v)
    if rng.random() < .1:
        recovered = [[c for c in v if c.encoding == o.encoding] for o, v in zip(original, recovered)]
    return original, recovered


LINE = re.compile(r'(X?)(0x[0-9a-f]+) (\+\+|--) \[(\d+)\] (.*?) : (-?[0-9.]+): --> ')


def report(ctx):
    rng = ctx.rng
    path = 'report.txt'
    for turn in range(2):
        original, recovered = make(rng)
        before = [sorted((c.encoding, c.ignore, sorted(c.scores_by_rule.items())) for c in v) for v in recovered]
        want = [sorted(v, key=lambda c: -c.score()) if len(v) > 1 else list(v) for v in recovered]
        out = sys.stdout
        recover_program.print_report(path, original, recovered)
        ctx.check(sys.stdout is out, 'stdout', 'the standard output was not given back')
        ctx.eq([sorted((c.encoding, c.ignore, sorted(c.scores_by_rule.items())) for c in v) for v in recovered], before,
               'mutated', 'reporting changed the candidates')
        sys.stdout.flush()
        text = open(path).read()
        errors = lost = tied = won = ties = 0
        depths, bad, lines = {}, {}, []
        for o, v in zip(original, want):
            if len(v) < 2:
                continue
            errors += 1
            me = [c for c in v if c.encoding == o.encoding][0]
            top = v[0].score()
            if str(v[0]) != str(o) and v[0].encoding != v[1].encoding:
                lost += 1
                for k, s in v[0].scores_by_rule.items():
                    if k in me.scores_by_rule and s > me.scores_by_rule[k]:
                        bad[k] = bad.get(k, 0) + 1
                verdict = 'FAIL'
            elif top == v[1].score() and str(v[0]) != str(v[1]):
                tied += 1
                ties += sum(c.score() == top for c in v)
                verdict = 'TIE'
            else:
                won += 1
                verdict = 'OK'
            d = [c.encoding for c in v].index(o.encoding)
            depths[d] = depths.get(d, 0) + 1
            for c in v:
                lines.append(('X' if c.ignore else '', hex(o.address), '++' if c.encoding == o.encoding else '--',
                              str(c.encoding), '%.6f' % c.score()))
                if c.ignore:
                    ctx.ev('discarded')
        blocks = text.split('Original Instruction: ')
        ctx.eq(len(blocks) - 1, len(original), 'missing', 'an address is not reported')
        got = [(m[0], m[1], m[2], m[3], m[5]) for m in LINE.findall(text.replace('\n', ' \n'))]
        ctx.eq(got, lines, 'lines', 'the candidates are not listed by score')
        ctx.ev('candidate_lines', len(lines))
        m = re.search(r'^ERRORS: (\d+) -- LOSING: (\d+) -- TIDE: (\d+) --RECOVERED: (\d+) -- RATIO: ([0-9.e-]+) *$', text,
                      re.M)
        ctx.check(m is not None, 'summary', 'no summary', end=text[-300:])
        ctx.eq(tuple(map(int, m.groups()[:4])), (errors, lost, tied, won), 'summary',
               'the figures are not those of the candidates')
        ctx.check(abs(float(m.group(5)) - (won / errors if errors else 1)) < 1e-9, 'ratio', 'wrong ratio',
                  got=m.group(5))
        m = re.search(r'^DEPTHS: (\{.*\})$', text, re.M)
        got = {int(k): int(n) for k, n in re.findall(r'(\d+): (\d+)', m.group(1))} if m else None
        ctx.eq(got, depths, 'depths', 'wrong positions of the originals')
        part = text.split('BAD RULES:')[-1]
        got = {k: int(n) for k, n in re.findall(r'^(\w+) : (\d+)$', part, re.M)}
        ctx.eq(got, bad, 'bad-rules', 'wrong count of the rules that favoured a false winner')
        ctx.ev('bad_rules', sum(bad.values()))
        m = re.search(r'AVERAGE TIE COUNT: ([0-9.]+)', text)
        ctx.eq(m is not None, tied > 1, 'ties', 'the average tie is reported when it should not, or not')
        if m:
            ctx.check(abs(float(m.group(1)) - ties / tied) < 1e-9, 'ties', 'wrong average of the ties')
        ctx.ev('lost', lost)
        ctx.ev('ties', tied)
        ctx.ev('won', won)
        ctx.ev('reports')
        if not errors:
            ctx.ev('error_free')
        else:
            ctx.distinct(before)
        ctx.note(addresses=len(original), errors=errors, lost=lost, tied=tied, won=won)
    os.remove(path)


WORKLOADS = [W('report', report, 500, 5000)]
