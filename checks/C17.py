"""The scores of the recovery: probabilities that follow the metadata, and the elimination they cause."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules, \
    probabilistic_rules_remove_step
import recover_program

PROPERTY = 'C17'
RULE = ('(a) random programs of functions with 1..16 candidates per address, some discarded, scored and eliminated by '
        'the pipeline steps; (b) score tables combined directly; (c) candidate lists with given scores eliminated. '
        'Non-trivial: an address with two live candidates; distinct by program, table or list.')
ASSUMPTIONS = ['the program consists of contiguous functions of defined instructions starting at its first address',
               'the original of every address is among its candidates']
LEVEL_NOTE = ('count, register and branch scores recomputed from the metadata; heuristic scores (control flow, register '
              'distance) only bounded; elimination recomputed from the scores')
MIN_EVENTS = {'candidates_scored': 5000, 'counts_checked': 5000, 'branch_scores': 200, 'eliminations': 150,
              'excluded_by_metadata': 300, 'score_tables': 2000, 'asked_again': 50, 'undefined_candidates': 100, 'lists': 300, 'long_lists': 60, 'tables_changed': 500}


def expected_counts(collector, program):
    """Per candidate: the scores of condition, operation and registers, recomputed."""
    cond, op, reg = {}, {}, {}
    for v in program.values():
        live = [i for i in v if not i.ignore]
        for d, vals in ((cond, {i.conditional_field for i in live}), (op, {i.opcode_field for i in live}),
                        (reg, {s for i in live for s in i.storages_used()})):
            for k in vals:
                d[k] = d.get(k, 0) + 1

    def ratio(counts, k, possible):
        return counts[k] / possible[k] if k in counts else 0

    def scores(i):
        res = {'pc': ratio(collector.condition_count, i.conditional_field, cond),
               'po': ratio(collector.instruction_count, i.opcode_field, op)}
        if not (i.is_branch or i.is_push_pop):
            res['pr'] = min(ratio(collector.storage_count, s, reg) for s in i.storages_used())
        return res
    return scores


def scored(ctx):
    rng = ctx.rng
    fs = recovery.functions(rng)
    ins = [i for _, b in fs for i in b]
    outcome = recovery.flips(rng, ins)
    items = [(a, [CAPSInstruction(e, a) for e in v]) for a, v in outcome.items()]
    if rng.random() < .4:
        rng.shuffle(items)
    program = dict(items)
    orig = {i.addr: i.enc for i in ins}
    for v in program.values():
        for c in v:
            if len(v) > 1 and c.encoding != orig[c.address] and rng.random() < .05:
                c.ignore = True
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    fns = {b[0].addr: (b[0].addr, b[-1].addr) for _, b in fs}
    model = DefaultProbabilisticModel()
    first, last = ins[0].addr, ins[-1].addr
    keep = rng.random() < .5
    rec = ProbabilisticRecuperator(collector, program, functions=fns)
    for turn in range(3):
        want = expected_counts(collector, program)
        if not keep:
            rec = ProbabilisticRecuperator(collector, program, functions=fns)
        elif turn:
            ctx.ev('asked_again')
        rec.recover()
        start = first
        for a in sorted(program):
            start = a if a in fns else start
            for c in program[a]:
                if c.ignore:
                    if c.is_undefined:
                        ctx.ev('undefined_candidates')
                        ctx.eq(c.score(), 0, 'undefined', 'an undefined candidate has a score', addr=hex(a),
                               enc=hex(c.encoding))
                    continue
                table = dict(c.scores_by_rule)
                for k, p in table.items():
                    ctx.check(0 <= p <= 1, 'not-a-probability', 'a score is not a probability', rule=k, score=p,
                              candidate=str(c), addr=hex(a))
                for k, p in want(c).items():
                    ctx.check(k in table and abs(table[k] - p) < 1e-12, 'count-score',
                              'the score does not follow the metadata', rule=k, got=table.get(k), want=p,
                              candidate=str(c), addr=hex(a))
                    ctx.ev('counts_checked')
                if c.is_branch:
                    t = c.jumping_address
                    if t is None:
                        p = 2 * model.just_any_jump_is_valid
                    elif start <= t <= fns[start][1]:
                        p = model.branch_to_this_method
                    elif t in fns:
                        p = model.branch_to_other_method_start
                    elif not first <= t <= last:
                        p = model.just_any_jump_is_valid
                    else:
                        p = 2 * model.just_any_jump_is_valid
                    ctx.check(abs(table['pbd'] - p) < 1e-12, 'branch-score', 'wrong score of a branch target',
                              got=table.get('pbd'), want=p, candidate=str(c), addr=hex(a), function=fns[start])
                    ctx.ev('branch_scores')
                s = c.score()
                ctx.check(0 <= s <= 1, 'not-a-probability', 'the score is not a probability', score=s)
                ctx.ev('candidates_scored')
                if min(table.values()) == 0:
                    ctx.eq(s, 0, 'impossible-kept', 'a candidate with an impossible feature scores', table=table,
                           candidate=str(c))
                    ctx.ev('excluded_by_metadata')
                elif max(table['pc'], table['po']) == 1:
                    ctx.eq(s, 1, 'certain', 'the only possible condition or operation does not win', table=table,
                           candidate=str(c))
        if any(sum(not c.ignore for c in v) > 1 for v in program.values()):
            ctx.distinct(turn, sorted((a, [c.encoding for c in v]) for a, v in program.items()))
        for a, v in program.items():
            eliminate(ctx, v)
        for v in program.values():
            for c in v:
                ctx.check(c.conditional_field in collector.condition_count and
                          c.opcode_field in collector.instruction_count, 'impossible-kept',
                          'a candidate the metadata excludes survived', candidate=str(c))
    ctx.note(functions=len(fs), addresses=len(ins), left=sum(map(len, program.values())),
             at_first=sum(map(len, outcome.values())))


def eliminate(ctx, v):
    before = list(v)
    scores = [c.score() for c in v]
    want = [c for c, s in zip(before, scores) if s == 1] or [c for c, s in zip(before, scores) if s != 0]
    n = recover_program.remove_bad_candidates_at_addr(v)
    ctx.eq([id(c) for c in v], [id(c) for c in want], 'elimination', 'the wrong candidates were removed',
           scores=scores, kept=[scores[k] for k, c in enumerate(before) if any(c is x for x in v)])
    ctx.eq(n, len(before) - len(want), 'elimination-count', 'wrong number of removed candidates', scores=scores)
    ctx.ev('eliminations')


class Scored(object):
    def __init__(self, s):
        self.s = s

    def score(self):
        return self.s


def lists(ctx):
    rng = ctx.rng
    for _ in range(10):
        pool = rng.choice([[0, 1], [0, .5], [.5, 1], [0, .25, .5, 1], [1e-12, 1 - 1e-12, 1, 0], [0], [1]])
        v = [Scored(rng.choice(pool)) for _ in range(rng.randrange(0, 12))]
        if rng.random() < .2:
            # many, the certain one or the impossible one anywhere
            low = rng.choice([[.5], [0], [0, .5], [.2, .3, .9]])
            v = [Scored(rng.choice(low)) for _ in range(rng.choice([65, 100, 300]))]
            for _ in range(rng.choice([0, 1, 1, 2])):
                v.insert(rng.choice([0, len(v), rng.randrange(len(v))]), Scored(rng.choice([1, 1, 0])))
            ctx.ev('long_lists')
        eliminate(ctx, v)
        ctx.ev('lists')
        ctx.distinct('list', [x.s for x in v], rng.random())
    ctx.note(example=[x.s for x in v])


ARM = {'branch': [0xeafffffe, 0xebfffffe, 0xe12fff1e, 0x0a000003, 0xe8bd8010, 0xe1a0f00e, 0xe591f000],
       'push': [0xe92d4010, 0xe8bd4010, 0x192d4ff0], 'other': [0xe0810002, 0xe5910004, 0xe1510002, 0xe3a00001]}


def tables(ctx):
    rng = ctx.rng
    for _ in range(20):
        kind = rng.choice(sorted(ARM))
        c = CAPSInstruction(rng.choice(ARM[kind]), 0x1000)
        keys = [k for k in ('pc', 'pr', 'prd', 'po', 'pcfg', 'pupo', 'pbd') if rng.random() < .8]
        t = {k: rng.choice([0, 1, 1, .5, .001, 1 - 1e-5, 1 - 1e-9, 1e-9, 1e-200, rng.random()]) for k in keys}
        g = lambda k: t.get(k, 1)
        prod = g('pc') * g('po') * g('pcfg') * {'branch': g('pbd'), 'push': g('pr') * g('pupo'),
                                                'other': g('pr') * g('prd')}[kind]
        got = probabilistic_rules(t, c)
        ctx.check(abs(got - prod) <= 1e-12 * prod, 'combination', 'the scores are combined wrong', table=t, kind=kind, got=got,
                  want=prod)
        if 0 in t.values():
            want = 0
        elif max(g('pc'), g('po')) == 1:
            want = 1
        else:
            want = prod
        got = probabilistic_rules_remove_step(t, c)
        ctx.check(abs(got - want) <= 1e-12 * want, 'elimination-score', 'the elimination score is wrong', table=t, kind=kind,
                  got=got, want=want)
        dead = CAPSInstruction(c.encoding, 0x1000)
        dead.ignore = True
        ctx.eq(probabilistic_rules_remove_step(t, dead), 0, 'discarded', 'a discarded candidate scores', table=t)
        # the instruction itself, whose scores change from one question to the next
        c.score_function = rng.choice([probabilistic_rules, probabilistic_rules_remove_step])
        for _ in range(3):
            c.scores_by_rule.clear()
            c.scores_by_rule.update(t)
            now, then = c.score(), c.score_function(t, c)
            ctx.check(now == then, 'score-stale', 'the score of an instruction is not that of its table', table=t,
                      got=now, want=then)
            values = list(t.values())
            if rng.random() < .5:
                rng.shuffle(values)
                t = dict(zip(t, values))
            elif t:
                t[rng.choice(keys)] = rng.random()
            c.score_function = rng.choice([c.score_function, probabilistic_rules, probabilistic_rules_remove_step])
        ctx.ev('tables_changed')
        ctx.ev('score_tables', 2)
        ctx.distinct('table', kind, sorted(t.items()))
        bad = dict(pc=1.5, po=1, pcfg=1)
        ctx.check(ctx.raises(RuntimeError, probabilistic_rules, bad, c), 'accepts-invalid', 'a score above 1 is accepted')
    ctx.note(kind=kind, table=t)


WORKLOADS = [W('scored', scored, 160, 4000), W('tables', tables, 80, 3000), W('lists', lists, 60, 2000)]
