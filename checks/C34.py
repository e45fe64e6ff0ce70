"""The counting rules: a value is worth what the metadata has left of it, shared by those who could have it."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount

PROPERTY = 'C34'
RULE = ('random programs with 1..16 candidates per address (addresses settled from the start or by discarding), '
        'addresses asked in any order, in several passes, one or several rules. Non-trivial: both settled and open '
        'addresses; distinct by program and discarded candidates.')
ASSUMPTIONS = ['a candidate alone at its address is the original, and the metadata is that of the original program',
               'which registers an instruction uses is decided by C13']
LEVEL_NOTE = 'every score recomputed from the metadata and the live candidates'
MIN_EVENTS = {'scores_compared': 5000, 'settled': 1000, 'settled_by_discarding': 300, 'repeated': 500, 'branches': 100,
              'discarded_untouched': 300, 'passes': 50, 'scored_anew': 100}

RULES = {'COND_COUNT': (ConditionalCount, lambda c: [c.conditional_field], 'condition_count'),
         'INST_COUNT': (InstructionCount, lambda c: [c.opcode_field], 'instruction_count'),
         'REG_COUNT': (RegisterCount, lambda c: c.registers_used(), 'storage_count')}


def worth(fields, counts, program):
    left, open_ = dict(counts), {}
    for v in program.values():
        live = [c for c in v if not c.ignore]
        for c in live:
            for f in fields(c):
                if len(live) == 1:
                    left[f] -= 1
                else:
                    open_[f] = open_.get(f, 0) + 1
    return {f: left[f] / open_[f] for f in left if f in open_}


def counted(ctx):
    rng = ctx.rng
    ins = gen.program(rng, rng.choice([2, 5, 12, 25]), gaps=rng.random() < .5, regs=rng.choice([3, 13]),
                      kinds=recovery.KINDS)
    ins = [i for i in ins if not gen.caps(i).is_undefined]
    outcome = recovery.flips(rng, ins, rng.choice([.3, .7]))
    orig = {i.addr: i.enc for i in ins}
    items = [(a, [CAPSInstruction(e, a) for e in v]) for a, v in outcome.items()]
    rng.shuffle(items)
    program = dict(items)
    for a, v in program.items():
        alone = rng.random() < .2
        for c in v:
            if c.encoding != orig[a] and (alone or rng.random() < .2):
                c.ignore = True
        n = sum(not c.ignore for c in v)
        if n == 1:
            ctx.ev('settled')
            if len(v) > 1:
                ctx.ev('settled_by_discarding')
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    tables = [dict(collector.condition_count), dict(collector.instruction_count), dict(collector.storage_count)]
    names = rng.sample(sorted(RULES), rng.randrange(1, 4))
    rules = {}
    for name in names:
        R, fields, table = RULES[name]
        rules[name] = R(program, collector=collector)
        ctx.eq(R.short_name(), name, 'name', 'a rule changed its name')
    first = rng.choice([1, 1, 2, 9])
    for r in rules.values():
        r.current_pass = first
    for turn in range(rng.randrange(1, 4)):
        if turn:
            # Another pass, with new rules: some more candidates are gone
            for a, v in program.items():
                for c in v:
                    if c.encoding != orig[a] and rng.random() < .3:
                        c.ignore = True
            rules = {n: RULES[n][0](program, collector=collector) for n in names}
            for r in rules.values():
                r.current_pass = first + turn
            ctx.ev('passes')
        order = sorted(program)
        rng.shuffle(order)
        want = {n: worth(RULES[n][1], getattr(collector, RULES[n][2]), program) for n in names}
        for a in order:
            for n in names:
                key = n + str(first + turn)
                before = [dict(c.scores_by_rule) for c in program[a]]
                updated = rules[n].recover(a)
                live = [c for c in program[a] if not c.ignore]
                ctx.eq(bool(updated), bool(live), 'update-unreported', 'giving the first scores is not reported')
                for c, b in zip(program[a], before):
                    if c.ignore:
                        ctx.eq(dict(c.scores_by_rule), b, 'discarded-scored', 'a discarded candidate got a score')
                        ctx.ev('discarded_untouched')
                        continue
                    ctx.eq({k: v for k, v in c.scores_by_rule.items() if k != key}, b, 'others-changed',
                           'the scores of other rules or passes changed', rule=key)
                    fs = RULES[n][1](c)
                    w = sum(want[n].get(f, 0) / len(fs) for f in fs)
                    if n == 'REG_COUNT' and c.is_branch:
                        w += 1e-6
                        ctx.ev('branches')
                    ctx.check(key in c.scores_by_rule and abs(c.scores_by_rule[key] - w) < 1e-9, 'score',
                              'the score is not the share of what is left', rule=n, got=c.scores_by_rule.get(key),
                              want=w, candidate=str(c), addr=hex(a), live=len(live), turn=turn)
                    ctx.ev('scores_compared')
                if rng.random() < .3:
                    ctx.check(not rules[n].recover(a), 'update-reported', 'scoring again reported a change')
                    ctx.ev('repeated')
                    live = [c for c in program[a] if not c.ignore]
                    some = rng.sample(live, rng.randrange(0, len(live) + 1))
                    was = {}
                    for c in some:
                        # The score somehow lost or other than it should be
                        was[id(c)] = c.scores_by_rule.pop(key)
                        if rng.random() < .5:
                            c.scores_by_rule[key] = was[id(c)] + rng.choice([1, 1e-4, -1e-6])
                    ctx.eq(bool(rules[n].recover(a)), bool(some), 'update-unreported',
                           'scoring anew some candidates is not reported', candidates=len(live), anew=len(some))
                    ctx.check(all(abs(c.scores_by_rule.get(key, -1) - was[id(c)]) < 1e-9 for c in some), 'score',
                              'a score is not set right again')
                    ctx.ev('scored_anew', len(some))
    ctx.eq([dict(collector.condition_count), dict(collector.instruction_count), dict(collector.storage_count)], tables,
           'metadata-changed', 'the rules changed the metadata')
    ctx.distinct(sorted((a, [(c.encoding, c.ignore) for c in v]) for a, v in program.items()), names)
    ctx.note(addresses=len(program), rules=names)


def needs_metadata(ctx):
    for R, _, _ in RULES.values():
        ctx.check(ctx.raises(RuntimeError, R, {}), 'no-metadata', 'a counting rule without metadata was accepted')
    ctx.distinct('none')


WORKLOADS = [W('counted', counted, 250, 6000), W('needs_metadata', needs_metadata, 1, 1)]
