"""Scenarios of recovery: programs in functions, what a channel did to them, and an observed run of the pipeline."""
import os
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.architecture.functions import ElfFunction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
import recover_program

KINDS = ['dp', 'dp', 'dpi', 'dpi', 'cmp', 'cmpi', 'mov', 'movi', 'ldr', 'str', 'ldrb', 'strb', 'ldrr', 'push', 'pop',
         'b', 'b', 'bl', 'bx', 'mul']


def functions(rng, most=5, base=None):
    """[(name, [Ins])], each contiguous; every instruction is defined."""
    if base is None:
        base = rng.choice([0, 0x1000, 0x104f8, 0x7fffff00, 0x80000000, 0xc0008000])
    regs = rng.choice([3, 6, 13])
    apart = rng.random() < .3
    while True:
        fs = gen.function_program(rng, rng.randrange(1, most + 1), 1, rng.choice([3, 14, 30]), base, kinds=KINDS,
                                  apart=apart, regs=regs, cond=rng.choice([None, gen.AL]))
        if all(not gen.caps(i).is_undefined for _, b in fs for i in b):
            return fs


def elf(fs):
    res = []
    for name, body in fs:
        f = ElfFunction(name)
        f.instructions = [gen.caps(i) for i in body]
        res.append(f)
    return res


def flips(rng, ins, share=.5, most=5):
    """{address: encodings in some order}: what a channel may leave; the original is always among them."""
    res = {}
    fields = [list(range(28, 32)), list(range(20, 28)), list(range(12, 20)), list(range(0, 12)), list(range(32))]
    for i in ins:
        bits = []
        if rng.random() < share:
            pool = rng.choice(fields)
            bits = rng.sample(pool, min(len(pool), rng.randrange(1, most)))
        v = sorted(gen.flip_set(i.enc, bits))
        if rng.random() < .3:
            rng.shuffle(v)
        res[i.addr] = v
    return res


class Given(object):
    """A corruptor with a fixed outcome."""
    def __init__(self, outcome):
        self.outcome = outcome

    def corrupt(self, program):
        for a in program:
            program[a] = [CAPSInstruction(e, a) for e in self.outcome[a]]
        return program


def observed(steps):
    """A recuperator class which appends to steps, per pass, what it was given and what it decided."""
    class Observed(ProbabilisticRecuperator):
        def __init__(self, collector, program, **kw):
            super().__init__(collector, program, **kw)
            self.seen = (collector, program, kw.get('functions'))

        def recover(self):
            collector, program, fns = self.seen
            before = {a: [i.encoding for i in v] for a, v in program.items()}
            steps.append({'before': before, 'collector': collector, 'functions': fns, 'program': program})
            super().recover()
            steps[-1]['after'] = {a: [(i.encoding, i.score(), i.ignore, dict(i.scores_by_rule)) for i in v]
                                  for a, v in program.items()}
    return Observed


def by_hand(ins, outcome, fns):
    """The passes of a recovery with the metadata of the program, one by one: [{address: candidates and scores}]."""
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    program = {a: [CAPSInstruction(e, a) for e in outcome[a]] for a in sorted(outcome)}
    res = []
    while True:
        ProbabilisticRecuperator(collector, program, functions=dict(fns)).recover()
        res.append({a: [(i.encoding, i.score(), i.ignore, dict(i.scores_by_rule)) for i in v] for a, v in program.items()})
        if not sum([recover_program.remove_bad_candidates_at_addr(v) for v in program.values()]):
            return res


def chain(rng):
    """A program where each pass settles one more address, which then settles the next: ([(name, [Ins])], outcome)."""
    ops = ['and', 'eor', 'sub', 'rsb', 'add', 'adc', 'sbc', 'rsc', 'orr', 'bic']
    n = rng.randrange(3, 11)
    rng.shuffle(ops)
    conds = rng.sample(range(14), n)
    base = rng.choice([0, 0x1000, 0x80000000])
    where = rng.sample(range(n), n)
    regs = rng.sample(range(12), 3)
    make = lambda k, at: gen.dp_reg(base + 4 * at, ops[k], *regs, cond=conds[k])
    body, outcome = [None] * n, {}
    for k in range(n):
        body[where[k]] = i = make(k, where[k])
        v = [i.enc] + ([make(k + 1, where[k]).enc] if k + 1 < n else [])
        rng.shuffle(v)
        outcome[i.addr] = v
    return [('main', body)], outcome


def clean(names):
    for n in os.listdir('.'):
        if n in names or n.startswith('instructions'):
            os.remove(n)
