"""The whole journey: a disassembly file, packets, losses, recovery, and a solution file that gives the program back."""
import os
import runpy
import shutil
from mon.core import W
from mon import gen
from checks import channel, recovery
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
from semantic_codec.corruption.corruptors import JSONCorruptor, PacketCorruptor, RandomCorruptor
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, deinterleave, interleave
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
from semantic_codec.solution.solution_io import SolutionReader
import recover_program

PROPERTY = 'C30'
RULE = ('random programs of 1..5 functions written as disassembly, and shipped ones, read, sent as interleaved packets '
        'some of which are lost (or randomly corrupted), recovered (also pass by pass, discards chained over many passes), stored and read back; the recovery repeated from '
        'the stored corrupted program; the program as started from the command line. Non-trivial: something was lost; distinct by program and losses.')
ASSUMPTIONS = ['the program consists of contiguous functions of defined instructions, functions listed in address order',
               'at most 9 lost bits per instruction']
LEVEL_NOTE = 'sampled journeys; the program at the end compared with the program at the start, word by word'
MIN_EVENTS = {'journeys': 60, 'words_given_back': 1500, 'replayed': 30, 'packet_losses': 30, 'random_losses': 8,
              'surviving_bits': 20000, 'reports': 120, 'shipped': 2,
              'pass_scores': 1000, 'many_passes': 15, 'started': 2}
OUTPUTS = ('corrupted_program.txt', 'initial_solution.sol', 'final_solution.sol', 'in.disam', 'corrupted.json')


def write(fs):
    lines = ['.functions'] + ['0x%x;%s' % (b[0].addr, n) for n, b in fs] + ['', '.text']
    lines += ['0x%x;%08x;mnem;ops' % (i.addr, i.enc) for _, b in fs for i in b]
    with open('in.disam', 'w') as f:
        f.write('\n'.join(lines) + '\n')


def solution(path):
    """What someone holding only the solution file makes of the program: {address: encoding}."""
    original, _ = SolutionReader().read(path)
    return {a: v[-1].encoding for a, v in original.items()}


def raw(path):
    with open(path, 'rb') as f:
        return f.read()


def losses(ctx, n):
    """Packets and losses with at most 9 lost bits per instruction."""
    rng = ctx.rng
    for _ in range(200):
        count = rng.choice([16, 17, 32, 48, 64, rng.randrange(16, 130)])
        order = [int(x) for x in build_2d_interleave_sp(count, True)]
        lost = rng.sample(order, rng.choice([1, 1, 2, 3]))
        lb, sh = channel.lost_bits(n, 2, order, lost), channel.shifted_lost_bits(n, 2, order, lost)[0]
        if max([len(v) for v in list(lb.values()) + list(sh.values())] or [0]) <= 9 and \
                sum(2 ** len(v) for v in lb.values()) <= 3000:
            return count, order, lost
    count = 16 * n      # one chunk in each packet
    return count, [int(x) for x in build_2d_interleave_sp(count, True)], rng.sample(range(count), min(n, 20))


def eliminated(v):
    """Whether some candidate is to go, by the scores of the candidates of an address."""
    scores = [s for _, s, _, _ in v]
    return 0 in scores or (1 in scores and min(scores) < 1)


def go(ctx, path, want):
    """path: the disassembly. want: {address: encoding}."""
    rng = ctx.rng
    n = len(want)
    fs = ElfioTextDisassembleReader(path).read_functions()
    count, order, lost = losses(ctx, n)
    packets = rng.random() < .75
    if packets:
        c = PacketCorruptor(count, n, None, list(lost), 2, 'corrupted.json')
        ctx.ev('packet_losses')
    else:
        c = RandomCorruptor(rng.choice([10, 40]), rng.choice([1, 2, 3]), True)
        c.corrupted_program_path = 'corrupted.json'
        ctx.ev('random_losses')
    ctx.note(instructions=n, packets=count if packets else 'random', lost=lost)
    kept, start, corrupt = [], {}, c.corrupt

    def watched(program):
        kept.append(corrupt(program))
        start.update({a: [i.encoding for i in v] for a, v in kept[-1].items()})
        return kept[-1]
    c.corrupt = watched
    steps = []
    passes, asked = rng.choice([1, 2, 3]), []
    watch = recovery.observed(steps)

    def made(*args, **named):
        r = watch(*args, **named)
        recover = r.recover

        def go_on():
            asked.append(r.passes)
            return recover()
        r.recover = go_on
        return r
    given = [(f.name, [(i.address, i.encoding) for i in f.instructions]) for f in fs]
    recover_program.run_recovery(fs, c, made, passes)
    # the program given remains what it was
    ctx.eq([(f.name, [(i.address, i.encoding) for i in f.instructions]) for f in fs], given, 'given-changed',
           'the functions given were changed by recovery')
    touched = [str(i) for f in fs for i in f.instructions if i.ignore or i.scores_by_rule]
    ctx.check(not touched, 'given-changed', 'instructions of the functions given were scored or discarded by recovery',
              instructions=touched[:5])
    ctx.check(asked and set(asked) == {passes}, 'passes-asked', 'the recuperator is not asked for the passes wanted',
              wanted=passes, asked=asked)
    # Recovery goes on as long as there is something to eliminate
    for k, s in enumerate(steps):
        gone = [hex(a) for a, v in s['after'].items() if eliminated(v)]
        ctx.check(bool(gone) == (k < len(steps) - 1), 'passes', 'recovery does not go on until nothing is left to eliminate',
                  passed=k + 1, of=len(steps), eliminated=gone[:10])
    ctx.ev('passes', len(steps))
    first, final = raw('initial_solution.sol'), raw('final_solution.sol')
    for name in ('initial_solution.sol', 'final_solution.sol'):
        got = solution(name)
        ctx.eq(sorted(got), sorted(want), 'addresses', 'addresses lost or invented', file=name)
        for a, e in want.items():
            ctx.check(got[a] == e, 'program-changed', 'the program read back is not the program sent', addr=hex(a),
                      got=hex(got[a]), want=hex(e), file=name)
            ctx.ev('words_given_back')
    # What the recovery left is what is stored, up to the original
    left = {a: [i.encoding for i in v] for a, v in kept[-1].items()}
    _, stored = SolutionReader().read('final_solution.sol')
    for a, v in left.items():
        ctx.eq([i.encoding for i in stored[a]], v[:v.index(want[a]) + 1], 'stored-candidates',
               'the solution does not hold the candidates that are left', addr=hex(a))
    ctx.ev('addresses_stored', len(left))
    reports = sorted(f for f in os.listdir('.') if f.startswith('instructions'))
    ctx.check(len(reports) >= 3 and os.path.exists('corrupted_program.txt'), 'reports', 'a report is missing',
              files=os.listdir('.'))
    for r in reports + ['corrupted_program.txt']:
        with open(r) as f:
            t = f.read()
        ctx.eq(t.count('Original Instruction:'), n, 'report-incomplete', 'the report does not cover the program', file=r)
        ctx.check(t.rstrip().splitlines()[-1].startswith('DEPTHS:'), 'report-truncated', 'the report ends early', file=r)
        ctx.ev('reports')
    text = raw(reports[-1])
    if packets:
        # what the receiver has: the surviving bits, which must agree with the solution
        words = [want[a] for a in sorted(want)]
        p = interleave(words, order, 2)
        for x in lost:
            del p[x]
        data, _ = deinterleave(p, order, 2)
        gone = channel.lost_bits(n, 2, order, lost)
        end = solution('final_solution.sol')
        for k, a in enumerate(sorted(want)):
            mask = 0xffffffff
            for b in gone.get(k, ()):
                mask &= ~(1 << b)
            have = int(data[k]) if k < len(data) else 0
            ctx.check(have & mask == end[a] & mask, 'receiver', 'surviving bits contradict the solution', addr=hex(a),
                      have=hex(have), solution=hex(end[a]), mask=hex(mask))
            ctx.ev('surviving_bits', bin(mask).count('1'))
        # nothing but the bits taken for lost is guessed (where the prediction itself is off, see C07 and C08)
        bad = []
        for guess in (gone, channel.shifted_lost_bits(n, 2, order, lost)[0]):
            masks = {a: 0xffffffff - sum(1 << b for b in set(guess.get(k, ()))) for k, a in enumerate(sorted(want))}
            bad.append([(when, hex(a), hex(e)) for when, p in (('before', start), ('after', left)) for a, v in p.items()
                        for e in v if (e ^ want[a]) & masks[a]])
        ctx.check(not all(bad), 'candidate-bits', 'a bit that is not lost differs in a candidate', candidates=bad[0][:10])
        ctx.ev('candidates_checked', sum(map(len, start.values())))
    if rng.random() < .7:
        # recovering again from the stored corrupted program gives the very same files
        recovery.clean([f for f in OUTPUTS if not f.endswith(('json', 'disam'))])
        recover_program.run_recovery(ElfioTextDisassembleReader(path).read_functions(), JSONCorruptor('corrupted.json'),
                                     ProbabilisticRecuperator)
        ctx.eq(raw('initial_solution.sol'), first, 'replay', 'recovering the stored program starts differently')
        ctx.eq(raw('final_solution.sol'), final, 'replay', 'recovering the stored program ends differently')
        ctx.eq(raw(reports[-1]), text, 'replay', 'recovering the stored program reports differently')
        ctx.ev('replayed')
    ctx.ev('journeys')
    ctx.distinct(sorted(want.items()), raw('corrupted.json'))
    recovery.clean(OUTPUTS)


def generated(ctx):
    fs = recovery.functions(ctx.rng)
    write(fs)
    go(ctx, 'in.disam', {i.addr: i.enc for _, b in fs for i in b})


def shipped(ctx):
    """The first functions of a sample program (the whole of it in the thorough tier)."""
    path = setup.files[ctx.index % len(setup.files)]
    fs = ElfioTextDisassembleReader(path).read_functions()
    fs = sorted((f for f in fs if f.instructions), key=lambda f: f.start_addr())
    take, total = [], 0
    for f in fs:
        if total and total + len(f.instructions) > (300 if ctx.thorough else 150):
            break
        take.append((f.name, [gen.Ins(i.encoding, i.address, '', '', 14) for i in f.instructions]))
        total += len(f.instructions)
    write(take)
    ctx.ev('shipped')
    go(ctx, 'in.disam', {i.addr: i.enc for _, b in take for i in b})


def cascade(ctx):
    """The recovery is that of its passes, one by one, also when many of them are needed."""
    rng = ctx.rng
    if ctx.index % 2:
        fs, outcome = recovery.chain(rng)
    else:
        fs = recovery.functions(rng)
        outcome = recovery.flips(rng, [i for _, b in fs for i in b], rng.choice([.3, 1]), rng.choice([2, 4]))
    ins = [i for _, b in fs for i in b]
    want = recovery.by_hand(ins, outcome, {b[0].addr: (b[0].addr, b[-1].addr) for _, b in fs})
    steps = []
    recover_program.run_recovery(recovery.elf(fs), recovery.Given(outcome), recovery.observed(steps))
    ctx.eq(len(steps), len(want), 'passes', 'recovery takes another number of passes')
    for k, (s, w) in enumerate(zip(steps, want)):
        for a in w:
            ctx.eq(sorted(s['after'][a], key=lambda c: c[0]), sorted(w[a], key=lambda c: c[0]), 'pass-differs', 'a pass scores the candidates in another way', step=k + 1, addr=hex(a))
            ctx.ev('pass_scores', len(w[a]))
    if len(steps) > 3:
        ctx.ev('many_passes')
    end = solution('final_solution.sol')
    ctx.eq(end, {i.addr: i.enc for i in ins}, 'program-changed', 'the program read back is not the program sent')
    ctx.note(passes=len(steps), instructions=len(ins))
    ctx.distinct('cascade', sorted(outcome.items()))
    recovery.clean(OUTPUTS)


def script(ctx):
    """The program as it is started from the command line, on another program in the place of the sample."""
    rng = ctx.rng
    while True:
        fs = gen.function_program(rng, rng.randrange(6, 12), 60, 130, rng.choice([0x1000, 0x104f8, 0x80000000]),
                                  kinds=recovery.KINDS, regs=13)
        if all(not gen.caps(i).is_undefined for _, b in fs for i in b):
            break
    write(fs)
    os.makedirs('run/tests/data')
    shutil.copy(os.path.join(setup.repo, 'recover_program.py'), 'run')
    for p in setup.files:
        shutil.copy('in.disam', 'run/tests/data/' + os.path.basename(p))
    runpy.run_path('run/recover_program.py', run_name='__main__')
    want = {i.addr: i.enc for _, b in fs for i in b}
    for name in ('initial_solution.sol', 'final_solution.sol'):
        got = solution(name)
        ctx.eq(got, want, 'program-changed', 'the program read back is not the program sent', file=name)
    left = SolutionReader().read('initial_solution.sol')[1]
    lost = [i for i, (_, v) in enumerate(sorted(left.items())) if len(v) > 1]
    ctx.check(bool(lost), 'nothing-lost', 'the program started lost nothing')
    # The lost packet holds words from the whole program, not from a part of it
    ctx.check(lost[0] < len(left) // 3 and lost[-1] > 2 * len(left) // 3, 'loss-spread',
              'the losses are not spread over the program', size=len(left), lost=lost)
    ctx.ev('started')
    ctx.ev('words_given_back', len(want))
    ctx.distinct('script', sorted(want.items()))
    shutil.rmtree('run')
    recovery.clean(OUTPUTS)


def setup(repo):
    setup.repo = repo
    setup.files = gen.sample_files(repo)


WORKLOADS = [W('generated', generated, 100, 2500), W('shipped', shipped, 4, 24),
             W('cascade', cascade, 80, 1500), W('script', script, 2, 16)]
