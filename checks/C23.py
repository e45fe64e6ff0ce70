"""Damaged or foreign solution files are refused, never read as something else."""
import os
import random
import struct
from mon.core import W
from checks import C22
from semantic_codec.solution.solution_io import SolutionReader, SolutionWriter

PROPERTY = 'C23'
RULE = ('every proper prefix of generated solution files; files with a damaged first word (every bit), other files; '
        'the reader used again on an intact file after each kind of damage. Non-trivial: the file has an address; '
        'distinct by content.')
ASSUMPTIONS = ['damage inside the payload that keeps the layout is not detectable: the format has no checksum']
LEVEL_NOTE = 'exhaustive over truncation points and bits of the first word of each generated file'
MIN_EVENTS = {'truncations': 3000, 'magic_bits': 1000, 'foreign': 100, 'read_after_damage': 50, 'refused_writings': 30}


def damage(ctx):
    rng = ctx.rng
    prog, orig = C22.make(rng, rng.choice([0, 1, 2, 6]))
    SolutionWriter().write_binary('ok.sol', list(orig.values()), prog)
    data = open('ok.sol', 'rb').read()
    reader = SolutionReader()

    def refuse(blob, mech, msg, **kw):
        with open('bad.sol', 'wb') as f:
            f.write(blob)
        try:
            got = reader.read('bad.sol')
        except (RuntimeError, struct.error, EOFError, ValueError, OSError):
            return
        ctx.fail(mech, msg, got=[sorted(x) for x in got], **kw)
    cuts = range(len(data)) if len(data) < 400 else sorted(rng.sample(range(len(data)), 400))
    for n in cuts:
        refuse(data[:n], 'truncated-accepted', 'a truncated file was read', bytes=n, of=len(data))
        ctx.ev('truncations')
    for b in range(64):
        blob = bytearray(data)
        blob[b // 8] ^= 1 << (b % 8)
        refuse(bytes(blob), 'foreign-accepted', 'a file with another first word was read', bit=b)
        ctx.ev('magic_bits')
    for blob in (b'\x7fELF' + data, data[8:] + data[:8], b'{"4096": [1]}' + bytes(40), bytes(64),
                 struct.pack('>Q', SolutionWriter.MAGIC_WORD) + data[8:], data[1:] + b'\0'):
        refuse(blob, 'foreign-accepted', 'a foreign file was read', starts=blob[:8])
        ctx.ev('foreign')
    if prog:
        # a writing refused half way leaves nothing that can be taken for a solution
        lost = rng.choice(list(prog))
        part = {a: [c for c in v if a != lost or c.encoding != orig[a].encoding] for a, v in prog.items()}
        ctx.check(ctx.raises(RuntimeError, SolutionWriter().write_binary, 'part.sol', list(orig.values()), part),
                  'accepts-unsolvable', 'a program without an original was written', addr=hex(lost))
        if os.path.exists('part.sol'):
            refuse(open('part.sol', 'rb').read(), 'refused-writing-accepted',
                   'what a refused writing left was read as a solution', addr=hex(lost), addresses=len(prog))
            os.remove('part.sol')
        ctx.ev('refused_writings')
    o, p = reader.read('ok.sol')
    ctx.eq({a: [c.encoding for c in v] for a, v in o.items()}, {a: [x.encoding] for a, x in orig.items()}, 'state',
           'an intact file is read differently after damaged ones')
    ctx.ev('read_after_damage')
    if prog:
        ctx.distinct(data)
    ctx.note(bytes=len(data), addresses=len(prog))
    os.remove('ok.sol')
    os.remove('bad.sol')


WORKLOADS = [W('damage', damage, 80, 2000)]
