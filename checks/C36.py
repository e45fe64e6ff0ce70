"""The progress bar: never backwards, complete exactly once, silent afterwards."""
import io
import re
import sys
from mon.core import W
from semantic_codec.report.print_progress import TextProgressBar

PROPERTY = 'C36'
RULE = ('every total 0..120 and random ones to 5000, print distances 1..40, bar lengths, decimals, prefixes and '
        'suffixes changed under way, more calls than the total. Non-trivial: at least one partial bar; distinct by '
        'parameters.')
ASSUMPTIONS = ['the print distance is positive; one call per step, at least as many calls as the total']
LEVEL_NOTE = 'the text written is parsed; all small totals enumerated'
MIN_EVENTS = {'bars': 5000, 'calls': 20000, 'completed': 200, 'silent_calls': 500}


def bar(ctx, total):
    rng = ctx.rng
    length, dist = rng.choice([1, 10, 50, 100]), rng.choice([1, 2, 4, 10, 40])
    decimals = rng.randrange(0, 3)
    p = TextProgressBar(iteration=0, total=total, prefix='Work:', suffix='x', decimals=decimals, bar_length=length,
                        print_dist=dist)
    saved, sys.stdout = sys.stdout, io.StringIO()
    try:
        for k in range(max(total, 1) + rng.choice([0, 1, 5, 50])):
            mark = sys.stdout.tell()
            done = '\n' in sys.stdout.getvalue()
            if rng.random() < .05:
                p.suffix = 'y%d' % k
            p.progress()
            ctx.ev('calls')
            if done:
                ctx.check(sys.stdout.tell() == mark, 'noisy-end', 'something was printed after completion', total=total,
                          call=k)
                ctx.ev('silent_calls')
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = saved
    ctx.eq(text.count('\n'), 1, 'completion', 'the end is not reported exactly once', total=total, dist=dist)
    ctx.check(text.endswith('\n'), 'completion', 'something follows the end')
    found = re.findall('\rWork: \\|([█-]*)\\| ([0-9.]+)% [xy]', text)
    ctx.eq(len(found), text.count('\r'), 'format', 'a bar is malformed', text=text[:300])
    values = [float(v) for _, v in found]
    ctx.eq(values, sorted(values), 'backwards', 'the progress goes backwards', values=values[:50], total=total)
    ctx.eq([v for v in values if v >= 100 and v != 100], [], 'overflow', 'more than all is done')
    ctx.eq(values[-1], 100, 'incomplete', 'the last bar is not complete', total=total, values=values[-3:])
    for b, v in found:
        ctx.eq(len(b), length, 'bar-length', 'a bar has another length', bar=b)
        ctx.check('-█' not in b, 'bar-filling', 'a bar is not filled from the left', bar=b)
        ctx.ev('bars')
    fill = [b.count('█') for b, _ in found]
    ctx.eq(fill, sorted(fill), 'bar-shrinks', 'a bar shrinks', fill=fill)
    ctx.eq(fill[-1], length, 'incomplete', 'the last bar is not full')
    ctx.ev('completed')
    if len(found) > 1:
        ctx.distinct(total, length, dist, decimals)
    ctx.note(total=total, dist=dist, printed=len(found))


def small(ctx):
    for _ in range(4):
        bar(ctx, ctx.index)


def large(ctx):
    bar(ctx, ctx.rng.randrange(100, 5000))


WORKLOADS = [W('small', small, 121, 400), W('large', large, 60, 600)]
