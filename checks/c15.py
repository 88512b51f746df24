"""C15: winners, numbers and bars.  All small distributions of contributions over authors and days."""
import itertools
import e2e
from gen import *

VALS = [0, 1, 2, 18, 36, 37, 71, 1000]


def lines_specs(vals, cells, pack=24):
    """cells values: (A day1, B day1, A day2 ...) as line counts, one commit per non-zero cell."""
    t = NOW - 20 * DAY
    cs, cmds = [], []
    for vs in itertools.product(vals, repeat=cells):
        if not any(vs):
            continue
        n = len(cs)
        first = True
        for i, v in enumerate(vs):
            if v == 0:
                continue
            cs.append(who((A, B)[i % 2], date=t + (i // 2) * DAY, ops=[('+', 'f%d' % i, v)], parents=[] if first else [len(cs) - 1], ref='refs/heads/b%d' % n))
            first = False
        cmds.append(dict(opt=dict(sub='hist', mode='l', revs=['b%d' % n])))
        if len(cmds) >= pack:
            yield cs, cmds
            cs, cmds = [], []
    if cmds:
        yield cs, cmds


def count_specs(maxn, cells, pack=16):
    """Numbers of commits and files; files are shared between authors and days (index modulo 3)."""
    t = NOW - 20 * DAY
    cs, cmds = [], []
    for vs in itertools.product(range(maxn + 1), repeat=cells):
        if not any(vs):
            continue
        n = len(cs)
        first = True
        for i, v in enumerate(vs):
            for k in range(v):
                who_ = (A, B)[i % 2]
                cs.append(who(who_, date=t + (i // 2) * DAY + k, ops=[('+', 'f%d' % ((k + i) % 3), 1), ('+', 'g%d' % k, 1)], parents=[] if first else [len(cs) - 1], ref='refs/heads/b%d' % n))
                first = False
        cmds.append(dict(opt=dict(sub='hist', revs=['b%d' % n])))
        cmds.append(dict(opt=dict(sub='hist', mode='f', revs=['b%d' % n])))
        if len(cmds) >= pack:
            yield cs, cmds
            cs, cmds = [], []
    if cmds:
        yield cs, cmds


def wrap(gen, walks):
    for cs, cmds in gen:
        yield dict(commits=cs, refs={'refs/heads/main': 0}, now=NOW, cmds=cmds, walks=walks)


def big():
    """Many commits or files in a day (the bar scale is the largest total once it exceeds the width), long names, months."""
    t = NOW - 20 * DAY
    for a, b, c in itertools.product([1, 36, 37, 50], [0, 1, 35, 36], [1, 40]):
        cs = []
        for who_, day, n in ((A, 0, a), (B, 0, b), (B, 1, c)):
            for k in range(n):
                cs.append(who(who_, date=t + day * DAY + k, ops=[('+', 'f%d' % k, 1)] if k < 3 else []))
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(sub='hist', revs=['HEAD'])), dict(opt=dict(sub='hist', email=True)), dict(opt=dict(sub='hist', mode='f'))], walks=['seq', 'par'])
    for n in (35, 36, 37, 80):
        cs = [who(A, date=t, ops=[('+', 'd/f%d' % k, 1) for k in range(n)]), who(B, date=t, ops=[('+', 'd/f%d' % k, 1) for k in range(n // 2)] + [('+', 'e', 1)]),
              who(B, date=t + 2 * DAY, ops=[('+', 'e%d' % k, 1) for k in range(7)])]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(sub='hist', mode=m, email=e)) for m in 'fl' for e in (False, True)], walks=['seq', 'par'])
    for name in ('x' * 24, 'x' * 25, 'x' * 26, '漢' * 12, '漢' * 13, 'é' * 30):
        for span in (5, 100, 2000):
            cs = [dict(name=name, email=name.replace('漢', 'k') + '@x', date=NOW - span * DAY, ops=[('+', 'f', 3)]), who(A, date=NOW - span * DAY, ops=[]), who(A, date=NOW - 2 * DAY, ops=[('+', 'f', 9)])]
            yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(sub='hist', mode=m, email=e)) for m in ('', 'f', 'l') for e in (False, True)], walks=['seq', 'par'])


def run(ck):
    ck.cov['rule'] = ('every assignment of values to (author, day) cells, in commits, files and lines, with values on both sides of the bar width; '
                      'compared byte for byte with the model')
    if ck.quick:
        e2e.explore(ck, wrap(lines_specs(VALS, 3), ['seq', 'par']), what='lines, 3 cells')
        e2e.explore(ck, wrap(lines_specs([0, 1, 2, 37], 4), ['seq']), what='lines, 4 cells')
        e2e.explore(ck, wrap(count_specs(2, 4), ['seq', 'par']), what='commits and files')
    else:
        e2e.explore(ck, wrap(lines_specs(VALS, 4), ['seq', 'par']), what='lines, 4 cells')
        e2e.explore(ck, wrap(lines_specs([0, 1, 40], 6), ['seq']), what='lines, 6 cells')
        e2e.explore(ck, wrap(count_specs(3, 4), ['seq', 'par']), what='commits and files')
    e2e.explore(ck, big(), what='large values and names')
