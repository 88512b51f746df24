"""C09: per-author metrics.  All histories up to a bounded length over an alphabet of
(author, file operations) and date orders, in every mode, sequential and parallel."""
import hashlib, itertools, os, shutil
import build, e2e
from gen import *

OPS = [
    [('+', 'x', 2)],
    [('+', 'y', 3), ('+', 'x', 1)],
    [('=', 'x', 1, 2)],
    [('-', 'x', 1)],
    [('mv', 'x', 'd/z')],
    [('del', 'x')],
    [('bin', 'b')],
    [],
]
FIRST = [[('+', 'x', 4)], [('bin', 'b')], [], [('+', 'x', 2), ('+', 'y', 1), ('empty', 'e')]]


def specs(depth, ops, first, datesets, paths):
    for seq in sequences(depth, [who(a, ops=o) for o in ops for a in (A, B)], [who(A, ops=o) for o in first]):
        for ds in datesets:
            cmds = [dict(opt=dict(csv=True, mode=m, limit=0)) for m in ('l', 'f', '', 'c', 'm')]
            cmds += [dict(opt=dict(csv=True, mode='f', limit=0, paths=p)) for p in paths]
            yield dict(commits=commits(seq, ds), now=NOW, cmds=cmds, walks=['seq', 'par'])


def collision():
    """Two pairs of commits with hashes that begin alike (seven and six digits)."""
    t = NOW - 40 * DAY
    cs = lambda d: [who(A, date=t, ops=[('+', 'x', 4)]), dict(who(B, date=d[0], ops=[('+', 'x', 2)]), parents=[0], cdate=t), dict(who(B, date=d[1], ops=[('+', 'y', 3)]), parents=[0], cdate=t),
                    dict(who(A, date=t + 9 * DAY, ops=[('take', 1), ('+', 'y', 3)]), parents=[1, 2]), who(A, date=t + 9 * DAY, ops=[('+', 'y', 1)])]
    wd = os.path.join(build.scratch(), 'collision')
    live = e2e.Live(dict(commits=cs((t, t)), now=NOW), wd)
    raw = [live.repo.git('cat-file', 'commit', live.h.commits[i].hash) for i in (1, 2)]
    shutil.rmtree(wd)

    def digest(r, d):
        r = r.replace(b'> %d +0000\ncommitter' % t, b'> %d +0000\ncommitter' % d)
        return hashlib.sha1(b'commit %d\0' % len(r) + r).hexdigest()
    first = {digest(raw[0], t + i)[:7]: t + i for i in range(60000)}
    pair = next((first[h], t + i) for i in range(1000000) for h in [digest(raw[1], t + i)[:7]] if h in first)
    live = e2e.Live(dict(commits=cs(pair), now=NOW), wd)
    assert live.h.commits[1].hash[:7] == live.h.commits[2].hash[:7], [c.hash for c in live.h.commits]
    shutil.rmtree(wd)
    forms = [dict(csv=True, mode=m, limit=0) for m in ('l', 'f', '', 'c', 'm')] + [dict(sub='tree'), dict(sub='tree', mode='f', show_all=True), dict(sub='hist', mode='l'), dict(sub='hist'), dict(csv=True, mode='l', merges=True)]
    return dict(commits=cs(pair), now=NOW, cmds=[dict(opt=o) for o in forms], walks=['seq', 'par', 'cold', 'warm'])


def run(ck):
    ck.cov['rule'] = ('every sequence of commits (author x file operations) of the stated depths x date orders; a case is one command on one '
                      'history, compared byte for byte with the reference model; non-trivial: the expected output is not empty')
    t = NOW - 40 * DAY
    inc, dec, tie = [t, t + DAY, t + 2 * DAY, t + 3 * DAY], [t + 3 * DAY, t + 2 * DAY, t + DAY, t], [t, t, t, t]
    mix = [t + DAY, t, t + DAY, t + 2 * DAY]
    if ck.quick:
        plan = [(1, FIRST, [inc]), (2, FIRST, [inc, dec, tie]), (3, FIRST, [inc, mix])]
    else:
        plan = [(1, FIRST, [inc]), (2, FIRST, [inc, dec, tie]), (3, FIRST, [inc, dec, tie, mix]), (4, FIRST[:1] + FIRST[3:], [mix])]
    ck.cov['bounds'] = [dict(depth=d, alphabet=2 * len(OPS), first=len(f), date_orders=len(ds)) for d, f, ds in plan]
    e2e.explore(ck, [collision()], what='similar hashes')
    for d, f, ds in plan:
        e2e.explore(ck, specs(d, OPS, f, ds, [('y',)]), what='depth %d' % d)
