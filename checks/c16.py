"""C16: order and determinism.  All small sets of authors with tied and untied metrics x modes x map iteration orders."""
import itertools
import e2e
from gen import *

NAMES = [('Bob', 'b@x'), ('Alice', 'z@x'), ('alice', 'c@x'), ('Zoe', 'a@x')]


def specs(nauth, profiles, seeds, opts):
    t = NOW - 100 * DAY
    for k, asg in enumerate(itertools.product(range(len(profiles)), repeat=nauth)):
        cs = []
        for i, p in enumerate(asg):
            for (d, ops) in profiles[p]:
                cs.append(who(NAMES[i], date=t + d * DAY, ops=[(o[0], o[1] % i if '%' in o[1] else o[1]) + tuple(o[2:]) for o in ops]))
        cmds = []
        for j, o in enumerate(opts):
            for s in (seeds if j < 3 else seeds[(k + j) % len(seeds):][:1]):
                cmds.append(dict(opt=o, env={'GWV_MAPSEED': str(s)}))
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq', 'par'])


P1 = ('+', 'p%d', 2)
PROFILES = [
    [(0, [('+', 'p%d', 2)])],
    [(1, [('+', 'p%d', 1), ('+', 'q%d', 1)])],
    [(0, [('+', 'p%d', 1)]), (1, [('+', 'p%d', 1)])],
    [(1, [('+', 'p%d', 3)])],
    [(1, []), (1, [('+', 'p%d', 2)])],
    [(0, [('+', 's', 1), ('+', 'q%d', 1)])],
]
OPTS = [dict(csv=True, mode='l', limit=0), dict(csv=True, limit=2), dict(sub='tree', mode='f', show_all=True),
        dict(csv=True, mode='f', limit=1), dict(mode='m'), dict(csv=True, mode='c', limit=2, email=True), dict(sub='hist'), dict(sub='hist', mode='l', email=True),
        dict(csv=True, limit=3, mode='m'), dict(sub='tree', mode='l', email=True), dict(limit=0), dict(mode='l', limit=1)]


def many(seeds):
    """More authors than one map group holds, all tied or in two ranks; every iteration offset."""
    t = NOW - 100 * DAY
    for n in (8, 9, 12, 17, 30):
        for split in (0, 1, n // 2):
            cs = [who(('A%02d' % ((i * 7) % n), 'e%02d@x' % ((i * 5) % n)), date=t + (DAY if i < split else 0), ops=[('+', 'f%d' % (i % 3), 1)]) for i in range(n)]
            cmds = []
            for s in seeds:
                for o in OPTS[:3] + OPTS[5:8]:
                    cmds.append(dict(opt=o, env={'GWV_MAPSEED': str(s)}))
            yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq', 'par'])


def shared(seeds):
    """One email with several names and one name with several emails."""
    t = NOW - 100 * DAY
    ids = [('Ann', 'a@x'), ('Bea', 'a@x'), ('Ann', 'b@x'), ('Cat', 'a@x')]
    for asg in itertools.permutations(ids, 3):
        cs = [who(a, date=t + i % 2, ops=[('+', 'f%d' % i, 1)]) for i, a in enumerate(asg)]
        cmds = [dict(opt=o, env={'GWV_MAPSEED': str(s)}) for s in seeds for o in
                [dict(email=True), dict(email=True, mode='l'), dict(sub='tree', email=True, show_all=True), dict(sub='hist', email=True, mode='f'), dict(csv=True, email=True, mode='f'), dict(csv=True, mode='l'), dict(sub='tree')]]
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq', 'par'])


def close(deltas, lines):
    """Values that differ as little as they can: dates by a second, counts by one."""
    t = NOW - 100 * DAY - NOW % 60
    for a, b in itertools.product(deltas, repeat=2):
        for names in itertools.permutations(NAMES[:2]):
            cs = [who(names[0], date=t + a, ops=[('+', 'p', 2)]), who(names[1], date=t + b, ops=[('+', 'q', 2)]), who(NAMES[2], date=t + 1, ops=[('+', 'r', 2)])]
            yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(csv=True, limit=2, mode=m) if m else dict(csv=True, limit=2)) for m in (None, 'c', 'm', 'l', 'f')] +
                       [dict(opt=dict(sub='tree', mode=m)) for m in 'cm'], walks=['seq', 'par'])
    for a, b in itertools.product(lines, repeat=2):
        for x, y in ((0, 0), (0, 1), (1, 0)):
            cs = [who(NAMES[0], date=t, ops=[('+', 'p', a)]), who(NAMES[1], date=t, ops=[('+', 'q', b)]), who(NAMES[0], date=t, ops=[('-', 'p', x)] if x else [('+', 's', 1)]), who(NAMES[1], date=t, ops=[('-', 'q', y)] if y else [('+', 'u', 1)])]
            yield dict(commits=cs, now=NOW, cmds=[dict(opt=o) for o in (dict(csv=True, mode='l'), dict(csv=True, mode='f'), dict(sub='tree', mode='l'), dict(sub='hist', mode='l', limit=None))], walks=['seq', 'par'])


def far():
    """Values far apart: dates up to the end of the century, millions of lines."""
    dates = [0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 4000000000]
    for a, b in itertools.permutations(dates, 2):
        cs = [who(NAMES[0], date=a, ops=[('+', 'p', 2)]), who(NAMES[1], date=b, ops=[('+', 'q', 2)]), who(NAMES[2], date=5, ops=[('+', 'r', 2)])]
        yield dict(commits=cs, now=4070000030, cmds=[dict(opt=dict(csv=True, mode=m, limit=2)) for m in ('', 'c', 'm')] + [dict(opt=dict(sub='tree', mode=m)) for m in 'cm'] + [dict(opt=dict(mode='m'))], walks=['seq', 'par'])
    for a, b in itertools.permutations([1, 40000, 70000, 1100000], 2):
        cs = [who(NAMES[0], date=5, ops=[('bulk', 'p', a)]), who(NAMES[1], date=9, ops=[('bulk', 'q', b)])]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=o) for o in (dict(csv=True, mode='l'), dict(sub='tree', mode='l'), dict(mode='l'))], walks=['seq', 'par'])


def run(ck):
    ck.cov['rule'] = ('every assignment of metric profiles (tied and untied in commits, lines, files and dates) to authors x modes x limits x map iteration '
                      'start offsets; the order has to be the total order of the model whatever the offset')
    e2e.explore(ck, far(), what='values far from each other')
    if ck.quick:
        e2e.explore(ck, specs(3, PROFILES, [0, 1, 2, 3, 5, 7], OPTS), what='3 authors')
        e2e.explore(ck, shared(range(4)), what='shared identities')
        e2e.explore(ck, many([0, 1, 3, 7, 12]), what='many authors')
        e2e.explore(ck, close([0, 1, 2, 59, 60, 3600], [1, 2, 3]), what='values close to each other')
    else:
        e2e.explore(ck, specs(4, PROFILES, range(8), OPTS), what='4 authors')
        e2e.explore(ck, shared(range(8)), what='shared identities')
        e2e.explore(ck, many(range(64)), what='many authors')
        e2e.explore(ck, close([0, 1, 2, 59, 60, 61, 3599, 3600, 86399, 86400], [1, 2, 3, 999, 1000, 1001]), what='values close to each other')
