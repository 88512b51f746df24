"""C11: merges.  All commit graphs of a bounded size with every choice of parents."""
import itertools
import e2e
from gen import *


def graphs(n, maxpar=3):
    def par(i):
        for k in range(1, min(maxpar, i) + 1):
            yield from itertools.permutations(range(i), k) if k == 2 else itertools.combinations(range(i), k)
    yield from itertools.product([()], *[list(par(i)) for i in range(1, n)])


def reach(g):
    seen, todo = set(), [len(g) - 1]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += g[i]
    return len(seen) == len(g)


CMDS = [dict(csv=True, limit=0, mode=m, merges=g) for m in ('', 'l', 'f', 'm', 'c') for g in (False, True)] + \
       [dict(sub='tree', show_all=True, mode=m, merges=g) for m in ('', 'l') for g in (False, True)] + \
       [dict(sub='hist', mode=m, merges=g) for m in ('', 'l', 'f') for g in (False, True)]
LIGHT = [dict(csv=True, limit=0, merges=True), dict(csv=True, limit=0), dict(csv=True, limit=0, mode='l', merges=True), dict(csv=True, limit=0, mode='f'),
         dict(sub='tree', show_all=True, merges=True), dict(sub='hist', mode='l', merges=True), dict(sub='hist', merges=False),
         dict(csv=True, limit=0, mode='f', merges=True, paths=['s'])]


def specs(n, styles, auths, cmds, walks):
    t = NOW - 20 * DAY
    for g in graphs(n):
        if not reach(g):
            continue
        for au in auths(n):
            for st in styles:
                cs = []
                for i, ps in enumerate(g):
                    ops = [('+', 'f%d' % i, i + 1)]
                    if i == 0:
                        ops.append(('+', 's', 2))
                    elif i % 2 and len(ps) < 2:
                        ops.append(('+', 's', 1))
                    if len(ps) > 1:
                        ops = [('take', k) for k in range(1, len(ps))] if st != 'evil' else [('+', 'm%d' % i, 3), ('+', 's', 4)]
                        if st == 'both':
                            ops = ops + [('+', 'm%d' % i, 2)]
                    a = (A, B, C)[au[i]]
                    cs.append(who(a, date=t + i * DAY, ops=ops, parents=list(ps)))
                yield dict(commits=cs, now=NOW, cmds=[dict(opt=o) for o in cmds], walks=walks)


def run(ck):
    ck.cov['rule'] = ('every connected commit graph of the stated size (up to 3 parents, both parent orders) x author assignment x kind of merge '
                      '(clean, with own changes, both); each case is one command compared byte for byte with the model')
    two = lambda n: [(0,) + x for x in itertools.product((0, 1), repeat=n - 1)]
    few = lambda n: [tuple(i % 2 for i in range(n)), (0,) + (1,) * (n - 1)]
    if ck.quick:
        e2e.explore(ck, specs(3, ['clean', 'evil', 'both'], two, CMDS, ['seq', 'par']), what='3 commits')
        e2e.explore(ck, specs(4, ['clean', 'evil'], few, CMDS, ['seq', 'par']), what='4 commits')
        e2e.explore(ck, specs(4, ['both'], few, LIGHT, ['cold', 'warm']), what='4 commits, cache')
    else:
        e2e.explore(ck, specs(4, ['clean', 'evil', 'both'], two, CMDS, ['seq', 'par', 'cold', 'warm']), what='4 commits')
        e2e.explore(ck, specs(5, ['clean', 'both'], few, LIGHT, ['seq', 'par']), what='5 commits')
