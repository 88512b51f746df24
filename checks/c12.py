"""C12: tree aggregation.  All histories up to a bounded length over nested paths."""
import e2e
from gen import *

OPS = [
    [('+', 'd/x', 2)],
    [('+', 'd/y', 1), ('+', 'd/x', 1)],
    [('+', 'd/e/z', 3)],
    [('+', 'w', 1), ('+', 'd/e/z', 1)],
    [('del', 'd/x')],
    [('mv', 'd/x', 'd/e/x')],
    [('del', 'w'), ('+', 'w/q', 2)],
    [],
]
FIRST = [[('+', 'd/x', 2), ('+', 'w', 1)], [('+', 'd/e/z', 3), ('+', 'd/x', 1), ('+', 'd/y', 5)], []]


# other names for d, e, w and x
NAMES = [dict(d='..d', e='...', w='..w', x='.x'), dict(d='-d', e='"e"', w='w w', x='é'), dict(d=':(d', e='$e', w='#w', x='x\\y'), dict(d='d ', e=' ', w='~', x='d => e')]


def renamed(ops, names):
    return [tuple([o[0]] + ['/'.join(names.get(c, c) for c in p.split('/')) if isinstance(p, str) else p for p in o[1:]]) for o in ops]


def specs(depth, alphabet, first, datesets, modes, walks):
    for seq in sequences(depth, [who(a, ops=o) for o in alphabet for a in (A, B)], [who(A, ops=o) for o in first]):
        for ds in datesets:
            cmds = [dict(opt=dict(sub='tree', mode=m, show_all=True)) for m in modes] + [dict(opt=dict(sub='tree', mode='l'))]
            yield dict(commits=commits(seq, ds), now=NOW, cmds=cmds, walks=walks)


def run(ck):
    ck.cov['rule'] = 'every sequence of (author x file operations) of the stated depths x modes; one tree command each, compared byte for byte with the model'
    t = NOW - 400 * DAY
    inc = [t, t + 50 * DAY, t + 90 * DAY, t + 300 * DAY]
    mix = [t + 50 * DAY, t, t + 50 * DAY, t + 300 * DAY]
    M = ['', 'l', 'f', 'm', 'c']
    for names in NAMES:
        ops, first = [renamed(o, names) for o in OPS], [renamed(o, names) for o in FIRST[:2]]
        e2e.explore(ck, specs(1 if ck.quick else 2, ops, first, [mix], M, ['seq', 'par']), what='odd names')
    if ck.quick:
        e2e.explore(ck, specs(2, OPS, FIRST, [inc, mix], M, ['seq', 'par']), what='depth 2')
        e2e.explore(ck, specs(3, OPS, FIRST, [mix], ['', 'f'], ['seq']), what='depth 3')
        e2e.explore(ck, specs(3, OPS[1:6], FIRST[1:2], [inc], ['l', 'm', 'c'], ['par']), what='depth 3 parallel')
    else:
        e2e.explore(ck, specs(3, OPS, FIRST, [inc, mix], M, ['seq', 'par']), what='depth 3')
        e2e.explore(ck, specs(4, OPS[:6], FIRST[:2], [mix], ['', 'f', 'm'], ['par']), what='depth 4')
