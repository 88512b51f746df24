"""C13: which paths the tree shows, and its shape.  All assignments of a status to a universe of nested paths."""
import itertools
import e2e
from gen import *

UNIVERSE = ['b', 'd/a', 'd/c', 'd/e/f', 'd/e/g/h', 'Z/i']
CMDS = [dict(sub='tree'), dict(sub='tree', show_all=True), dict(sub='tree', depth=1), dict(sub='tree', depth=2, show_all=True), dict(sub='tree', mode='l', email=True),
        dict(sub='tree', paths=['d'])]
CWD = [dict(sub='tree', cwd='d'), dict(sub='tree', cwd='d', show_all=True, depth=1), dict(sub='tree', cwd='d', paths=['e']), dict(sub='tree', cwd='d/e', mode='f', show_all=True),
       dict(sub='tree', cwd='d', paths=['..'])]


def specs(universe, states, walks):
    t = NOW - 20 * DAY
    for st in itertools.product(states, repeat=len(universe)):
        cs = []
        for who_, key in ((A, 'aA'), (B, 'bB')):
            ops = [('+', p, i + 1) for i, (p, s) in enumerate(zip(universe, st)) if s in key]
            if ops:
                cs.append(who(who_, date=t + DAY * len(cs), ops=ops))
        if not cs:
            continue
        dels = [('del', p) for p, s in zip(universe, st) if s in 'AB']
        if dels:
            cs.append(who(A, date=t + 9 * DAY, ops=dels))
        cmds = [dict(opt=o) for o in CMDS]
        if any(s in 'ab' for p, s in zip(universe, st) if p.startswith('d/e/')):
            cmds += [dict(opt=o) for o in CWD]
        elif any(s in 'ab' for p, s in zip(universe, st) if p.startswith('d/')):
            cmds += [dict(opt=o) for o in CWD[:2]]
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=walks)


SPECIAL = ['a b', 'é/x', 'é/漢', 'q"uote', 'tab\there', '-dash', 'a.b/c', 'a/b', 'a', 'dir/.hidden', '..x', '*star', '.git-who-no-diff-commits', 'B/y', 'b/Z', 'b/a', 'Bz', ' lead', ' sp/x', 'trail ', 'in /y', ' ', '"', "q'", 'nl\nx', 'a\\b', '#c', '!n', '~t', '(p)/q', 'x=>y', 'x => y', '{a => b}/c', 'HEAD', '-', '...', '100%', '%s', '\x7f']


def special(walks, three):
    """All pairs and triples of awkward names."""
    t = NOW - 20 * DAY
    for n in (1, 2, 3):
        for ps in itertools.combinations(SPECIAL if n < 3 else three, n):
            if any(x.startswith(y + '/') for x in ps for y in ps):
                continue
            cs = [who((A, B, A)[i], date=t + i * DAY, ops=[('+', p, i + 1)]) for i, p in enumerate(ps)]
            more = [dict(opt=dict(mode='f', csv=True, merges=True))]
            if n == 1:
                cs += [who(A, date=t + 5 * DAY, ops=[]), who(C, date=t + 6 * DAY, ops=[]), who(A, date=t + 7 * DAY, ops=[('+', ps[0], 2)])]
            yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(sub='tree')), dict(opt=dict(sub='tree', show_all=True, mode='l'))] + more, walks=walks)


E = 'e69de29bb2d1d6434b8b29ae775ad8c2e48c5391'       # an empty blob
CHECKOUTS = [
    [],
    [['rm', '-q', 'x']],
    [['rm', '-q', '-r', 'd']],
    [['mv', 'x', 'n']],
    [['mv', 'd', 'e']],
    [['update-index', '--force-remove', 'x'], ['hash-object', '-w', '--stdin'], ['update-index', '--index-info', dict(input=''.join('100644 %s %d\t%s\n' % (E, k, p) for p in ('x', 'd/new') for k in (1, 2, 3)))]],
    [['hash-object', '-w', '--stdin'], ['update-index', '--add', '--cacheinfo', '100644,%s,gone' % E]],
    [['hash-object', '-w', '--stdin'], ['update-index', '--add', '--cacheinfo', '100644,%s,un/known' % E]],
    [['update-index', '--index-version', '4']],
    [['update-index', '--split-index']],
    [['update-index', '--untracked-cache']],
    [['update-index', '--assume-unchanged', 'x']],
    [['read-tree', '--empty']],
    [['checkout', '-q', '--detach', 'HEAD~1']],
    [['checkout', '-q', '--orphan', 'other'], ['symbolic-ref', 'HEAD', 'refs/heads/main']],
    [['init', '-q', 's'], ['-C', 's', '-c', 'user.name=s', '-c', 'user.email=s@x', 'commit', '-q', '--allow-empty', '-m', 'x'], ['config', '-f', '.gitmodules', 'submodule.s.path', 's'], ['config', '-f', '.gitmodules', 'submodule.s.url', './s'],
     ['config', 'submodule.s.active', 'true'], ['-C', 's', 'update-index', '--add', '--cacheinfo', '100644,%s,in/sub' % E]],
    [['config', 'core.sparseCheckout', 'true'], ['config', 'core.ignoreCase', 'true'], ['config', 'core.quotePath', 'true'], ['config', 'core.fsmonitor', 'false'], ['config', 'status.relativePaths', 'false'],
     ['config', 'submodule.recurse', 'true'], ['config', 'advice.addIgnoredFile', 'false'], ['config', 'core.excludesFile', '/dev/null'], ['config', 'core.precomposeUnicode', 'true']],
]


def checkouts(walks, pairs):
    """The index and the checkout aren't those of the last commit."""
    t = NOW - 20 * DAY
    cs = [who(A, date=t, ops=[('+', 'x', 3), ('+', 'd/y', 2), ('+', 'gone', 1)]), who(B, date=t + DAY, ops=[('+', 'd/y', 1), ('+', 'd/k/\u00e9', 1), ('sub', 's')]), who(B, date=t + 2 * DAY, ops=[('del', 'gone'), ('+', 'x', 1)])]
    o = [dict(sub='tree'), dict(sub='tree', show_all=True, mode='l'), dict(sub='tree', cwd='d'), dict(sub='tree', paths=['d'], mode='f'), dict(sub='tree', paths=[':!x']), dict(sub='tree', revs=['HEAD~1']), dict(sub='tree', depth=1)]
    for k, g in enumerate(CHECKOUTS):
        for g2 in [[]] + ([x for x in CHECKOUTS[k + 1:] if x and x[0][0] not in ('rm', 'mv')] if pairs else []):
            yield dict(commits=cs, now=NOW, git_after=g + g2, cmds=[dict(opt=x) for x in o if not ('cwd' in x and any(a[-1] == 'd' or a[:2] == ['mv', 'd'] for a in g))], walks=walks)


def run(ck):
    ck.cov['rule'] = ('every assignment of (absent / tracked by A / tracked by B / deleted, touched by A / by B) to a universe of nested paths x tree options and '
                      'directories; non-trivial: non-empty expected tree')
    e2e.explore(ck, checkouts(['seq', 'par'], not ck.quick), what='checkouts')
    if ck.quick:
        e2e.explore(ck, specs(UNIVERSE[1:5], '-abA', ['seq', 'par']), what='4 paths')
        e2e.explore(ck, specs(UNIVERSE, '-aB', ['seq']), what='6 paths')
        e2e.explore(ck, special(['seq'], SPECIAL[:9]), what='awkward names')
    else:
        e2e.explore(ck, specs(UNIVERSE, '-abA', ['seq']), what='6 paths')
        e2e.explore(ck, special(['seq', 'par'], SPECIAL), what='awkward names')
        e2e.explore(ck, specs(UNIVERSE[:5], '-abAB', ['par']), what='5 paths')
