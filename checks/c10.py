"""C10: author identity.  All assignments of awkward identities to 2 or 3 commits x mailmaps x
where the mailmap is configured x subcommands and modes."""
import itertools
import e2e
from gen import *

IDS = [('Alice', 'a@x'), ('Alice', 'b@x'), ('Bob', 'a@x'), ('alice', 'A@X'), ('', 'b@x'), ('Zoë 漢', 'b@x'), ('Bob', '')]
# (mailmap text, pairs for the model: new name, new mail, old name, old mail)
MAPS = [
    ('', []),
    ('Alice A <a@x>\n', [['Alice A', None, None, 'a@x']]),
    ('<a@x> <b@x>\n', [[None, 'a@x', None, 'b@x']]),
    ('# c\nZed <z@x> <b@x>\n\n', [['Zed', 'z@x', None, 'b@x']]),
    ('Zed <z@x> Bob <a@x>\n', [['Zed', 'z@x', 'Bob', 'a@x']]),
    ('Alice <a@x> Alice <b@x>\nBob <b@x>\n', [['Alice', 'a@x', 'Alice', 'b@x'], ['Bob', None, None, 'b@x']]),
]
CMDS = [dict(csv=True, limit=0), dict(csv=True, email=True, limit=0), dict(csv=True, mode='l', limit=0),
        dict(csv=True, mode='f', email=True, limit=0), dict(email=True, mode='m'),
        dict(sub='tree', show_all=True), dict(sub='tree', email=True, mode='l', show_all=True),
        dict(sub='hist'), dict(sub='hist', email=True), dict(sub='hist', email=True, mode='l')]


def specs(n, ids, maps, places):
    t = NOW - 20 * DAY
    for asg in itertools.product(ids, repeat=n):
        for text, pairs in maps:
            for place in places if text else [None]:
                cs = [dict(name=a[0], email=a[1], date=t + DAY * (i // 2), ops=[('+', 'd/f%d' % (i % 2), i + 1)]) for i, a in enumerate(asg)]
                s = dict(commits=cs, now=NOW, cmds=[dict(opt=o) for o in CMDS], identity=pairs, walks=['seq', 'par'])
                if place == 'repo':
                    s['files'] = {'.mailmap': text}
                elif place == 'global':
                    s['global_mailmap'] = text
                elif place == 'both':
                    # the configured file overrides the repository's
                    s['files'] = {'.mailmap': 'Nobody <n@x> <a@x>\n'}
                    s['identity'] = [['Nobody', 'n@x', None, 'a@x']] + pairs
                    s['global_mailmap'] = text
                elif place == 'relative':
                    # relative to the root of the working tree, whatever the current directory
                    s['files'] = {'maps': text}
                    s['config'] = {'mailmap.file': 'maps'}
                    s['cmds'] = [dict(opt=dict(o, cwd='d' if (i + k) % 2 else '')) for k, o in enumerate(CMDS) for i in range(2)]
                elif place == 'tilde':
                    s['global_mailmap'] = text
                    s['config'] = {'mailmap.file': '~/gmailmap'}
                elif place == 'warm':
                    s['files'] = {'.mailmap': text}
                    s['walks'] = ['cold', 'warm']
                yield s


def run(ck):
    ck.cov['rule'] = ('every assignment of %d identities to the commits of a history x mailmaps x mailmap placement; each case is one command '
                      'compared byte for byte with the model; non-trivial: non-empty expected output' % len(IDS))
    e2e.explore(ck, specs(2, IDS, MAPS, ['repo', 'global', 'both']), what='2 commits')
    e2e.explore(ck, specs(2, IDS[:5], MAPS, ['warm']), what='2 commits with a cache')
    e2e.explore(ck, specs(2, IDS[:4], MAPS, ['relative', 'tilde']), what='2 commits, relative path of the mailmap')
    if not ck.quick:
        e2e.explore(ck, specs(3, IDS, MAPS, ['repo', 'global']), what='3 commits')
        e2e.explore(ck, specs(3, IDS, MAPS, ['warm', 'both']), what='3 commits, cache')
