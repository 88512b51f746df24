"""C18: path arguments.  All singles and pairs (and many triples) of an alphabet of pathspecs x directories, on a tree with awkward names."""
import hashlib, itertools
import e2e
from gen import *

FILES = ['README', 'a.c', 'src.c', 'src/a.c', 'src/b.h', 'src/lib/a.c', 'src/lib/x.txt', 'docs/a.md', 'docs/src/a.c', 'srcx/y', 'we ird/f é.c', '[b]/c.c', 'star*.c', 'bb/c.c', 'CAPS.C', 'old/gone.c']


def history():
    t = NOW - 60 * DAY
    cs = []
    auth = [A, B, C]
    for i, f in enumerate(FILES):
        cs.append(who(auth[i % 3], date=t + i * DAY, ops=[('+', f, 4 + i)]))
    for i in range(0, len(FILES), 2):
        cs.append(who(auth[(i // 2 + 1) % 3], date=t + (20 + i) * DAY, ops=[('+', FILES[i], 1), ('+', FILES[i + 1], 2)]))
    cs.append(who(B, date=t + 50 * DAY, ops=[('del', 'old/gone.c')]))
    cs.append(who(C, date=t + 51 * DAY, ops=[('mv', 'src/lib/x.txt', 'src/lib/y.txt')]))
    cs.append(who(A, date=t + 52 * DAY, ops=[]))
    cs.append(who(A, date=t + 53 * DAY, ops=[('+', 'src/a.c', 1), ('+', 'docs/a.md', 1), ('+', 'README', 1)]))
    return cs


INC = ['src', 'src/', 'src/a.c', '*.c', '*', '.', 'docs', 'src/lib', 'nonexist', 'a.c', '[b]', 'star*.c', 'we ird', './src', 'docs/../src', 'old', '*.C', '*/a.c', 'we ird/f é.c', '?.c', 'sr', 'sr?', 'sr[c]', '[!s]?d', 's\\rc', '?', '?OLD*', '\\[b\\]', '\\[b\\]/c.c']
EXC = [':!sr?', ':^[s]rc', ':!src', ':^*.c', ':(exclude)docs', ':!src/lib', ':!a.c', ':^README', ':!nonexist', ':!src/a.c', ':!*', ':(exclude)*.txt', ':!*/a.c', ':^./src', ':!:src', ':^:src', ':^:*.c', ':(exclude):src']
# relative to src/
INC_SRC = ['a.c', 'lib', '.', '*.c', 'lib/a.c', '../docs', '..', '../src.c', './b.h', '*', 'docs']
EXC_SRC = [':!lib', ':^:lib', ':!:../docs', ':^a.c', ':!*.c', ':(exclude)lib/a.c', ':!../docs', ':^.']
INC_DEEP = ['.', 'a.c', '..', '../lib', '../../a.c', '*.txt', '../*.h']
# patterns with a literal directory and a "*" that does not start the pattern: see known_findings.json
KNOWNISH = ['src/*.c', 'src/*', 'src/l*', 'docs/*.c', 's*', 's*/a.c', 'd*', 'src/**', '**/a.c', 'src/**/a.c']
UNSUPPORTED = [':(icase)SRC', ':(top)src', ':/src', ':(glob)src', ':(literal)src', ':(attr:x)src', ':(exclude,icase)SRC', ':(icase,exclude)SRC', ':/', ':(prefix:0)src', ':(exclude,top)a.c', ':!/src', ':^/src', ':!@', ':!#hash', ':!-dash', ':^~', ':', '::', ':!', ':^', ':!!src', ':!^src']


def batches(cmds, n, walks):
    cs = history()
    for i in range(0, len(cmds), n):
        yield dict(commits=cs, now=NOW, cmds=cmds[i:i + n], walks=walks)


def cmdset(sets, cwd, forms):
    return [dict(opt=dict(paths=list(p), cwd=cwd, **f)) for p in sets for f in forms]


LINES = dict(csv=True, limit=0, mode='l')
COUNT = dict(csv=True, limit=0)
FILESM = dict(csv=True, limit=0, mode='f', email=True)
TREE = dict(sub='tree', mode='f', show_all=True)
TREEW = dict(sub='tree')
HIST = dict(sub='hist', mode='l')


def pairs(a, b):
    return [(x, y) for x in a for y in b]


def key(spec, cmd, walk, mismatch):
    """Names the command, the way of walking and the wrong answer."""
    return e2e.show(spec, cmd, 'sequential' if walk == 'seq' else 'concurrent') + ' ' + hashlib.md5(mismatch.encode()).hexdigest()[:8]


def run(ck):
    ck.cov['rule'] = 'every single, pair and triple of an alphabet of pathspecs x current directory x commands, sequential, parallel and from a warm cache; byte for byte against the selection git log makes'
    ck.assumptions.append('which paths a pathspec matches is taken from git ls-files on an index of all paths that ever existed')
    singles = [(x,) for x in INC + EXC]
    full = [LINES, COUNT, FILESM, TREE, TREEW, HIST]
    jobs = [cmdset(singles, '', full), cmdset([(x,) for x in INC_SRC + EXC_SRC], 'src', full), cmdset([(x,) for x in INC_DEEP], 'src/lib', full)]
    two = pairs(INC, EXC) + list(itertools.combinations(INC[:12], 2)) + list(itertools.combinations(EXC, 2))
    jobs.append(cmdset(two, '', [LINES] if ck.quick else [LINES, TREE, COUNT]))
    jobs.append(cmdset(pairs(INC_SRC, EXC_SRC) + list(itertools.combinations(INC_SRC, 2)), 'src', [FILESM] if ck.quick else [LINES, TREE, FILESM]))
    for j in jobs:
        e2e.explore(ck, batches(j, 16, ['seq', 'par']), key=key, what='pathspecs')
    e2e.explore(ck, batches(cmdset(singles, '', [LINES, HIST]) + cmdset([(x,) for x in INC_SRC], 'src', [LINES]), 16, ['cold', 'warm']), key=key, what='with a cache')
    if not ck.quick:
        tri = [(x, y, z) for x in INC for y, z in itertools.combinations(EXC, 2)] + [(x, y, z) for x, y in itertools.combinations(INC[:14], 2) for z in EXC]
        e2e.explore(ck, batches(cmdset(tri, '', [LINES, TREE]), 16, ['seq', 'par']), key=key, what='triples')
    e2e.explore(ck, batches(cmdset([(x,) for x in KNOWNISH], '', [LINES, TREE]), 1, ['seq', 'par']), key=key, what='patterns with a directory')
    bad = [dict(opt=dict(paths=[x], **f), fail=True) for x in UNSUPPORTED for f in (LINES, COUNT, TREEW, HIST)]
    e2e.explore(ck, batches(bad, 16, ['seq', 'par']), what='unsupported magic')
    e2e.explore(ck, odd([LINES, TREE] if ck.quick else full, ['seq', 'par']), key=key, what='odd names')
    e2e.explore(ck, odd_dirs([LINES, TREE], ['seq', 'par']), key=key, what='odd directories')
    e2e.explore(ck, across(), key=key, what='renames into and out of the paths')


ODD = ['by\udcff', 'a:!b', 'ab', 'x:(exclude)y', ':colon', '^caret', '!bang', 'd:^e/f', 'd/f', '-dash', '--', 'a{b,c}', 'ac', 'q"uote', 'b\\s', "it's", '#hash', 'sp ace/:!x', 'd(e)', '.dot', '.d/.e', '~', '@', 'HEAD', 'tab\there', 'é.c', 'u.c', '日/本', 'by\udcfe']
ODD_PATHS = ['by\udcff', 'a:!b', 'ab', 'x:(exclude)y', './:colon', '^caret', '!bang', 'd:^e', './-dash', './--', 'a{b,c}', 'q"uote', 'b\\\\s', "it's", '#hash', 'sp ace', 'd(e)', '.dot', '.d', '~', '@', 'HEAD', '*b', '*:*', '.*', '*ace*', '*)', '*{*', 'tab\there', '?.c', '??.c', '[é].c', '[é][é].c', 'é.*', '[!é]?.c', '日/?', '日/???', '*本', 'by?', 'by[\udcff]', '*\udcfe']
ODD_EXC = [':!sr?', ':^::colon', ':!::colon', ':(exclude):colon', ':!:!bang', ':^:!bang', ':^:^caret', ':!:^caret', ':!:(exclude)y', ':^:(e', ':^[s]rc', ':!a:!b', ':^a:!b', ':(exclude)a:!b', ':!x:(exclude)y', ':(exclude)x:(exclude)y', ':!:colon', ':!./:colon', ':!d:^e', ':!d:^e/f', ':!a{b,c}', ':(exclude)^caret', ':(exclude)!bang', ':!sp ace/:!x', ':!d(e)', ':!.d', ':!*:*', ':^(x)', ':!tab\there']


def odd(forms, walks):
    """Names made of the characters that pathspecs give a meaning to."""
    t = NOW - 60 * DAY
    auth = [A, B, C]
    cs = [who(auth[i % 3], date=t + i * DAY, ops=[('+', f, i + 1)]) for i, f in enumerate(ODD)] + [who(A, date=t + 50 * DAY, ops=[('+', f, 1) for f in ODD])]
    c = cmdset([(x,) for x in ODD_PATHS + ODD_EXC] + pairs(ODD_PATHS[:12:3], ODD_EXC[:9:2]), '', forms)
    for i in range(0, len(c), 16):
        yield dict(commits=cs, now=NOW, cmds=c[i:i + 16], walks=walks)


IN_ODD = {
    '[id]': ['[slug].c', 's.c', '[a', '*.c', '.', ':!s.c', ':![slug].c', '[s].c', 'sub', '../[id]', 'sub/*', '?.c', '../i/s.c', ':!../i', '..', '../?', ':!../[i]', 's*', ':!sub', ':!su?', 'su[b]', '../[i]d', '*lu*'],
    '{a,b}': ['f', '{x}', '*', '.', ':!f', 'x'],
    ':top': ['f', '.', ':!f', './f', ':!:f', './:f', '../:top'],
    'w \udcff': ['f', '*', '.', ':!f', 'g\udcfe', '*\udcfe'],
}


def odd_dirs(forms, walks):
    t = NOW - 60 * DAY
    files = ['[id]/[slug].c', '[id]/s.c', '[id]/[a', '[id]/sub/x.c', 'i/s.c', 'i/[slug].c', '{a,b}/f', '{a,b}/{x}', '{a,b}/x', 'a/f', ':top/f', ':top/:f', 'top/f', 'w \udcff/f', 'w \udcff/g\udcfe', 'w \udcfe/f']
    cs = [who((A, B, C)[i % 3], date=t + i * DAY, ops=[('+', f, i + 1)]) for i, f in enumerate(files)] + [who(A, date=t + 50 * DAY, ops=[('+', f, 1) for f in files])]
    for d, ps in IN_ODD.items():
        yield dict(commits=cs, now=NOW, cmds=cmdset([(x,) for x in ps], d, forms), walks=walks)


def across():
    """Git takes a rename for one only if both names are selected, else for an added or a deleted file."""
    t = NOW - 60 * DAY
    cs = [who(A, date=t, ops=[('+', 'x', 4), ('+', 'd/w', 1)]), who(B, date=t + DAY, ops=[('mv', 'x', 'd/z')]), who(A, date=t + 2 * DAY, ops=[('mv', 'd/z', 'y', 1)]), who(C, date=t + 3 * DAY, ops=[('mv', 'd/w', 'd/v')])]
    for p in ('d', 'x', 'y', ':!d', 'd/v'):
        yield dict(commits=cs, now=NOW, walks=['seq', 'par'], cmds=[dict(opt=dict(f, paths=[p])) for f in (LINES, TREE, HIST)])
