"""C04: caching never changes an answer."""
import os, subprocess
import e2e, model, sched
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF, T

ALL = dict(TREEA, merges=True)
# (no renames into or out of d: those show the finding rename-across-paths of C01 and C18)
BASE = branched()
BASE[2]['ops'], BASE[3]['ops'] = [('mv', 'x', 'z')], [('take', 1), ('del', 'x')]
BASE[4]['ops'] = BASE[4]['ops'] + [('+', 'd/k', 1)]
MORE = [who(A, date=T + 5 * DAY, ops=[('+', 'd/w', 2), ('+', 'z', 1)]), who(B, date=T + 6 * DAY, ops=[('mv', 'd/w', 'd/v')])]
REWRITTEN = [dict(c) for c in BASE[:4]] + [who(B, date=T - DAY, ops=[('bin', 'b'), ('+', 'd/y', 1)]), who(A, date=T + 4 * DAY, ops=[('+', 'x', 9)])]
SIDE = BASE[:2] + [who(C, date=T + 2 * DAY, ops=[('-', 'd/y', 1), ('+', 'side', 6)])]
M1 = 'Zoe <z@x> <a@x>\n'
M2 = 'Zed <z@x> <b@x>\n'
M3 = 'Zig <z@x> <b@x>\n'
I3 = [['Zig', 'z@x', None, 'b@x']]
I1, I2 = [['Zoe', 'z@x', None, 'a@x']], [['Zed', 'z@x', None, 'b@x']]
AUTH = dict(LINES, authors=['a'], email=True)


def versions(lines, full):
    """What the repository can look like when git who runs."""
    at = dict(now=NOW + 30)
    cmds = lines + full
    yield dict(name='first', spec=dict(at, commits=BASE), cmds=cmds + [dict(LINES, revs=['HEAD~1']), dict(HISTF, paths=['d'])])
    yield dict(name='two more commits', spec=dict(at, commits=BASE + MORE), cmds=cmds + [dict(FILES, since='@%d' % (T + 3 * DAY))])
    yield dict(name='rewritten', spec=dict(at, commits=REWRITTEN), cmds=cmds)
    yield dict(name='another branch', spec=dict(at, commits=SIDE), cmds=cmds)
    yield dict(name='mailmap', spec=dict(at, commits=BASE + MORE, files={'.mailmap': M1}, identity=I1), cmds=cmds + [AUTH, dict(LINES, revs=['HEAD~2'])])
    yield dict(name='another mailmap of the same size', spec=dict(at, commits=BASE + MORE, files={'.mailmap': M2}, identity=I2), cmds=cmds + [AUTH])
    yield dict(name='mailmap from the configuration', spec=dict(at, commits=BASE + MORE, global_mailmap=M2, identity=I2), cmds=cmds + [AUTH])
    yield dict(name='two mailmaps', spec=dict(at, commits=BASE + MORE, files={'.mailmap': M1}, global_mailmap=M2, identity=I1 + I2), cmds=cmds + [AUTH])
    yield dict(name='two mailmaps, the configured one changed', spec=dict(at, commits=BASE + MORE, files={'.mailmap': M1}, global_mailmap=M3, identity=I1 + I3), cmds=cmds + [AUTH])
    yield dict(name='ignore list', spec=dict(at, commits=BASE + MORE, ignore=[1, 6], hash_files={'.git-blame-ignore-revs': '{1}\n{6}\n'}), cmds=cmds + [AUTH])
    yield dict(name='the last commits still lie in the future', spec=dict(commits=BASE + MORE, now=T + 4 * DAY - 60), cmds=cmds)
    yield dict(name='with a commit by nobody', spec=dict(at, commits=BASE + [dict(name='', email='', date=T + 5 * DAY, ops=[('+', 'd/k', 3)]), who(A, date=T + 5 * DAY, ops=[('-', 'd/k', 2)])]), cmds=cmds)


def worktree(live):
    live.repo.git('worktree', 'add', '-q', '--detach', '../wt/r', 'HEAD~1')


def elsewhere():
    """Other places that share the cache: a linked worktree, subdirectories, another repository of the same name with some of the same commits."""
    at = dict(now=NOW + 30)
    other = dict(at, commits=BASE[:5] + [who(C, date=T + 9 * DAY, ops=[('+', 'only/there', 3)])])
    cmds = [LINES, ALL, dict(LINES, revs=['HEAD~1']), dict(LINES, cwd='d'), dict(LINES, cwd='d', paths=['.']), dict(HISTL, cwd='d', paths=['y']), dict(TREEA, cwd='d'),
            dict(LINES, at=('o/r', 'o/r')), dict(ALL, at=('o/r', 'o/r')), dict(HISTF, at=('o/r', 'o/r')),
            dict(LINES, at=('wt/r', None), revs_for_git=['HEAD~1']), dict(HISTL, at=('wt/r', None), revs_for_git=['HEAD~1'], until='@%d' % NOW)]
    yield dict(name='worktree and another repository', spec=dict(at, commits=BASE), others={'o/r': other}, setup=worktree, cmds=cmds)
    yield dict(name='later', spec=dict(at, commits=BASE + MORE), others={'o/r': dict(other, files={'.mailmap': M1}, identity=I1)}, setup=worktree, cmds=cmds)


def write(live, path, text):
    p = os.path.join(live.repo.path, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)


def binary(live, path):
    """Git takes the file for a binary one now: no lines."""
    for c in live.h.commits:
        c.diffs = [(p, 0, 0) if p == path else (p, a, r) for p, a, r in c.diffs]


def attributes(where, text, path, add=False):
    def f(live):
        write(live, where, text)
        if add:
            live.repo.git('add', where)
        binary(live, path)
    return f


def shallow(k):
    """As after git clone --depth: the first commit there is looks like a root."""
    def f(live):
        c = live.h.commits[k]
        write(live, '.git/shallow', c.hash + '\n')
        c.diffs = []
        for l in live.repo.git('ls-tree', '-r', c.hash).decode().splitlines():
            blob, p = l.split()[2], l.split('\t')[1]
            c.diffs.append((p, live.repo.git('cat-file', 'blob', blob).count(b'\n'), 0))
        live.repo.cache.clear()
    return f


def replaced(live):
    """The last commit is replaced by another one."""
    old, new = live.h.commits[-2:]
    live.repo.git('replace', old.hash, new.hash)
    old.name, old.email, old.date, old.cdate, old.diffs, old.moves = new.name, new.email, new.date, new.cdate, new.diffs, new.moves
    live.repo.cache.clear()


def blob(text):
    def f(live):
        live.repo.git('update-ref', 'refs/mm', live.repo.git('hash-object', '-w', '--stdin', input=text.encode()).decode().strip())
    return f


def outside():
    """What else decides on what Git says of a commit: attributes, a shallow boundary, replacements, a mailmap among the objects."""
    at = dict(now=NOW + 30)
    cs = linear(5)
    s = dict(at, commits=cs)
    alt = dict(s, commits=cs + [who(C, date=T + 9 * DAY, parents=[3], ops=[('+', 'x', 3), ('+', 'n', 1)], ref='refs/heads/alt')])
    mm = dict(s, gconfig='[mailmap]\n\tblob = refs/mm\n', files={'.mailmap': M1})
    cmds = [LINES, dict(TREEA, mode='l'), dict(HISTL, revs=['HEAD~1'])]
    yield dict(name='before', spec=s, cmds=cmds)
    yield dict(name='attributes', spec=s, setup=attributes('.gitattributes', 'y binary\n', 'd/y'), cmds=cmds)
    yield dict(name='other attributes', spec=s, setup=attributes('.gitattributes', 'z binary\n', 'd/z'), cmds=cmds)
    yield dict(name='attributes in a directory', spec=s, setup=attributes('d/.gitattributes', 'y binary\n', 'd/y', True), cmds=cmds + [dict(LINES, cwd='d'), dict(LINES, cwd='d', paths=['y'])])
    yield dict(name='attributes in the git directory', spec=s, setup=attributes('.git/info/attributes', 'x -diff\n', 'x'), cmds=cmds)
    yield dict(name='shallow', spec=s, setup=shallow(3), cmds=cmds)
    yield dict(name='a little deeper', spec=s, setup=shallow(2), cmds=cmds)
    yield dict(name='another branch', spec=alt, cmds=cmds)
    yield dict(name='replaced', spec=alt, setup=replaced, cmds=cmds)
    yield dict(name='mailmap in a blob', spec=dict(mm, identity=I1 + I2), setup=blob(M2), cmds=cmds)
    yield dict(name='another mailmap in a blob', spec=dict(mm, identity=I1 + I3), setup=blob(M3), cmds=cmds)


def norenames(live):
    live.repo.git('config', 'diff.renames', 'false')
    for c in live.h.commits:
        for new, (old, (before, after)) in c.moves.items():
            c.diffs = [d for d in c.diffs if d[0] != new] + [(old, 0, before), (new, after, 0)]
        c.moves = {}


def big_files(live):
    """All files are taken for binary ones."""
    live.repo.git('config', 'core.bigFileThreshold', '1')
    for c in live.h.commits:
        c.diffs = [(p, a, r) if p == 's' else (p, 0, 0) for p, a, r in c.diffs]


def user_attributes(where, text, path):
    def f(live):
        p = os.path.join(live.home, where)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as o:
            o.write(text)
        if where == 'attributes':
            live.repo.git('config', 'core.attributesFile', p)
        binary(live, path)
    return f


def nosubmodules(how):
    def f(live):
        if how == 'diff.ignoreSubmodules':
            live.repo.git('config', how, 'all')
        else:
            write(live, '.gitmodules', '[submodule "s"]\n\tpath = s\n\turl = ./s\n' + ('\tignore = all\n' if how == '.gitmodules' else ''))
            if how != '.gitmodules':
                live.repo.git('config', how, 'all')
        for c in live.h.commits:
            c.diffs = [d for d in c.diffs if d[0] != 's']
    return f


def settings():
    """Settings of the user and the repository that change what Git finds in a commit."""
    at = dict(now=NOW + 30)
    cs = [who(A, date=T, ops=[('+', 'x', 3), ('+', 'd/y', 2)]), who(B, date=T + DAY, ops=[('mv', 'x', 'z'), ('sub', 's')]), who(C, date=T + 2 * DAY, ops=[('+', 'd/y', 4), ('+', 'z', 1)]),
          who(A, date=T + 3 * DAY, ops=[('mv', 'd/y', 'd/w'), ('+', 'n', 1)])]
    s = dict(at, commits=cs)
    alt = dict(s, commits=cs + [who(C, date=T + 9 * DAY, parents=[2], ops=[('+', 'd/y', 3), ('+', 'n', 1)], ref='refs/heads/alt')])
    cmds = [LINES, dict(TREEA, mode='l'), dict(HISTF, revs=['HEAD~1'])]
    yield dict(name='before', spec=s, cmds=cmds)
    yield dict(name='without renames', spec=s, setup=norenames, cmds=cmds)
    yield dict(name='everything is a big file', spec=s, setup=big_files, cmds=cmds)
    yield dict(name='attributes of the user', spec=s, setup=user_attributes('attributes', 'y binary\n', 'd/y'), cmds=cmds)
    yield dict(name='other attributes of the user', spec=s, setup=user_attributes('attributes', 'x binary\n', 'x'), cmds=cmds)
    yield dict(name='attributes of the user where Git looks for them', spec=s, setup=user_attributes('.config/git/attributes', 'n binary\n', 'n'), cmds=cmds)
    yield dict(name='submodules ignored', spec=s, setup=nosubmodules('diff.ignoreSubmodules'), cmds=cmds)
    yield dict(name='a submodule ignored', spec=s, setup=nosubmodules('submodule.s.ignore'), cmds=cmds)
    yield dict(name='a submodule ignored by .gitmodules', spec=s, setup=nosubmodules('.gitmodules'), cmds=cmds)
    yield dict(name='replacement not used', spec=alt, setup=lambda live: (live.repo.git('replace', *[c.hash for c in live.h.commits[-2:]]), live.repo.git('config', 'core.useReplaceRefs', 'false')), cmds=cmds)
    yield dict(name='replacement used', spec=alt, setup=replaced, cmds=cmds)


def rooted(live):
    """An old kind of replacement: a list of commits with the parents they should have."""
    c = live.h.commits[3]
    shallow(3)(live)
    os.unlink(os.path.join(live.repo.path, '.git/shallow'))
    write(live, '.git/info/grafts', c.hash + '\n')


def attributes_from(text, path, how):
    def f(live):
        b = live.repo.git('hash-object', '-w', '--stdin', input=text.encode()).decode().strip()
        live.repo.git('update-ref', 'refs/at', live.repo.git('mktree', input=('100644 blob %s\t.gitattributes\n' % b).encode()).decode().strip())
        if how:
            live.repo.git('config', 'attr.tree', 'refs/at')
        binary(live, path)
    return f


def variables():
    """Settings from the environment that change what Git finds in a commit, and what they have to do with the repository."""
    at = dict(now=NOW + 30)
    cs = linear(5)
    s = dict(at, commits=cs)
    alt = dict(s, commits=cs + [who(C, date=T + 9 * DAY, parents=[3], ops=[('+', 'x', 3), ('+', 'n', 1)], ref='refs/heads/alt')])
    cmds = [LINES, dict(TREEA, mode='l')]

    def elsewhere(live):
        live.repo.env['GIT_REPLACE_REF_BASE'] = 'refs/instead/'
        replaced(live)

    def both(live):
        live.repo.git('replace', *[c.hash for c in live.h.commits[-2:]])
        live.repo.env['GIT_NO_REPLACE_OBJECTS'] = '1'

    def nowhere(live):
        live.repo.git('replace', *[c.hash for c in live.h.commits[-2:]])
        live.repo.env['GIT_REPLACE_REF_BASE'] = 'refs/nowhere/'

    yield dict(name='before', spec=alt, cmds=cmds)
    yield dict(name='replaced', spec=alt, setup=replaced, cmds=cmds)
    yield dict(name='replacement not wanted', spec=alt, setup=both, cmds=cmds, env=dict(GIT_NO_REPLACE_OBJECTS='1'))
    yield dict(name='replacement stored elsewhere', spec=alt, setup=elsewhere, cmds=cmds, env=dict(GIT_REPLACE_REF_BASE='refs/instead/'))
    yield dict(name='replacement looked for elsewhere', spec=alt, setup=nowhere, cmds=cmds, env=dict(GIT_REPLACE_REF_BASE='refs/nowhere/'))
    yield dict(name='grafted', spec=s, setup=rooted, cmds=cmds)
    yield dict(name='untracked attributes', spec=s, setup=attributes('d/.gitattributes', 'y binary\n', 'd/y'), cmds=cmds)
    yield dict(name='ignored attributes', spec=s, setup=lambda live: (write(live, '.git/info/exclude', 'd\n.gitattributes\n'), attributes('d/.gitattributes', 'z binary\n', 'd/z')(live)), cmds=cmds + [dict(LINES, cwd='d', paths=['z'])])
    for how, e in (('attr.tree', {}), ('', dict(GIT_ATTR_SOURCE='refs/at'))):
        for text, path in (('y binary\n', 'd/y'), ('x binary\n', 'x')):
            yield dict(name='attributes from a tree', spec=s, setup=attributes_from(text, path, how), cmds=cmds, env=e)


# pairs of mailmaps of the same 32-bit hash (FNV-1, FNV-1a, CRC-32)
ALIKE = [('1042643', '1518510'), ('82989', '240504'), ('be68f400', '4952224b')]


def alike():
    """Mailmaps that are easily taken for each other: by a short hash, or by where one ends and the next begins."""
    at = dict(now=NOW + 30, commits=linear(4))
    cmds = [LINES, dict(TREEA, mode='l')]
    for k, ends in enumerate(ALIKE):
        for name, end in zip(('Xan', 'Yol'), ends):
            for g in (None, '') if k == 0 else (None,):
                yield dict(name='%s in a mailmap%s' % (name, '' if g is None else ' with another'), spec=dict(at, files={'.mailmap': '%s <a@x>\n#%s' % (name, end)}, global_mailmap=g, identity=[[name, None, None, 'a@x']]), cmds=cmds)
    yield dict(name='one mailmap', spec=dict(at, files={'.mailmap': 'Zoe <z@x> <a@x>'}, global_mailmap='', identity=I1), cmds=cmds)
    yield dict(name='split into two', spec=dict(at, files={'.mailmap': 'Zoe'}, global_mailmap=' <z@x> <a@x>', identity=[[None, 'z@x', None, 'a@x']]), cmds=cmds)
    yield dict(name='only the first', spec=dict(at, files={'.mailmap': 'Zoe <z@x> <a@x>\n'}, identity=I1), cmds=cmds)
    yield dict(name='only the second', spec=dict(at, global_mailmap='Zoe <z@x> <b@x>\n', identity=[['Zoe', 'z@x', None, 'b@x']]), cmds=cmds)


def batches(n):
    """Ever more commits, in batches of two and of any number already cached."""
    at = dict(now=NOW + 30)
    cs = linear(n)
    yield dict(name='%d commits' % n, spec=dict(at, commits=cs), cmds=[dict(LINES, revs=['HEAD~%d' % k] if k else []) for k in range(n)] +
               [dict(LINES, revs=['HEAD~%d' % (n - 3), 'HEAD~1..HEAD']), dict(LINES, revs=['HEAD~3..HEAD']), dict(TREEA, revs=['HEAD~4..HEAD~2']), dict(LINES, paths=['x']), dict(LINES, paths=['d']), dict(HISTF, paths=['d/z', 'x'])])


def graphs(lab, quick=True, only=None):
    g = dict(
        changes=lambda: lab.graph('changes', list(versions([LINES], [ALL] if quick else [ALL, dict(HISTF, email=True), dict(FILES, nauthors=['z'])])), after=4 if quick else 6),
        places=lambda: lab.graph('places', list(elsewhere()), after=4 if quick else 5, probes=((0, 0), (0, 7), (0, 10))),
        outside=lambda: lab.graph('outside', list(outside()), after=3 if quick else 4),
        settings=lambda: lab.graph('settings', list(settings()), after=3 if quick else 4),
        variables=lambda: lab.graph('variables', list(variables()), after=3 if quick else 4),
        alike=lambda: lab.graph('alike', list(alike()), after=3 if quick else 4),
        batches=lambda: lab.graph('batches', list(batches(6 if quick else 7)), after=4 if quick else 4),
    )
    for n, f in g.items():
        if only in (None, n):
            f()


def big(sizes):
    """Real batches, and commits that touch many files: what is cached at once is large."""
    for n, wide, lines in sizes:
        cs = [who((A, B, C)[i % 3], date=T + i * 60, ops=[('+', 'd%d/f%d' % (i % 7, i % 29), 1)]) for i in range(n)]
        cs.append(who(B, date=T + n * 60, ops=[('bulk', 'wide/%d/%s-%d' % (k % 50, 'long' * (k % 40), k), lines) for k in range(wide)]))
        cs.append(who(A, date=T + n * 60 + 60, ops=[('+', 'd0/f0', 1)]))
        cmds = [dict(opt=o, walks=[w]) for o, w in ((dict(LINES, revs=['HEAD~1']), 'cold'), (LINES, 'warm'), (LINES, 'warm'), (dict(sub='tree', mode='f', depth=2), 'warm'), (HISTF, 'warm'), (HISTF, 'cold'), (dict(LINES, paths=['wide/3']), 'warm'))]
        yield dict(commits=cs, now=T + 10 * DAY, cmds=cmds, walks=['cold'], allwalks=True, bin='real')


def run(ck):
    ck.cov['rule'] = ('states are contents of the cache; a transition is a run of one command of the real program in one version of the repository (more commits, rewritten, another branch, mailmaps, ignore list, earlier clock, nameless commits, worktree, '
                      'subdirectory, another repository of the same name); every sequence of transitions up to the stated length from an empty cache is covered (equal cache contents are merged), '
                      'and every run must print what the cache-less model says')
    e2e.explore(ck, big([(10, 8000, 1), (1022, 100, 1), (2100, 3000, 1)] if ck.quick else [(10, 60000, 1), (1022, 100, 1), (1023, 20000, 1), (2100, 3000, 1), (9000, 10, 1)]), what='large caches')
    lab = sched.Lab(ck)
    graphs(lab, ck.quick, os.environ.get('GWV_ONLY'))
    lab.run(max(10, ck.budget - ck.elapsed()))
