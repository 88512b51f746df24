"""C08: commits and file changes are read exactly as Git records them."""
import itertools, subprocess
import build, e2e
from gen import *

T0 = NOW - 40 * DAY
PARSE = dict(sub='parse')
SHORT = dict(sub='parse', extra=['-s'])
CSV = dict(csv=True, limit=0, email=True, merges=True)
CSVL = dict(csv=True, limit=0, mode='l', merges=True)
TREE = dict(sub='tree', show_all=True, mode='l')
H40 = '0123456789abcdef0123456789abcdef01234567'
H64 = H40 + H40[:24]


def spec(cs, cmds, walks=('seq',), now=NOW, **kw):
    return dict(commits=cs, now=now, cmds=[dict(opt=o) for o in cmds], walks=list(walks), **kw)


# ------------------------------------------------------------------------ shapes
def shapes(quick):
    """Commits of every shape; the history so far always has a file x of at least 3 lines and d/y."""
    r = [who(A, ops=[('+', 'x', 1)]), who(B, ops=[]), who(('', ''), ops=[('+', 'x', 2)]), who(('', 'b@x'), ops=[('+', 'd/y', 1)]), who(('Cyd', ''), ops=[('-', 'x', 1)]),
         who(A, ops=[('+', 'd/y', 1), ('+', 'x', 1)], date=NOW + 3000), who(B, ops=[('mv', 'x', 'z'), ('mv', 'z', 'x')]), who(C, ops=[('bin', '{n}'), ('empty', '{n}e')]), 'merge', 'octopus', 'root',
         who((H40, H40), ops=[('+', H40, 1), ('+', 'a' + H40[1:], 1)])]
    if not quick:
        r += [who((H64, '1'), ops=[('+', '1\t2', 1), ('+', '\n', 1)]), who(('1', '-'), ops=[('chmod', 'x'), ('link', '{n}'), ('noeol', '{n}x')]), 'ignored', who(B, ops=[], date=0)]
    return r


def realize(seq):
    cs = [who(A, ops=[('+', 'x', 9), ('+', 'd/y', 2), ('+', 'q', 2)], date=T0), who(B, ops=[('+', 'x', 1)], date=T0 + 60)]
    ignored = []
    last = 'q'
    for k, s in enumerate(seq):
        n = len(cs)
        d = T0 + 3600 * (k + 1)
        if s in ('merge', 'octopus'):
            ps = [n - 1, n - 2] if s == 'merge' else [n - 1, 0, 1]
            if len(set(ps)) < len(ps):
                ps = [n - 1, 0]
            cs.append(who(B, ops=[('take', 1)], parents=ps, date=d))
        elif s == 'root':
            # the others go on from a merge with it
            cs.append(who(C, ops=[('+', 'root%d' % n, 2)], parents=[], date=d))
            cs.append(who(A, ops=[('take', 1)], parents=[n - 1, n], date=d + 1))
        elif s == 'ignored':
            ignored.append(n)
            cs.append(who(C, ops=[('+', 'x', 5)], date=d))
        else:
            c = dict(s, ops=[tuple(w.replace('{n}', 'n%d' % n) if isinstance(w, str) else w for w in o) for o in s['ops'] if o[0] != 'mv' or o[1] != 'x' or o[2] != 'z'])
            if any(o[0] == 'mv' and o[2] == 'z' for o in s['ops']):
                c['ops'] = [('mv', last, 'd/w%d' % n), ('+', 'd/y%d' % n, 3)]
                last = 'd/y%d' % n
            c.setdefault('date', d)
            cs.append(c)
    kw = {}
    if ignored:
        kw = dict(ignore=ignored, hash_files={'.git-blame-ignore-revs': ''.join('{%d}\n' % i for i in ignored)})
    return cs, kw


def sequences_of_shapes(quick):
    al = shapes(quick)
    for n in (1, 2, 3):
        for seq in itertools.product(al, repeat=n):
            cs, kw = realize(seq)
            s = spec(cs, [PARSE, SHORT, CSVL] if n < 3 else [PARSE, CSVL], ('seq', 'par', 'warm'), **kw)
            if n == 3:
                s['cmds'][1]['walks'] = ['warm'] if quick else ['seq', 'par', 'warm', 'warm']
            yield s


# ------------------------------------------------------------------------- names
def names(quick):
    ch = ['a', ' ', '\t', '"', ',', '\x01', '\udcff', 'é', '\r', '.', '\\', '-', '漢', 'e\u0301', '0', '\u2028', '\ufeff', "'", ';', '%x00', '\x7f', '\x0b']
    yield from ch
    for a, b in itertools.product(ch, repeat=2):
        yield a + b
    if not quick:
        for t in itertools.product(ch[:12], repeat=3):
            yield ''.join(t)
    yield from ['a b', ' a', 'a ', 'a  b', '{ hash:1 }', H40, H64, 'x' * 3000, 'é' * 2100, '-', '--', '=1+1', 'a\tb\tc', '0\t0\tx', '1']


def name_specs(quick):
    """Many names to a history: what Git itself prints for one commit at a time is the reference."""
    ns = list(names(quick))
    per = 40
    for k in range(0, len(ns), per):
        cs = [dict(name=n, email='m%d@x' % i, date=T0 + i, ops=[('+', 'x', 1)]) for i, n in enumerate(ns[k:k + per])]
        yield spec(cs, [SHORT, PARSE, CSV, CSVL], ('seq', 'par'), identity_git=True)
        cs = [dict(name='N%d' % i, email=n, date=T0 + i, ops=[('+', 'x', 1)]) for i, n in enumerate(ns[k:k + per])]
        yield spec(cs, [SHORT, CSV, dict(CSVL, email=True)], ('seq', 'par'), identity_git=True)


# ------------------------------------------------------------------------- paths
def paths(quick):
    ch = ['a', ' ', '\t', '\n', '"', '\\', '\udcff', 'é', '-', '0', '\x01', ':', '*', '=', '>', '{', '.', '\r', '漢', 'e\u0301']
    for a in ch:
        if a != '.':
            yield a
    for a, b in itertools.product(ch, repeat=2):
        if a + b != '..':
            yield a + b
    if not quick:
        for t in itertools.product(ch[:9], repeat=3):
            yield ''.join(t)
    yield from ['{a => b}', 'a => b', 'a/{b => c}/d', H40, H64, '1\t2\tx', '-\t-\tb', '\t\t', '\n\n', 'd/\n', '\n/\n', 'x' * 250, '/'.join(['deep'] * 60), '1', '0', '-']


def path_specs(quick):
    ps = list(dict.fromkeys(paths(quick)))
    per = 20
    for k in range(0, len(ps), per):
        g = ps[k:k + per]
        if k % 40 == 0:
            al = [('+', 3), ('-', 1), None]
        # in one directory each, so that no path is in the way of another
        q = ['%d/%s' % (i, p) for i, p in enumerate(g)]
        cs = [who(A, date=T0, ops=[('+', p, 4) for p in q]), who(B, date=T0 + 1, ops=[('=', p, 2, 1) for p in q]),
              who(C, date=T0 + 2, ops=[('mv', p, 'moved/%d' % i) for i, p in enumerate(q)]), who(B, date=T0 + 3, ops=[('mv', 'moved/%d' % i, p, 1) for i, p in enumerate(q)]),
              who(A, date=T0 + 4, ops=[('del', p) for p in q[::2]] + [('-', p, 1) for p in q[1::2]]), who(C, date=T0 + 5, ops=[('bin', p) for p in q[::2]] + [('chmod', p) for p in q[1::2]])]
        yield spec(cs, [PARSE, TREE, CSVL], ('seq', 'par'))
        # and bare at the root of the tree, where the name begins the path
        g2 = [p for p in g if not any(p != r and (p + '/').startswith(r + '/') for r in g)]
        cs = [who(A, date=T0, ops=[('+', p, 4) for p in g2]), who(C, date=T0 + 2, ops=[('mv', p, 'moved/%d' % i) for i, p in enumerate(g2)]), who(B, date=T0 + 3, ops=[('mv', 'moved/%d' % i, p) for i, p in enumerate(g2)]),
              who(A, date=T0 + 4, ops=[('del', p) for p in g2])]
        yield spec(cs, [PARSE, dict(CSVL, mode='f')], ('seq', 'par'))
    for p in ps[::3]:      # alone in its commit, before and after others
        cs = [who(A, date=T0, ops=[('+', p, 2)]), who(B, date=T0 + 1, ops=[('mv', p, 'q')]), who(C, date=T0 + 2, ops=[]), who(B, date=T0 + 3, ops=[('mv', 'q', p)])]
        yield spec(cs, [PARSE], ('seq', ))


# ---------------------------------------------------------------------- chunking
def chunk_history():
    return [who(A, date=T0, ops=[('+', 'x', 3), ('+', 'd/y\n', 2)]), who(B, date=T0 + 1, ops=[]), who(('', ''), date=T0 + 2, ops=[('+', 'x', 1)]), who(('漢字', 'b@x'), date=T0 + 3, ops=[('mv', 'x', '\nnew'), ('bin', 'b')]),
            who(B, date=T0 + 4, ops=[('take', 1)], parents=[3, 1]), who(C, date=T0 + 5, ops=[('del', 'b')])]


def chunk_specs(quick):
    cs = chunk_history()
    for n in list(range(1, 40)) + ([] if quick else list(range(40, 900))):
        s = spec(cs, [PARSE, CSVL], ('seq', 'par', 'warm', 'warm'), env=dict(GWV_READCAP=str(n)))
        yield s
    # every place where one read ends and the next starts
    for lo in range(0, 900, 30):
        yield dict(commits=cs, now=NOW, walks=['seq', 'par'], cmds=[dict(opt=o, env=dict(GWV_READAT=str(k))) for k in range(max(1, lo), lo + 30) for o in ((PARSE, CSVL) if not quick else (PARSE,) if k % 3 else (CSVL,))])
    # tokens at the ends of the scanner's buffer, which starts with 4096 bytes and doubles
    for size in (4096, 8192) if quick else (4096, 8192, 16384, 32768):
        for off in range(-6, 7) if quick else range(-70, 71):
            name = 'n' * max(1, size - 300 + off) if size <= 4096 else 'n' * (size - 200 + off)
            big = [who(A, date=T0, ops=[('+', 'x', 1)]), dict(name=name, email='e@x', date=T0 + 1, ops=[('+', 'x', 2), ('+', 'y', 1)]), who(B, date=T0 + 2, ops=[('mv', 'y', 'z')])]
            yield spec(big, [PARSE, CSVL], ('seq', 'par'))
    # names longer than the scanner would read by default
    for size in (65536, 70000) if quick else range(65300, 65600):
        big = [who(A, date=T0, ops=[('+', 'x', 1)]), dict(name='n' * size, email='e@x', date=T0 + 1, ops=[('+', 'x', 2)]), dict(name='N', email='e' * size, date=T0 + 2, ops=[('+', 'y', 1)])]
        yield spec(big, [PARSE, CSVL], ('seq', 'par', 'warm'))
    # paths of growing length, so that every token of the last commits falls on the end of the buffer once
    for off in range(0, 130 if not quick else 40):
        fill = [who(A, date=T0, ops=[('+', 'f' * (100 + off % 100) + '%d' % i, 1) for i in range(28 + off // 100)])]
        yield spec(fill + [who(B, date=T0 + 1, ops=[('mv', fill[0]['ops'][0][1], 'r')]), who(('', ''), date=T0 + 2, ops=[]), who(C, date=T0 + 3, ops=[('+', 'r', 1)])], [PARSE], ('seq', 'par'))


# ------------------------------------------------------------------ configuration
CONFIG = ['log.showRoot=false', 'diff.relative=true', 'color.ui=always', 'i18n.logOutputEncoding=ISO-8859-1', 'i18n.commitEncoding=ISO-8859-1', 'log.abbrevCommit=true', 'log.diffMerges=separate', 'diff.noprefix=true',
          'diff.statNameWidth=3', 'log.showSignature=true', 'diff.colorMoved=zebra', 'diff.context=0', 'log.initialDecorationSet=all', 'log.decorate=full', 'core.quotePath=true', 'log.date=human', 'column.ui=always', 'core.pager=false', 'pager.log=true',
          'log.mailmap=true', 'log.mailmap=false', 'diff.mnemonicPrefix=true', 'diff.submodule=log', 'format.pretty=fuller', 'log.graphColors=red', 'diff.renames=copies', 'diff.stat=false', 'core.commentChar=%', 'notes.displayRef=*', 'diff.dirstat=lines',
          'core.precomposeUnicode=true', 'diff.suppressBlankEmpty=true', 'diff.interHunkContext=9', 'diff.wsErrorHighlight=all', 'core.abbrev=40', 'format.notes=true', 'log.follow=false', 'status.relativePaths=false', 'diff.wordRegex=.', 'advice.graftFileDeprecated=false']


def config_specs(quick):
    cs = [who(('José', 'j@é'), date=T0, ops=[('+', 'x', 3), ('+', 'd/é', 2), ('sub', 's')]), who(B, date=T0 + DAY, ops=[('mv', 'x', 'd/z', 1)]), who(C, date=T0 + 2 * DAY, ops=[('+', 'root', 2)], parents=[]),
          who(('Jos\u0113', 'j@é'), date=T0 + 3 * DAY, parents=[1, 2], ops=[('take', 1)]), who(A, date=T0 + 4 * DAY, ops=[('-', 'd/é', 1), ('+', 'root', 1)])]
    cmds = [PARSE, SHORT, CSV, CSVL, TREE, dict(sub='hist', mode='f'), dict(CSVL, authors=['é']), dict(CSVL, authors=['^Jos. <']), dict(CSVL, cwd='d'), dict(TREE, cwd='d'), dict(CSV, nauthors=['ē'], cwd='d')]
    for c in CONFIG:
        k, v = c.split('=')
        yield spec(cs, cmds, ('seq', 'par', 'cold', 'warm'), config={k: v})
    if not quick:
        for a, b in itertools.combinations(CONFIG, 2):
            if a.split('=')[0] != b.split('=')[0]:
                yield spec(cs, [PARSE, CSVL, dict(TREE, cwd='d')], ('seq', 'par'), config=dict(x.split('=') for x in (a, b)))


DATES = [0, 1, 59, 86399, 86400, 999999999, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 33 + 1]


def date_specs(quick):
    """Dates of every length, up to the last ones Git knows."""
    cmds = [PARSE, CSV, CSVL, dict(CSVL, mode='c'), TREE, dict(TREE, mode='m'), dict(sub='hist')]
    for d in itertools.product(DATES, repeat=2 if quick else 3):
        if quick and d[0] > d[1] and d[0] < 2 ** 31:
            continue
        yield spec([who((A, B, C)[i], date=t, ops=[('+', 'xyz'[i], i + 1)]) for i, t in enumerate(d)], cmds if not quick or d[0] == d[1] else cmds[1:5:2] + cmds[:1], ('seq', 'par'), now=2 ** 33 + 10 * DAY)


def run(ck):
    ck.cov['rule'] = ('every sequence of up to three commits over an alphabet of shapes (normal, empty, merges, roots, renamed, binary, nameless, future, names like hashes), every name and path of up to two (thorough: three) odd characters, '
                      'every read size and every place where a read can end, dates of every length, and every configuration setting that could change the output of git log; byte for byte against what the history was made of')
    q = ck.quick
    e2e.explore(ck, sequences_of_shapes(q), what='shapes')
    e2e.explore(ck, name_specs(q), what='names')
    e2e.explore(ck, path_specs(q), what='paths')
    e2e.explore(ck, chunk_specs(q), what='chunking')
    e2e.explore(ck, date_specs(q), what='dates')
    e2e.explore(ck, config_specs(q), what='configuration')
