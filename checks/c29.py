"""C29: options mean the same in any order, number and spelling.  Every sequence of spelled options up to a bounded length."""
import itertools
import e2e
from gen import *

T0 = NOW - 30 * DAY


def history():
    return [who(A, date=T0, ops=[('+', 'x', 3), ('+', 'd/y', 2)]), who(B, date=T0 + DAY, ops=[('+', 'd/e/z', 1)]), who(('Alice', 'b@x'), date=T0 + 2 * DAY, ops=[('+', 'd/y', 4)]), who(C, date=T0 + 3 * DAY, parents=[1], ops=[('+', 'w', 1), ('+', '-l', 1)]),
            who(B, date=T0 + 4 * DAY, parents=[2, 3], ops=[('take', 1)]), who(('-l', '--'), date=T0 + 5 * DAY, ops=[('+', 'd/y', 1)]), who(('--csv', 'c@x'), date=T0 + 6 * DAY, ops=[('+', 'x', 1), ('del', 'w')])]


D2, D5 = '2023-10-17', '2023-10-20'
# (words, option, value); a list of values is added to
COMMON = [(['-l'], 'l', True), (['--l'], 'l', True), (['-l=true'], 'l', True), (['-l=false'], 'l', False), (['--f=1'], 'f', True), (['-f'], 'f', True), (['-f=0'], 'f', False), (['-e'], 'email', True), (['--e'], 'email', True), (['-e=F'], 'email', False),
          (['--merges'], 'merges', True), (['-merges'], 'merges', True), (['--merges=false'], 'merges', False), (['--author', 'Ali'], 'authors', ['Ali']), (['-author=Bob'], 'authors', ['Bob']), (['--author=--'], 'authors', ['--']), (['--author', '-l'], 'authors', ['-l']),
          (['--author', '--'], 'authors', ['--']), (['--nauthor', 'b@x'], 'nauthors', ['b@x']), (['-nauthor=-l'], 'nauthors', ['-l']), (['-nauthor', '--csv'], 'nauthors', ['--csv']), (['--since', D2], 'since', D2), (['-since=' + D5], 'since', D5), (['--until=' + D5], 'until', D5),
          (['-until', D2], 'until', D2), (['--since='], 'since', ''), (['-until', ''], 'until', '')]
M = [(['-m'], 'm', True), (['--c'], 'c', True), (['-m=false'], 'm', False)]
OWN = {'table': M + [(['--csv'], 'csv', True), (['-csv'], 'csv', True), (['-csv=false'], 'csv', False), (['-n', '1'], 'limit', 1), (['-n=2'], 'limit', 2), (['--n', '0'], 'limit', 0), (['-n', '-1'], 'limit', -1), (['-n'], 'bad', 1), (['-n', 'x'], 'bad', 1), (['-a'], 'bad', 1), (['-d', '1'], 'bad', 1)],
       'tree': M + [(['-a'], 'show_all', True), (['--a=t'], 'show_all', True), (['-a=false'], 'show_all', False), (['-d', '1'], 'depth', 1), (['--d=2'], 'depth', 2), (['-d', 'x'], 'bad', 1), (['--csv'], 'bad', 1), (['-n', '1'], 'bad', 1)],
       'hist': [(['-m'], 'bad', 1), (['--c'], 'bad', 1), (['--csv'], 'bad', 1), (['-n=1'], 'bad', 1), (['-a'], 'bad', 1)]}
BAD = [(['-x'], 'bad', 1), (['--lines'], 'bad', 1), (['-l=maybe'], 'bad', 1), (['-lf'], 'bad', 1), (['---l'], 'bad', 1), (['-=1'], 'bad', 1)]
TAILS = [([], {}), (['HEAD~2'], dict(revs=['HEAD~2'])), (['HEAD~2', '--', 'd'], dict(revs=['HEAD~2'], paths=['d'])), (['--', '-l'], dict(paths=['-l'])), (['d'], dict(paths=['d'])), (['--'], {})]
NAMES = ['Tree', 'TABLE', 'tab', 'h', 'tree.x', 'version', 'help', 'tree-1', 'Parse']      # revisions, not subcommands
TAILS1 = TAILS + [([n], dict(revs=[n])) for n in NAMES] + [([n, 'd'], dict(revs=[n], paths=['d'])) for n in NAMES[:2]]


def meaning(sub, toks, tail):
    """The options as the documentation has it: the last one counts, filters for authors add up; None for an error."""
    v = dict(authors=[], nauthors=[])
    for _, k, x in toks:
        if k == 'bad':
            return None
        if isinstance(x, list):
            v[k] = v[k] + x
        else:
            v[k] = x
    modes = [m for m in 'lfmc' if v.pop(m, False)]
    if len(modes) > 1 or v.get('limit', 0) < 0:
        return None
    return dict(v, sub=sub, mode=''.join(modes), **tail)


def cases(sub, lists, tails=TAILS[:1], prefixes=None):
    for toks in lists:
        if any(t[0] == ['-n'] for t in toks[:-1]):
            continue                          # takes what follows for its value
        for words, tail in tails:
            if toks and toks[-1][0] == ['-n'] and words:
                continue
            for p in prefixes or [[sub]]:
                m = meaning(sub, toks, tail)
                argv = p + [w for t in toks for w in t[0]] + words
                yield dict(opt=m, argv=argv) if m is not None else dict(opt=dict(sub=sub), argv=argv, fail=True)


def chunks(cmds, walks=('seq',), n=150):
    cmds = list(cmds)
    for i in range(0, len(cmds), n):
        yield dict(commits=history(), now=NOW, cmds=cmds[i:i + n], walks=list(walks), tags={n: 2 + i % 3 for i, n in enumerate(NAMES)})


def run(ck):
    ck.cov['rule'] = 'every sequence of spelled options up to the stated length for each subcommand, with and without revisions and paths after them, against the model of the options they mean'
    q = ck.quick
    for sub in ('table', 'tree', 'hist'):
        own, all_ = OWN[sub], OWN[sub] + COMMON + BAD
        pre = [[sub], ['-v', sub], ['--v', sub]] + ([[], ['-v']] if sub == 'table' else [])
        e2e.explore(ck, chunks(cases(sub, [()] + [(t,) for t in all_], TAILS1, pre)), what=sub + ', single options')
        e2e.explore(ck, chunks(cases(sub, [(t,) for t in all_]), ('par', 'warm')), what=sub + ', concurrently')
        e2e.explore(ck, chunks(cases(sub, itertools.product(all_, repeat=2), TAILS[:1] if q else TAILS)), what=sub + ', pairs')
        few = [t for t in all_ if t[1] != 'bad' and (not q or t[0][0][:2] == '--' or t[1] in 'lmce')]
        if q:
            few = few[::2]
        e2e.explore(ck, chunks(cases(sub, itertools.product(few, repeat=3)), n=400), what=sub + ', triples')
        if not q:
            e2e.explore(ck, chunks(cases(sub, itertools.product(few[::3], repeat=4)), n=400), what=sub + ', sequences of four')


replay = e2e.replay
