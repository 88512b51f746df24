"""C17: table and csv.  All combinations of awkward names, numbers of authors around the limit, magnitudes, options."""
import csv, io, itertools
import e2e
from gen import *

NAMES = ['A', 'x' * 29, 'x' * 30, 'x' * 31, 'x' * 32, 'x' * 33, 'x' * 34, 'x' * 60, '漢字' * 7 + 'k', '漢字' * 8, '漢字' * 8 + 'y', '漢' * 30, 'e\u0301' * 33, 'é' * 33, 'é' * 34,
         'a,b', 'say "hi"', '"', "O'Neil", 'semi;colon', '\\.', '한국어 이름 길게 길게 길게 길게 길게', '=1+1', '#x', '-x', 'I%sI', '😀 smile' , 'ñ' * 40 + '漢' * 5]


def names(groups):
    t = NOW - 20 * DAY
    for g in groups:
        cs = [dict(name=n, email=('é%d@漢' % i if i % 2 else 'm%d@x' % i) if len(n) < 40 else 'l' * 30 + '%d@x' % i, date=t + i * 3600, ops=[('+', 'f%d' % i, i % 3)] if i % 3 else []) for i, n in enumerate(g)]
        cmds = [dict(opt=dict(mode=m, email=e, csv=c, limit=0)) for m in ('', 'l', 'c') for e in (False, True) for c in (False, True) if not (m == 'c' and c)]
        cmds += [dict(opt=dict(mode='f')), dict(opt=dict(mode='m', email=True))]
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq', 'par'])


PEOPLE = [('A', ''), ('A', 'x'), ('A', 'a b@x'), ('A', 'a,b@x'), ('A', 'q"r@x'), ('A', '=1@x'), ('A', 'y' * 25 + '@x'), ('A', 'y' * 60 + '@x'), ('A', '漢字' * 6 + '@x'), ('', 'no@name'), ('', '漢字' * 16 + '@x'),
          ('x' * 40, ''), ('B "b"', ''), ('漢字' * 9, 'é@x'), ('B', '#c@x'), ('-', '-')]


def people(groups):
    """Names and email addresses that are empty, long or need quoting."""
    t = NOW - 20 * DAY
    for g in groups:
        cs = [dict(name=n, email=e, date=t + i * 3600, ops=[('+', 'f%d' % i, 1 + i % 3)]) for i, (n, e) in enumerate(g)]
        cmds = [dict(opt=dict(mode=m, email=e, csv=c, limit=0)) for m in ('', 'l', 'm') for e in (False, True) for c in (False, True) if not (m == 'm' and c)]
        cmds += [dict(opt=dict(sub=s, mode=m, email=e)) for s in ('tree', 'hist') for m in ('', 'f') for e in (False, True)]
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq', 'par'])


def counts(ns, limits):
    t = NOW - 50 * DAY
    for n in ns:
        cs = []
        for i in range(n):
            cs.append(dict(name='N%03d' % ((i * 13) % n), email='n%d@x' % i, date=t + i, ops=[('+', 'f%d' % (i % 4), 1)]))
        for i in range(n // 3):
            cs.append(dict(name='N%03d' % i, email='n%d@x' % i, date=t + DAY + i, ops=[]))
        cmds = [dict(opt=dict(mode=m, limit=l, csv=c, email=e)) for l in limits for m, e in (('', False), ('l', True), ('m', False)) for c in (False, True)]
        yield dict(commits=cs, now=NOW, cmds=cmds, walks=['seq'])


def magnitudes():
    t = NOW - 900 * DAY
    for a, b in [(999, 1000), (1001, 9999), (10000, 99999), (100000, 999999), (1000000, 1049999), (1050000, 2345678)]:
        cs = [who(A, date=t, ops=[('bulk', 'a', a)]), who(B, date=t + DAY, ops=[('bulk', 'b', b)]), who(B, date=t + 2 * DAY, ops=[('del', 'a')])]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(mode='l')), dict(opt=dict(mode='l', csv=True)), dict(opt=dict(mode='f', email=True)), dict(opt=dict(sub='tree', mode='l')), dict(opt=dict(sub='hist', mode='l'))],
                   walks=['seq', 'par'])
    # file and commit counts
    for n in (999, 1000, 1001):
        cs = [who(A, date=t, ops=[('bulk', 'd%d/f%d' % (k % 7, k), 1) for k in range(n)])] + [who(B, date=t + k, ops=[]) for k in range(n)]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict(mode='f')), dict(opt=dict()), dict(opt=dict(mode='f', csv=True)), dict(opt=dict(sub='tree', mode='f')), dict(opt=dict(sub='tree'))], walks=['seq', 'par'], bin='real')


def ages():
    """Every unit of age in every table column that shows one, and csv times in several zones."""
    for a in (0, 59, 60, 3599, 3600, 7199, 7200, DAY - 1, DAY, 2 * DAY - 1, 2 * DAY, 7 * DAY - 1, 7 * DAY, 14 * DAY, 30 * DAY - 1, 30 * DAY, 60 * DAY, 365 * DAY - 1, 365 * DAY, 730 * DAY, 18000 * DAY):
        # keep the running clock from crossing a boundary: the oldest edge is approached from above
        d = NOW - a if a % 60 == 0 else NOW - a + 30
        cs = [who(A, date=d, ops=[('+', 'x', 1)]), who(B, date=d - 45 * DAY if d > 46 * DAY else d, ops=[('+', 'y', 1)])]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=dict()), dict(opt=dict(mode='l', email=True)), dict(opt=dict(mode='c')), dict(opt=dict(mode='m')), dict(opt=dict(sub='tree', mode='m')), dict(opt=dict(sub='tree', mode='c'))] +
                   [dict(opt=dict(csv=True, limit=0), tz=z) for z in ('UTC', 'Asia/Kolkata', 'America/New_York', 'Pacific/Kiritimati')], walks=['seq', 'par'])


def parses_back(ck):
    """Independently of the model's own csv writer: a csv reader recovers what was put in."""
    from model import T  # noqa: F401
    import model
    for n in NAMES:
        s = io.StringIO()
        row = [n, 'x@y']
        line = ','.join(model.csvq(x) for x in row)
        assert next(csv.reader([line])) == row, n
        ck.add('csv_roundtrips')


def run(ck):
    ck.cov['rule'] = 'every awkward name alone and every pair, numbers of authors around the limits x -n, magnitudes and ages around every threshold x modes x -e x --csv; byte for byte'
    parses_back(ck)
    e2e.explore(ck, names([[n] for n in NAMES]), what='single names')
    e2e.explore(ck, names([NAMES[i:i + 7] for i in range(0, len(NAMES), 5)] + [NAMES]), what='groups of names')
    e2e.explore(ck, people([[p] for p in PEOPLE]), what='names and emails')
    e2e.explore(ck, people(itertools.combinations(PEOPLE, 2)), what='pairs of names and emails')
    e2e.explore(ck, magnitudes(), what='magnitudes')
    e2e.explore(ck, ages(), what='ages')
    if ck.quick:
        e2e.explore(ck, names(itertools.combinations(NAMES[::2], 2)), what='pairs of names')
        e2e.explore(ck, counts([1, 2, 9, 10, 11, 14, 15, 16, 17, 30], [None, 0, 1, 2, 9, 10, 11, 14, 15, 16]), what='numbers of authors')
        e2e.explore(ck, counts([1203], [None, 0, 1000, 1001]), what='many authors')
    else:
        e2e.explore(ck, names(itertools.combinations(NAMES, 2)), what='pairs of names')
        e2e.explore(ck, counts(list(range(1, 33)) + [999, 1001, 1011, 2500], [None] + list(range(0, 33)) + [1000]), what='numbers of authors')
