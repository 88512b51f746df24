"""C19: revision, date and author filters.  The product of small alphabets of each on a branching history with a mailmap."""
import itertools
import e2e
from gen import *

T0 = NOW - 30 * DAY
MAILMAP = 'Alice Real <alice@real> Ali <ali@old>\n'
IDENT = [['Alice Real', 'alice@real', 'Ali', 'ali@old']]


def history():
    I = [('Ali', 'ali@old'), ('Bob', 'bob@x'), ('Cyd Bobson', 'c@x'), ('Alice Real', 'alice@real'), ('d.e+f', 'd@x')]
    c = lambda i, day, par, **kw: dict(name=I[i][0], email=I[i][1], date=T0 + day * DAY, parents=par, ops=[('+', 'f%d' % (day % 3), day % 5 + 1)], **kw)
    return [
        c(0, 0, []),
        c(1, 3, [0]),
        c(2, 5, [1], ref='refs/heads/br'),
        c(3, 6, [2], ref='refs/heads/br', cdate=T0 + 20 * DAY),
        c(0, 8, [1]),
        c(4, 9, [4]),
        dict(name='Bob', email='bob@x', date=T0 + 12 * DAY, parents=[5, 2], ops=[('take', 1)]),
        c(1, 14, [6]),
        c(2, 25, [7], cdate=T0 + 11 * DAY),
        c(3, 27, [8]),
    ]


REVS = [(), ('HEAD',), ('br',), ('main..br',), ('br..main',), ('main...br',), ('^main', 'br'), ('main', 'br'), ('v1',), ('v1..',), ('HEAD~3',), ('{4}',), ('{7:10}', 'br'), ('HEAD~3^2', '^HEAD~4'), ('main~3^2',),
        ('refs/heads/br',), ('@',), ('HEAD~2..HEAD', 'v1')]
DATES = [('', ''), ('@%d' % (T0 + 6 * DAY), ''), ('', '@%d' % (T0 + 12 * DAY)), ('@%d' % (T0 + 3 * DAY), '@%d' % (T0 + 20 * DAY)), ('10 days ago', ''), ('', '2 weeks ago'), ('2023-10-20', '2023-11-03'),
         ('@%d' % (T0 + 21 * DAY), '@%d' % (T0 + 4 * DAY)), ('@%d' % (T0 + 28 * DAY), '')]
AUTH = [[], ['Alice'], ['bob'], ['Bob'], ['^Bob'], ['alice@real'], ['ali@old'], ['^Ali', 'd@x'], ['Bob', 'Cyd'], ['x>$'], ['nobody'], ['d.e'], ['R.al']]
NAUTH = [[], ['Alice'], ['Bob'], ['^Bob'], ['ali@old'], ['Bob', 'Real'], ['.'], ['nobody'], ['@x'], ['Bobson']]
FORMS = [dict(csv=True, limit=0), dict(csv=True, limit=0, mode='l'), dict(sub='tree', mode='', show_all=True), dict(sub='hist'), dict(sub='hist', mode='l'), dict(csv=True, limit=0, mode='f', email=True, merges=True)]


ODD = ['Ann (work)', 'C++ Guy', 'a|b', 'x{2}', 'xx', 'Dot.Net', '[bot]', 'back\\slash', 'dol$lar', 'car^et', 'st*ar', 'st', 'qu?', 'q', "O'Neil", 'dash -- x', '-n', 'Zoë Ü', 'C+', '--all', 'per%cent', '&', '~']
BASIC = ['Ann (work)', '(work)', 'C++', 'C+', 'a|b', 'a\\|b', 'x{2}', 'x\\{2\\}', 'Dot.Net', '\\[bot\\]', '[bot]', '[]]', 'dol$lar', 'dol\\$', 'car^et', '^car', '*ar', 'st*ar', 'st\\*', 'qu?', 'qu\\?', "O'", '-n', '--all', '--', 'Zoë', 'Z.*Ü', 'Zo.', '\\(C\\)+', '^', '$', '', ' ', '<', '9+', '%', '&', '~', '\\.Net', 'back\\\\', '!', 'a\\(n\\|x\\)']
PERL = ['\\(work\\)', 'C\\+\\+', 'a\\|b', 'a|b', 'x{2}', '\\[bot\\]', '[bot]', 'dol\\$', 'st\\*', 'qu?', 'qu\\?', '-n', '--all', 'Zoë', 'Zo.', '^C', '(?:C|Z)', '^(?!C)', '\\d', '9\\+', 'back\\\\', '(C)\\+', '%', "O'", '$', '^x|^q', '[[:upper:]]']


def odd_names(forms):
    """Names and patterns with characters that are special in one kind of regular expression or another."""
    h = [dict(name=n, email='%d+x@y' % i, date=T0 + i * DAY, ops=[('+', 'f%d' % (i % 3), i + 1)]) for i, n in enumerate(ODD)]
    neg = [p for p in PERL if '[[:' not in p]
    c = [((), DATES[0], [p], []) for p in BASIC] + [((), DATES[0], [], [p]) for p in neg] + [((), DATES[0], [p, q], []) for p in BASIC[::4] for q in BASIC[1::5]] + [((), DATES[0], [], [p, q]) for p in neg[::3] for q in neg[1::4]]
    c += [((), DATES[0], [p], [q]) for p in neg[::3] for q in neg[2::4]]
    cs = list(cmds(c, forms))
    for i in range(0, len(cs), 24):
        yield dict(commits=h, now=NOW, cmds=cs[i:i + 24], walks=['seq', 'par'])


EPOCHS = [0, 1, 43200, 86400, 99999999, 100000000, 10 ** 9, 2 ** 31 - 1, 2 ** 31]
WHEN = ['@0', '@1', '@86400', '@100000000', '@1000000000', '@2147483648', '1970-01-01', '1970-01-01 00:00:00 +0000', '1970-01-01T12:00:00Z', 'Jan 2 1970', '1973-03-03', '2001-09-09 01:46:40 +0000', '2001-09-09T01:46:40Z', '2038-01-19', '01/19/2038', '19 Jan 2038 03:14:08 +0000',
        'now', 'today', 'yesterday', 'noon yesterday', 'tea', 'never', 'last friday', '1.week.ago', '1 year 2 months ago', '40 years', '10:00', '1000000000 +0000', 'garbage', ' ', '0', '2038', 'Sat, 19 Jan 2038 03:14:08 +0100', '2038-01-19 05:14:07 +0200', '3.days.2.hours.ago']


def epochs(quick):
    """Dates from the first on, and ways of writing them."""
    h = [dict(name='A%d' % i, email='a@x', date=d, ops=[('+', 'f%d' % (i % 2), i + 1)]) for i, d in enumerate(EPOCHS)]
    combos = [((), ('', ''), [], [])] + [((), d, [], []) for w in WHEN for d in ((w, ''), ('', w))] + ([((), d, [], []) for d in itertools.product(WHEN, repeat=2)] if not quick else [])
    c = list(cmds(combos, FORMS))
    for i in range(0, len(c), 30):
        for z in ('UTC',) if quick else ('UTC', 'Asia/Kolkata', 'America/New_York'):
            yield dict(commits=h, now=2 ** 31 + 10 * DAY, cmds=c[i:i + 30], walks=['seq', 'par'], tz=z)


def cmds(combos, forms):
    return [dict(opt=dict(revs=list(r), since=d[0], until=d[1], authors=a, nauthors=n, **f)) for (r, d, a, n) in combos for f in forms]


def batches(cs, n, walks, mm):
    h = history()
    cs = list(cs)
    for i in range(0, len(cs), n):
        s = dict(commits=h, tags={'v1': 4}, now=NOW, cmds=cs[i:i + n], walks=walks)
        if mm:
            s.update(files={'.mailmap': MAILMAP}, identity=IDENT)
        yield s


def run(ck):
    ck.cov['rule'] = 'every combination of two of (revisions, dates, author patterns, excluded author patterns), and a product of all four, x subcommands; byte for byte against the commits git log selects'
    pair = [(r, d, [], []) for r in REVS for d in DATES] + [(r, DATES[0], a, []) for r in REVS[:6] for a in AUTH] + [((), DATES[0], a, n) for a in AUTH for n in NAUTH]
    cube = list(itertools.product(REVS[:8:2], DATES[:4], AUTH[:8:2], NAUTH[:8:2]))
    pats = ['Alice', 'Bob', 'Cyd', 'd@x', 'real', 'nobody']
    sets = [(a, n) for k in range(3, 5) for s in itertools.combinations(pats, k) for a, n in (([], list(s)), (list(s), []), (list(s[:2]), list(s[2:])), (list(s[2:]), list(s[:2])))]
    e2e.explore(ck, epochs(ck.quick), what='dates and ways of writing them')
    e2e.explore(ck, odd_names([FORMS[1]] if ck.quick else FORMS), what='special characters')
    e2e.explore(ck, batches(cmds([((), DATES[0], a, n) for a, n in sets], [FORMS[0], FORMS[5]] if ck.quick else FORMS), 24, ['seq', 'par'], True), what='three and more patterns')
    if ck.quick:
        e2e.explore(ck, batches(cmds(pair, [FORMS[1], FORMS[3]]), 24, ['seq', 'par'], True), what='pairs')
        e2e.explore(ck, batches(cmds([(r, DATES[0], [], []) for r in REVS] + [((), d, [], []) for d in DATES] + [((), DATES[0], a, []) for a in AUTH] + [((), DATES[0], [], n) for n in NAUTH], FORMS), 24, ['seq', 'par', 'warm'], True), what='single filters, all commands')
        e2e.explore(ck, batches(cmds([((), DATES[0], a, n) for a in AUTH for n in NAUTH], [FORMS[0], FORMS[5]]), 24, ['seq', 'par'], False), what='no mailmap')
        e2e.explore(ck, batches(cmds(cube, [FORMS[5]]), 24, ['par'], True), what='product')
    else:
        e2e.explore(ck, batches(cmds(pair, FORMS), 24, ['seq', 'par', 'warm'], True), what='pairs')
        e2e.explore(ck, batches(cmds([((), DATES[0], a, n) for a in AUTH for n in NAUTH], FORMS), 24, ['seq', 'par'], False), what='no mailmap')
        e2e.explore(ck, batches(cmds(itertools.product(REVS[:12], DATES[:5], AUTH[:9], NAUTH[:7]), [FORMS[0], FORMS[5]]), 24, ['seq', 'par'], True), what='product')
