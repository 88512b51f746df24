"""C14: timeline rows.  All pairs of instants around every kind of period boundary x time zones x kinds of end."""
import itertools
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo
import e2e
from gen import *

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia', 'America/Sao_Paulo', 'Australia/Lord_Howe', 'Pacific/Kiritimati', 'America/Havana', 'Africa/Cairo']


def local(z, *a):
    d = datetime(*a, tzinfo=ZoneInfo(z))
    return int(d.timestamp())


def instants(z):
    """Instants around the boundaries that matter in this zone."""
    out = []
    for base in [(2019, 12, 31), (2020, 2, 28), (2020, 2, 29), (2020, 3, 1), (2021, 2, 28), (2020, 4, 30), (2018, 1, 1)]:
        m = local(z, *base)
        out += [m, m - 1, m + 86399]
    # every change of offset between 2010 and 2021, one second before and after (and the local midnights around)
    zi = ZoneInfo(z)
    t, end = int(datetime(2010, 1, 1, tzinfo=zi).timestamp()), int(datetime(2019, 6, 1, tzinfo=zi).timestamp())
    off = datetime.fromtimestamp(t, zi).utcoffset()
    ch = []
    while t < end:
        t2 = t + 12 * 3600
        o2 = datetime.fromtimestamp(t2, zi).utcoffset()
        if o2 != off:
            lo, hi = t, t2
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if datetime.fromtimestamp(mid, zi).utcoffset() == off:
                    lo = mid
                else:
                    hi = mid
            ch.append(hi)
            off = o2
        t = t2
    return out, ch


def pairs_specs(z, quick):
    base, ch = instants(z)
    firsts = base[:6] + base[12:15]
    spans = [0, 1, 3600, DAY - 1, DAY, DAY + 1, 2 * DAY, 27 * DAY, 31 * DAY, 59 * DAY, 60 * DAY - 1, 60 * DAY, 60 * DAY + 1, 61 * DAY,
             62 * DAY, 365 * DAY, 366 * DAY, 5 * 365 * DAY - DAY, 5 * 365 * DAY - 1, 5 * 365 * DAY, 5 * 365 * DAY + 1, 5 * 365 * DAY + DAY, 6 * 366 * DAY]
    for f in firsts:
        for s in spans:
            yield z, [f, f + s]
    for c in (ch[-4:] if quick else ch):
        for d1 in (-1, 0, -DAY):
            for d2 in (0, 1, 3599, DAY, 40 * DAY, 70 * DAY):
                a, b = c + d1, c + d2
                if a <= b:
                    yield z, [a, b]


def specs(zones, quick, modes):
    for z in zones:
        todo = list(pairs_specs(z, quick))
        # put several date sets in one repository, each on its own root commit chain
        for k in range(0, len(todo), 12):
            cs, cmds = [], []
            for _, ds in todo[k:k + 12]:
                n = len(cs)
                mid = (ds[0] + ds[1]) // 2
                for i, d in enumerate([ds[0], ds[1], mid]):
                    cs.append(who((A, B, A)[i], date=d, ops=[('+', 'f%d' % i, 2 + i)], parents=[len(cs) - 1] if i else [], ref='refs/heads/b%d' % n))
                late = ds[1] + 7 * 3600
                for m in modes:
                    o = dict(sub='hist', mode=m, revs=['b%d' % n])
                    cmds.append(dict(opt=o, now=late))
                # HEAD with and without --until: the end is the current date or the last commit
                cmds.append(dict(opt=dict(sub='hist', mode=modes[-1], until='@%d' % (late + 5), revs=['b%d' % n]), now=late + 3 * DAY))
            yield dict(commits=cs, refs={'refs/heads/main': 0}, now=NOW, tz=z, cmds=cmds, walks=['seq', 'par'])


def default_end(zones, quick):
    """No revisions: the timeline goes up to the current date."""
    for z in zones:
        base, ch = instants(z)
        for f in base[:4] + ch[-2:]:
            cs = [who(A, date=f, ops=[('+', 'f', 2)]), who(B, date=f + 3 * DAY, ops=[('+', 'g', 1)])]
            cmds = []
            for s in (3 * DAY, 4 * DAY - 1, 4 * DAY, 20 * DAY, 60 * DAY - 1, 60 * DAY, 60 * DAY + 1, 61 * DAY, 70 * DAY, 400 * DAY, 5 * 365 * DAY, 5 * 365 * DAY + 1, 5 * 365 * DAY + DAY, 2500 * DAY):
                # the time of day makes no difference to the number of rows, the clock starts a few seconds into the minute
                cmds.append(dict(opt=dict(sub='hist'), now=f + s + 20))
                cmds.append(dict(opt=dict(sub='hist', mode='l'), now=f + s + 20))
            cmds.append(dict(opt=dict(sub='hist', until='@%d' % (f + 100 * DAY)), now=f + 300 * DAY))
            yield dict(commits=cs, now=NOW, tz=z, cmds=cmds, walks=['seq', 'par'])


def triples(zones):
    """Three commits in any order over boundary instants of one zone: order of the log is not order of dates."""
    for z in zones:
        base, ch = instants(z)
        pts = [base[1], base[0], base[2], base[2] + 1, base[0] + 33 * DAY]
        cs, cmds = [], []
        for p in itertools.permutations(pts, 3):
            n = len(cs)
            for i, d in enumerate(p):
                cs.append(who((A, B, A)[i], date=d, ops=[('+', 'f%d' % i, 2 + i)], parents=[len(cs) - 1] if i else [], ref='refs/heads/b%d' % n))
            cmds.append(dict(opt=dict(sub='hist', mode='l', revs=['b%d' % n])))
            cmds.append(dict(opt=dict(sub='hist', revs=['b%d' % n])))
        yield dict(commits=cs, refs={'refs/heads/main': 0}, now=NOW, tz=z, cmds=cmds, walks=['seq', 'par'])


def ticks(zones, quick):
    """Midnight passes while the program runs, at every time it reads the clock; a commit has just been made then."""
    for z in zones:
        for base in ((2020, 3, 2), (2020, 4, 1), (2021, 1, 1)):
            m = local(z, *base)
            for first in (None, 3, 57, 64, 400, 1820, 1835, 4000):
                cs = [] if first is None else [who(A, date=m - first * DAY - 7, ops=[('+', 'x', 3)]), who(B, date=m - DAY - 7, ops=[('+', 'y', 1)])][:1 if first == 3 else 2]
                cs.append(who(C, date=m + 5, ops=[('+', 'x', 1)]))
                for o, walks, n in ((dict(sub='hist'), ['seq'], 7), (dict(sub='hist', mode='l'), ['par', 'warm'] if not quick or first in (None, 64, 1835) else ['par'], 13 if not quick or first == 3 else 9)):
                    yield dict(commits=cs, now=m - 2, tz=z, walks=walks, allwalks=True, cmds=[dict(opt=o, or_now=m + 58, env=dict(GWV_TICK='%d,60' % k)) for k in range(1, n)])


def run(ck):
    ck.cov['rule'] = ('every pair (first commit on a boundary instant, time span on or next to a threshold) x zones, with another commit in between, '
                      'x kinds of end; midnight passing at every time the clock is read; every order of three commits; compared byte for byte with the model')
    ck.cov['zones'] = ZONES
    z = ZONES[:6] if ck.quick else ZONES
    ck.cov['zones'] = z
    e2e.explore(ck, specs(z, ck.quick, ['', 'l']), what='pairs')
    e2e.explore(ck, default_end(z, ck.quick), what='default end')
    e2e.explore(ck, ticks(['UTC', 'America/New_York'] if ck.quick else ZONES, ck.quick), what='midnight passes')
    e2e.explore(ck, triples(ZONES), what='triples')
