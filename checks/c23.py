"""C23: abbreviations of numbers, ages and names."""
import itertools, json, shutil, subprocess
import build, e2e
from gen import *

T0 = NOW - 400 * DAY
GIT = shutil.which('git')
TL, TREEL, HISTL = dict(mode='l'), dict(sub='tree', mode='l'), dict(sub='hist', mode='l')


# ------------------------------------------------------------------ whole program
def numbers(quick):
    r = set(range(0, 30)) | {2 ** k + d for k in range(0, 31) for d in (-1, 0, 1)}
    for e in range(1, 10):
        for m in (1, 2, 5, 9):
            r |= {m * 10 ** e + d for d in (-2, -1, 0, 1, 2)}
    for n in (1_000_000, 1_500_000, 9_900_000, 10_000_000, 99_900_000, 100_000_000):
        r |= {n + d * 10_000 + x for d in range(-12, 13) for x in (0, 1, -1)}
    if not quick:
        r |= set(range(0, 2_000, 3)) | set(range(999_000, 1_001_000, 7)) | set(range(1_000_000, 101_000_000, 49_999))
    # (half way between two tenths the program may round either way)
    return sorted(n for n in r if 0 <= n <= 2_000_000_000 and not (n > 1_000_000 and abs(n % 100_000 - 50_000) < 40))


def number_specs(quick):
    ns = numbers(quick)
    cs = [who(A, date=T0, ops=[('+', 'x', 1)])]
    per = 40
    for k in range(0, len(ns), per):
        cmds = []
        for i in range(k, min(len(ns), k + per)):
            a, r = ns[i], ns[(i * 7 + 3) % len(ns)]
            for j, o in enumerate((TL, TREEL, HISTL)):
                if j == 0 or (i + j) % 3 == 0 or not quick:
                    cmds.append(dict(opt=o, diffs={'0': [['x', a, r]]}, env=dict(FG_GIT=GIT, FG_SUB='log', FG_REPL='1\t0\tx=>%d\t%d\tx' % (a, r), PATH='{fakegit}:/usr/bin:/bin')))
        yield dict(commits=cs, now=NOW, walks=['seq'], cmds=cmds, bin='real')


def ages(quick):
    r = set()
    for u, top in ((60, 61), (3600, 26), (DAY, 32), (7 * DAY, 6), (30 * DAY, 14), (365 * DAY, 53)):
        for n in range(top):
            r |= {n * u + d for d in (-1, 0, 1, u // 2)}
    if not quick:
        r |= set(range(0, 90000, 37)) | set(range(0, 800 * DAY, 7001 * 3))
    return sorted(x for x in r if 0 <= x < NOW + 30 * 365 * DAY)


def age_specs(quick):
    D = 86400 * 3
    cs = [who(A, date=D, ops=[('+', 'x', 1)])]
    ag = ages(quick)
    per = 60
    for k in range(0, len(ag), per):
        cmds = []
        for i, a in enumerate(ag[k:k + per]):
            for o in (dict(mode='m'), dict(mode='c'), dict(sub='tree', mode='c' if i % 2 else 'm'), dict(mode='l')) if not quick or a < 7200 else ((dict(mode='m'), dict(mode='c'), dict(sub='tree', mode='m'), dict(sub='tree', mode='c'), dict(mode='l'))[i % 5],):
                cmds.append(dict(opt=o, now=D + a))
        yield dict(commits=cs, now=NOW, walks=['seq'], cmds=cmds, bin='real')


CL = ['a', 'é', '漢', 'e\u0301', '😀']


def names(quick):
    tails = [''.join(t) for n in range(0, 4) for t in itertools.product(CL, repeat=n)]
    for w in (25, 31, 33, 58) if not quick else (25, 31, 33):
        for k in range(w - 4, w + 2):
            for t in tails:
                if quick and len(t) > 2 and (k + len(t)) % 2:
                    continue
                yield 'b' * k + t
    for w in (24, 25, 26, 31, 33, 34, 58, 200):
        for c in CL + ['ｱ', 'Ж', '\U0001f680']:
            yield c * w
            yield c * (w // 2)


def name_specs(quick):
    ns = list(dict.fromkeys(names(quick)))
    per = 50
    for k in range(0, len(ns), per):
        g = ns[k:k + per]
        cs = [dict(name=n, email='%s@x' % n[-40:], date=T0 + i * DAY, ops=[('+', 'f%02d' % i, 1)]) for i, n in enumerate(g)]
        yield dict(commits=cs, now=NOW, walks=['seq'], cmds=[dict(opt=o) for o in (dict(limit=0), dict(limit=0, email=True), dict(limit=0, mode='l'), dict(sub='tree', show_all=True), dict(sub='tree', email=True), dict(sub='hist', since='@%d' % (T0 - 5), until='@%d' % (T0 + 60 * DAY)), dict(sub='hist', email=True, until='@%d' % (T0 + 60 * DAY)))])


# --------------------------------------------------------------------- in process
def inproc(ck, cfg):
    b = build.inproc('informat')
    if not isinstance(b, str):
        ck.incomplete('package format does not have the functions the harness calls: ' + b[0][-300:])
        return
    cfg['Secs'] = max(10, ck.budget - ck.elapsed() - 30)
    r = build.run_limited([b], json.dumps(cfg), cfg['Secs'] + 120)
    if r is None:
        return ck.violation('formatting does not come to an end', dict(engine='c23', config=cfg))
    if r.returncode != 0:
        ck.failed = r.stderr[-2000:]      # the runs of the program below may tell why
        return
    o = json.loads(r.stdout)
    n = o['Numbers'] + o['Ages'] + o['Names']
    for k in ('Numbers', 'Ages', 'Names'):
        ck.add(k.lower() + '_covered', o[k])
    ck.add('states', n)
    ck.add('transitions', n)
    ck.add('evaluations', n)
    ck.add('traces_validated_against_impl', n - len(o['Bad'] or ()))
    ck.add('distinct_nontrivial', n)
    ck.sample(dict(config=cfg, numbers=o['Numbers'], ages=o['Ages'], names=o['Names']))
    if not o['Done']:
        ck.incomplete('in process: stopped by the time budget')
    for x in o['Bad'] or ():
        ck.violation(x, dict(engine='c23', config=cfg))


def replay(r):
    if r.get('engine') == 'e2e':
        return e2e.replay(r)
    b = build.inproc('informat')
    o = json.loads(subprocess.run([b], input=json.dumps(r['config']), capture_output=True, text=True).stdout)
    print('\n'.join(o['Bad'] or ()))
    return 1 if o['Bad'] else 0


def run(ck):
    ck.cov['rule'] = ('in process: every number up to the bound and around every power of ten, every age up to the bound and around every multiple of every unit, every name of up to the bound of narrow, wide and combined characters at every width; '
                      'through the program: numbers reported by git around all thresholds, ages around all multiples, names that end near the width of their column; byte for byte')
    q = ck.quick
    inproc(ck, dict(MaxNumber=101_000_000 if q else 1_200_000_000, MaxSecond=6_000_000 if q else 400_000_000, Length=5 if q else 7))
    build.fakegit()
    e2e.explore(ck, number_specs(q), what='numbers')
    e2e.explore(ck, age_specs(q), what='ages')
    e2e.explore(ck, name_specs(q), what='names')
    build.finish_inproc(ck)
