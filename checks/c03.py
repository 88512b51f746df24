"""C03: termination under every schedule and fault, and for any rhythm of Git's output."""
import itertools, os, subprocess
import build, e2e, sched
from sched import PROC_FAULTS, SCHED_POINTS, FS_FAULTS
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF, T

COUNT = dict(csv=True, limit=0)
COMMANDS = [LINES, COUNT, TREE, HISTL, HISTF, dict(sub='hist')]
AMOUNTS = [1, 65536, 65537, 300000]


def rhythms(quick):
    """What git writes when."""
    for sub in ('all', 'log', 'revs', 'ls-files', 'rev-parse'):
        for where in ('BEFORE', 'MID', 'AFTER'):
            for n in AMOUNTS:
                yield dict(FG_SUB=sub, **{'FG_' + where: str(n)})
        yield dict(FG_SUB=sub, FG_AFTER='300000', FG_CLOSE='1')
        yield dict(FG_SUB=sub, FG_BEFORE='300000', FG_MID='300000', FG_AFTER='300000', FG_EXIT='3')
        yield dict(FG_SUB=sub, FG_AFTER='300000', FG_EXIT='3', FG_CLOSE='1')
        for c in (1, 7, 64, 4096):
            yield dict(FG_SUB=sub, FG_CHUNK=str(c))


def output(ck):
    git = subprocess.run(['which', 'git'], capture_output=True, text=True).stdout.strip()
    big = [who([A, B, C][i % 3], date=T + i * 60, ops=[('+', 'dir%d/file with a rather long name %d' % (j % 7, j), 1) for j in range(i * 3, i * 3 + 12)]) for i in range(150)]
    for hist, chunk in ((branched(), 'small'), (big, 'real')):
        for r in rhythms(ck.quick):
            fails = 'FG_EXIT' in r
            cmds = []
            for o in (COMMANDS if not ck.quick else [LINES, TREE, COUNT] if chunk == 'small' else [LINES, TREE]):
                e = dict(r, FG_GIT=git, PATH='{fakegit}:/usr/bin:/bin')
                sub = r['FG_SUB']
                # does the failing process take part in this command?
                par = o.get('mode') in ('l', 'f') or o.get('sub') == 'tree'
                for w in ('seq', 'par'):
                    if w == 'par' and not par:
                        continue
                    hit = sub in ('all', 'rev-parse', 'log') or sub == 'ls-files' and o.get('sub') == 'tree' or sub == 'revs' and (w == 'par' or o is COUNT or o.get('sub') == 'hist' and not o.get('mode'))
                    if sub == 'log' and not par:
                        hit = False
                    if sub == 'rev-parse' and fails:
                        continue
                    cmds.append(dict(opt=o, env=e, walks=[w], fail=fails and hit))
            yield dict(commits=hist, now=NOW + 30, bin=chunk, cmds=cmds, walks=['seq'])


def run(ck):
    ck.cov['rule'] = ('all schedules with at most the stated number of deviations, combined with every single failure of a Git process or cache operation (and pairs of them); '
                      'deadlock, livelock, panic and spurious failure are looked for; and on real pipes every combination of where and how much Git writes to standard error and in what pieces to standard output')
    q = ck.quick
    e2e.prepare(2)
    old, e2e.TIMEOUT = e2e.TIMEOUT, 20
    build.fakegit()                                           # before the workers start, so that none writes what another runs
    e2e.explore(ck, output(ck), what='rhythms of output', stop_after=3)
    e2e.TIMEOUT = old
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    l2, l3, l5 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3, 5)]
    P, F, S = PROC_FAULTS, FS_FAULTS, SCHED_POINTS
    every = (0, 1, 2, 3, 4)
    lab.job(br, TREE, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=1)
    lab.job(l5, LINES, chunk=1, ncpu=3, flags=S, sched=1)
    lab.job(l5, HISTL, chunk=2, ncpu=2, flags=P | F | S, sched=0, fault=1, prime=[dict(LINES, revs=['HEAD~2'])])
    lab.job(l2, LINES, chunk=1, ncpu=2, flags=F | S, sched=1, fault=1, policies=(0, 3) if q else every)
    lab.job(l2, LINES, chunk=1, ncpu=3, flags=P, sched=1, fault=1, policies=(1, 4) if q else every)
    lab.job(l3, LINES, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=2, policies=(2,) if q else every)
    if not q:
        lab.job(l5, LINES, chunk=1, ncpu=2, flags=P, sched=0, fault=2)
        lab.job(br, HISTF, chunk=1, ncpu=3, flags=P, sched=1, fault=1)
        lab.job(br, TREEA, chunk=2, ncpu=2, flags=F | S, sched=1, fault=1, prime=[dict(LINES, revs=['HEAD~1'])])
        lab.job(l2, LINES, chunk=1, ncpu=2, flags=P, sched=2, fault=1, policies=(1, 2))
    lab.run(max(10, ck.budget - ck.elapsed()))
