"""C01: the parallel walk gives the sequential answer in every schedule."""
import e2e, sched
from gen import *

T = NOW - 30 * DAY
LINES = dict(mode='l', csv=True, limit=0)
FILES = dict(mode='f', csv=True, limit=0, merges=True)
TREE = dict(sub='tree')
TREEA = dict(sub='tree', show_all=True, mode='l')
HISTL = dict(sub='hist', mode='l')
HISTF = dict(sub='hist', mode='f')


def linear(n):
    """Authors and files recur across batches, so that losing, repeating or mixing up any commit shows."""
    return [who([A, B, C][(i * 2 + i // 3) % 3], date=T + (i * 7 % n) * DAY, ops=[('+', ['x', 'd/y', 'd/z'][i % 3], 1 + i * i)]) for i in range(n)]


def branched():
    return [who(A, date=T, ops=[('+', 'x', 4)]), who(B, date=T + DAY, ops=[('+', 'd/y', 2)]), who(A, date=T + 2 * DAY, ops=[('mv', 'x', 'd/z')], parents=[0]),
            who(C, date=T + 3 * DAY, ops=[('take', 1)], parents=[2, 1]), who(B, date=T - DAY, ops=[('del', 'd/y'), ('bin', 'b')]), who(C, date=T + 4 * DAY, ops=[])]


def sizes(ns, walks):
    """Around multiples of the real batch size."""
    for n in ns:
        cs = [who([A, B, C][i % 3], date=T - i * 3600, ops=[('=', 'f%d' % (i % 5), 1, 1)] if i >= 5 else [('+', 'f%d' % i, 3)]) for i in range(n)]
        yield dict(commits=cs, now=NOW, bin='real', walks=walks, allwalks=True,
                   cmds=[dict(opt=LINES), dict(opt=dict(LINES, revs=['HEAD~1']), walks=['cold']), dict(opt=LINES, walks=['warm']),
                         dict(opt=dict(sub='hist', mode='l'), walks=walks[:1]), dict(opt=dict(sub='tree', mode='l'), walks=['par'])])


def small_sizes(n):
    """Any number of commits, in batches of two, and of workers."""
    for k in range(1, n):
        yield dict(commits=linear(k), now=NOW + 30, walks=['par2', 'par3', 'par', 'par9', 'cold', 'warm'], cmds=[dict(opt=o) for o in (LINES, TREEA, HISTL, FILES)])


def run(ck):
    ck.cov['rule'] = ('all schedules with at most the stated number of deviations (a switch at a channel, lock, select, process or file operation, another goroutine when one blocks, '
                      'another ready case of a select) from each of five base schedulers; the real program runs under each of them from main to exit, '
                      'and must print what the sequential model gives')
    ck.assumptions += ['Git processes are deterministic functions of their arguments and input (their real results are recorded and replayed)',
                       'goroutines interact only at channel, select, lock, process and file operations; that they have no unsynchronised shared memory is '
                       'monitored (race detector) on the schedules of one job']
    q = ck.quick
    lab = sched.Lab(ck)
    l2, l3, l5 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3, 5)]
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    one = 1 if q else 2
    J = lambda live, o, **k: lab.job(live, o, **dict(dict(sched=one), **k))
    J(l3, LINES, ncpu=2)
    J(l3, LINES, ncpu=2, kind='race', policies=(0, 4) if q else (0, 1, 2, 3, 4), sched=1, flags=0)
    J(l5, LINES, chunk=2, ncpu=3, prime=[dict(LINES, revs=['HEAD~3'])])
    J(br, TREEA, chunk=2, ncpu=2)
    J(l3, HISTL, ncpu=3)
    J(l3, LINES, ncpu=2, prime=[LINES])
    J(br, FILES, chunk=1, ncpu=2, prime=[dict(LINES, revs=['{1}'])])
    J(l5, dict(LINES, paths=['d']), ncpu=2, flags=0)
    J(l5, TREE, chunk=2, ncpu=8, flags=0)
    J(br, HISTF, chunk=2, ncpu=2, prime=[dict(LINES, revs=['HEAD~2'])])
    if not q:
        J(l5, LINES, ncpu=2, flags=0)
        J(l5, TREE, ncpu=3, flags=0)
        J(br, dict(LINES, authors=['b'], email=True), chunk=1, ncpu=2)
        J(l3, LINES, chunk=1, ncpu=4)
        J(l2, LINES, ncpu=2, flags=0, sched=3, policies=(0, 3))
    else:
        J(l2, LINES, ncpu=2, sched=2, flags=0, policies=(0,))
    lab.run(max(10, ck.budget - ck.elapsed() - (15 if q else 60)))
    e2e.explore(ck, sizes([1023, 1024, 1025, 2048] if q else [1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072, 3073, 4096], ['par', 'par2']), what='real batch size')
    e2e.explore(ck, sizes([7001] if q else [5121, 7001, 9216, 12289, 20480], ['par3', 'par9']), what='many batches')
    e2e.explore(ck, small_sizes(13 if q else 40), what='number of commits and of workers')
    import c18
    e2e.explore(ck, c18.across(), key=c18.key, what='renames into and out of the paths')
