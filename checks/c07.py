"""C07: a failed run never poisons the cache."""
import sched
from sched import PROC_FAULTS, SCHED_POINTS, FS_FAULTS
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF

AFTER = [LINES, HISTF, dict(TREEA, merges=True)]


def run(ck):
    ck.cov['rule'] = ('every run in which a Git process or a cache operation fails, in every schedule within the stated deviations, from an empty, a partial or a full cache; '
                      'for every distinct content of the cache that is left behind, three later commands must print what they print with an empty cache')
    q = ck.quick
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    l2, l3, l5 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3, 5)]
    P, F, S = PROC_FAULTS, FS_FAULTS, SCHED_POINTS
    every = (0, 1, 2, 3, 4)
    K = dict(follow=AFTER)
    lab.job(br, TREE, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=1, **K)
    lab.job(br, HISTF, chunk=2, ncpu=3, flags=P | F | S, sched=0, fault=1, prime=[dict(LINES, revs=['HEAD~1'])], **K)
    lab.job(l5, LINES, chunk=2, ncpu=2, flags=P | F | S, sched=0, fault=1, prime=[dict(LINES, revs=['HEAD~2'])], **K)
    lab.job(l3, LINES, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=1, prime=[LINES], **K)
    lab.job(l3, dict(LINES, paths=['d']), chunk=2, ncpu=2, flags=P | F | S, sched=0, fault=1, **K)
    lab.job(l5, dict(LINES, revs=['HEAD~1']), chunk=2, ncpu=2, flags=P | S, sched=0, fault=1, **K)
    lab.job(l2, LINES, chunk=1, ncpu=2, flags=P, sched=1, fault=1, policies=(0, 3) if q else every, **K)
    lab.job(l3, LINES, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=2, policies=(1,) if q else every, **K)
    lab.job(l2, TREE, chunk=2, ncpu=2, flags=P, sched=1, fault=1, policies=(4,) if q else every, **K)
    if not q:
        lab.job(l3, LINES, chunk=1, ncpu=3, flags=P, sched=1, fault=1, **K)
        lab.job(br, LINES, chunk=2, ncpu=2, flags=P | S, sched=1, fault=1, prime=[dict(LINES, revs=['HEAD~2'])], **K)
        lab.job(l2, LINES, chunk=1, ncpu=2, flags=P, sched=2, fault=1, policies=(0, 1), **K)
        lab.job(l5, HISTL, chunk=1, ncpu=2, flags=P | F | S, sched=0, fault=2, **K)
    lab.run(max(10, ck.budget - ck.elapsed()))
