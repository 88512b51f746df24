"""C02: a failure to gather history is reported, never shown as a partial answer."""
import sched
from sched import PROC_FAULTS, SCHED_POINTS
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF

COUNT = dict(csv=True, limit=0)
ALL = [LINES, FILES, TREE, TREEA, HISTL, HISTF, COUNT, dict(mode='m', csv=True, limit=0), dict(sub='hist'), dict(sub='tree', mode='c', depth=1),
       dict(LINES, paths=['x', 'd']), dict(LINES, revs=['HEAD~1']), dict(sub='tree', cwd='d', paths=['y', '../x'])]


def run(ck):
    ck.cov['rule'] = ('every Git process the command starts is made to fail in each of eight ways (not started, failing before, half-way through or after its output, read errors, killed, '
                      'unparsable or cut-off output), alone and in pairs, under every schedule with at most the stated number of deviations; '
                      'the command must exit non-zero with a message and without printing an answer')
    ck.assumptions += ['processes other than those listing revisions, history and files may also be tolerated to fail if the answer is right all the same']
    q = ck.quick
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    l2, l3 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3)]
    P = PROC_FAULTS
    for o in ALL:
        for n in (1, 2):
            lab.job(br, o, chunk=2, ncpu=n, flags=P, sched=0, fault=1, policies=(0,) if n == 1 else (0, 1, 2, 3, 4))
    lab.job(br, LINES, chunk=1, ncpu=3, flags=P, sched=0, fault=1)
    lab.job(br, LINES, chunk=1, ncpu=2, flags=P, sched=0, fault=1, prime=[dict(LINES, revs=['HEAD~2'])])
    lab.job(br, dict(LINES, revs=['HEAD', 'HEAD~1'], paths=['d', 'x']), chunk=2, ncpu=2, flags=P, sched=0, fault=1)
    lab.job(l3, LINES, chunk=1, ncpu=2, flags=P, sched=0, fault=2, policies=(0, 3) if q else (0, 1, 2, 3, 4))
    lab.job(l2, LINES, chunk=1, ncpu=2, flags=P, sched=1, fault=1, policies=(0, 3) if q else (0, 1, 2, 3, 4))
    if not q:
        for o in (LINES, TREE, HISTF):
            lab.job(br, o, chunk=1, ncpu=3, flags=P, sched=1, fault=1)
            lab.job(br, o, chunk=2, ncpu=2, flags=P, sched=0, fault=2)
        lab.job(l2, LINES, chunk=1, ncpu=2, flags=P, sched=2, fault=1, policies=(0,))
    lab.run(max(10, ck.budget - ck.elapsed()))
