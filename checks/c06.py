"""C06: simultaneous runs never produce or leave behind a wrong answer."""
import sched
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF

AFTER = [LINES, dict(TREEA, merges=True)]
MAP = 'Zoe <z@x> <a@x>\n'
OTHER = dict(mailmap=MAP, identity=[['Zoe', 'z@x', None, 'a@x']])


def run(ck):
    ck.cov['rule'] = ('two or three processes of the real program share a cache; they are stopped before every file operation below it, and every interleaving with at most the stated number of '
                      'preemptions is executed (which process goes on when one ends is always open; one of them may also be killed); '
                      'each must print its own right answer or fail cleanly, and from every cache content left behind sequences of later runs must be right')
    q = ck.quick
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    l2, l3, l5 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3, 5)]

    def J(live, *procs, prime=(), preempt=2 if q else 3, chunk=2, **k):
        procs = [p if 'o' in p else dict(o=p) for p in procs]
        lab.job(live, procs[0]['o'], mode='pair', procs=procs, prime=prime, follow=AFTER, preempt=preempt, policies=(0,), chunk=chunk, **k)
    PART = dict(LINES, revs=['HEAD~2'])
    J(l2, LINES, LINES, chunk=1, preempt=3 if q else 4)                                  # both find nothing
    J(l5, LINES, LINES, prime=[PART])                               # both add the same commits
    J(br, TREE, dict(LINES, revs=['HEAD~1']), prime=[dict(LINES, revs=['HEAD~2'])])
    J(l3, LINES, LINES, prime=[LINES])                              # both only read
    J(l5, dict(o=LINES), dict(o=LINES, **OTHER), prime=[PART])      # different mailmaps: different files
    J(l2, LINES, LINES, LINES, preempt=1)
    J(l3, LINES, LINES, preempt=1, kills=1)
    if not q:
        J(br, HISTF, LINES, prime=[PART])
        J(l2, LINES, LINES, TREE, preempt=2, prime=[dict(LINES, revs=['HEAD~1'])])
        J(l5, LINES, LINES, prime=[PART], preempt=1, kills=1)
        J(l5, PART, dict(LINES, revs=['HEAD~1']))
    lab.run(max(10, ck.budget - ck.elapsed()))
