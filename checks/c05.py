"""C05: a run killed at any point, or a damaged cache, never breaks later runs."""
import sched
from gen import *
from c01 import linear, branched, LINES, FILES, TREE, TREEA, HISTL, HISTF

AFTER = [LINES, dict(TREEA, merges=True)]


def run(ck):
    ck.cov['rule'] = ('states are contents of the cache directory; transitions are complete runs of the real program, runs killed before any file operation or after any byte of a write '
                      '(from an empty, partial, full, and damaged cache; also a second time while recovering), and damage to any byte or from any byte of the files; '
                      'from every state reached, sequences of later runs must all give the right answer')
    q = ck.quick
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30, dirname='p[1 *?'))   # a name that is no valid pattern
    l2, l3, l5 = [lab.live(dict(commits=linear(n), now=NOW + 30)) for n in (2, 3, 5)]
    K = dict(mode='crash', follow=AFTER, policies=(0, 3) if q else (0, 1, 2, 3, 4), ncpu=2, crashes=2)
    J = lambda live, o, **k: lab.job(live, o, **dict(K, crashed=[o], **k))
    J(l3, LINES, chunk=1)
    J(l5, LINES, chunk=2, prime=[dict(LINES, revs=['HEAD~2'])])
    J(br, TREE, chunk=2, prime=[LINES])
    D = dict(mode='damage', chunk=2, ncpu=2, follow=AFTER)
    lab.job(l3, LINES, prime=[LINES], damage=['cut', 'zero', 'byte', 'replace'] + ([] if q else ['bits', 'swap']), **D)
    lab.job(l5, LINES, prime=[dict(LINES, revs=['HEAD~2'])], damage=['cut', 'zero', 'replace'] + ([] if q else ['byte', 'bits', 'swap']), **D)
    lab.run(max(10, ck.budget - ck.elapsed()))
