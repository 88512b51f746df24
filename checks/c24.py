"""C24: tallies of any split of a history combine to the tally of the whole."""
import json, subprocess
import build, e2e
from gen import *

T0 = NOW - 100 * DAY


def inproc(ck, levels):
    b = build.inproc('intally')
    if not isinstance(b, str):
        ck.incomplete('package tally does not have the functions the harness calls: ' + b[0][-300:])
        return
    secs = max(5, ck.budget - ck.elapsed())
    r = build.run_limited([b], json.dumps(dict(Levels=levels, Secs=secs)), secs + 120)
    if r is None:
        return ck.violation('tallying or combining does not come to an end', dict(engine='c24', letters=[]))
    if r.returncode != 0:
        ck.failed = r.stderr[-2000:]      # the runs of the program below may tell why
        return
    o = json.loads(r.stdout)
    ck.add('states', o['Histories'])
    ck.add('transitions', o['Combinations'])
    ck.add('combinations_of_parts', o['Combinations'])
    ck.add('comparisons', o['Comparisons'])
    ck.add('evaluations', o['Combinations'])
    ck.add('traces_validated_against_impl', o['Combinations'] - len(o['Bad'] or ()))
    ck.add('distinct_nontrivial', o['Histories'])
    ck.sample(dict(levels=levels, histories=o['Histories'], combinations=o['Combinations']))
    if not o['Done']:
        ck.incomplete('histories: stopped by the time budget')
    for x in o['Bad'] or ():
        ck.violation('tallies of parts: ' + x['What'], dict(engine='c24', letters=x['Letters']))


def replay(r):
    if r.get('engine') == 'e2e':
        return e2e.replay(r)
    b = build.inproc('intally')
    return subprocess.run([b], input=json.dumps(dict(Show=r['letters'])), text=True).returncode


# ---- the same through the program: batches of every small size, with some commits cached
def commits(k):
    al = [who(A, ops=[('=', 'x', 2, 1)]), who(B, ops=[('+', 'x', 1), ('+', 'd/y', 3)]), who(('Alice', 'b@x'), ops=[('+', 'd/y', 1)]), who(A, ops=[]), who(('', 'a@x'), ops=[('+', 'd/e/z', 1)]), who(('Cyd', ''), ops=[('+', 'x', 2)])]
    return [[dict(c, date=T0 + (i % 3) * 40 * DAY + i) for i, c in enumerate(s)] for s in sequences(k, al, tree={'x': 3})]


def e2e_specs(n):
    o = [dict(csv=True, limit=0, mode='l', merges=True), dict(csv=True, limit=0, mode='f', email=True), dict(sub='tree', mode='l', show_all=True), dict(sub='hist', mode='f'), dict(sub='hist', mode='l', email=True)]
    seed = who(C, date=T0 - DAY, ops=[('+', 'x', 3)])
    for cs in commits(n):
        cmds = []
        for k in range(1, n + 1):      # the first k are cached already
            cmds.append(dict(opt=dict(csv=True, mode='l', limit=0, revs=['HEAD~%d' % (n - k)] if k < n else []), walks=['cold']))
            cmds.append(dict(opt=o[k % len(o)], walks=['warm']))
            cmds.append(dict(opt=o[(k + 2) % len(o)], walks=['par', 'par2']))
        yield dict(commits=[seed] + cs, now=NOW, walks=['par'], cmds=cmds)


def run(ck):
    ck.cov['rule'] = ('in process: every history over an alphabet of commits, every partition into parts (also an empty part), every order and grouping of combining them, by name and by email, with and without merges; '
                      'tallies by path, by author, tree, by day and by month compared with sets computed from the commits, ranking and reducing twice; and through the program with batches of two and every number of commits cached')
    q = ck.quick
    inproc(ck, [dict(N=1, Letters=94), dict(N=2, Letters=60), dict(N=3, Letters=12), dict(N=4, Letters=5)] if q else
           [dict(N=1, Letters=94), dict(N=2, Letters=94), dict(N=3, Letters=20), dict(N=4, Letters=9), dict(N=5, Letters=4)])
    e2e.explore(ck, e2e_specs(2 if q else 3), what='through the program')
    build.finish_inproc(ck)
