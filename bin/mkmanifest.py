#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E2E = 'bounded exhaustive enumeration of histories and commands on the real program against a reference model'
NOTE = ('Every case within the stated bounds is executed on the program built from /repo and compared with an independent model; '
        'trusts git for what commits and paths a selection contains, and says nothing about inputs outside the alphabet. ')
CHECKS = {}
for i in list(range(8, 23)) + [28, 29, 30]:
    CHECKS['C%02d' % i] = (E2E, 'model_checking', NOTE)
SCHED = 'systematic exploration of schedules and faults of the real program under a controlled scheduler, bounded by the number of deviations'
SNOTE = ('The program built from /repo runs unmodified under a runtime whose scheduling, selects, processes and file operations follow recorded choices; every schedule and fault combination within the bounds is executed; '
         'Git processes are replayed from recorded results; interleavings between synchronisation points are not split further (race detector on some schedules). ')
STATES = 'explicit-state exploration of cache contents with the real program as the transition relation'
for i, t in (('C01', SCHED), ('C02', SCHED), ('C03', SCHED), ('C07', SCHED), ('C05', STATES + ', runs killed at every file operation and byte, and every byte of damage'),
             ('C06', STATES + ', every interleaving of file operations of simultaneous processes up to a preemption bound'), ('C04', STATES + ' (sequences of runs over versions of the repository)'), ('C25', STATES + ' and a monitor on every file operation')):
    CHECKS[i] = (t, 'model_checking', SNOTE)
CHECKS['C26'] = (STATES + ', to the fixpoint', 'model_checking', 'States are the sets of commits a cache can hold; every state is reached and left by real runs of the program built from /repo, with a git in front of the real one that notes what it is asked; '
                 'within a fixed history and set of commands the exploration is complete. Caches that differ only in the order of commits count as one state. ')
CHECKS['C27'] = ('exhaustive enumeration of fault points: every byte after which standard output fails, on the real program', 'model_checking', 'Every command of the set is run on the program built from /repo once per byte of its output, with that byte the first that cannot be written (the standard library\'s write fails there), and on real full devices and closed pipes; '
                 'outputs larger than a block are cut around the ends of blocks only. ')
INPROC = 'exhaustive enumeration of values through the compiled code\'s exported functions, and bounded exhaustive enumeration of commands on the real program, against a reference model'
for i in ('C23', 'C24'):
    CHECKS[i] = (INPROC, 'model_checking', 'Every value (or every ordering of operations) within the bounds is run through the real functions, linked by an overlay package that touches no file of /repo; the parts also run end to end on the program, which alone decides if those functions no longer have that shape. ')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 bin/check.py --setup',
         hooks=dict(guard='none (no source changes: instrumentation is added with go build -overlay)',
                    enable='lib/build.py builds /repo with an overlay of instrumented standard-library files', source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i,
                                thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
