"""C20: .git-blame-ignore-revs.  All subsets of a small history x file layouts x subcommands x cache states."""
import itertools
import e2e
from gen import *

T0 = NOW - 30 * DAY
CMDS = [dict(csv=True, limit=0), dict(csv=True, limit=0, mode='l'), dict(csv=True, limit=0, mode='f', merges=True), dict(csv=True, limit=0, mode='c'), dict(sub='tree', mode='l'), dict(sub='tree', show_all=True, merges=True),
        dict(sub='hist'), dict(sub='hist', mode='l'), dict(sub='hist', mode='f', merges=True)]


def history():
    return [who(A, date=T0, ops=[('+', 'x', 3)]), who(B, date=T0 + DAY, ops=[('+', 'y', 2)]), who(A, date=T0 + 2 * DAY, ops=[('+', 'x', 1)], parents=[0]),
            who(B, date=T0 + 3 * DAY, ops=[('take', 1)], parents=[2, 1]), who(C, date=T0 + 5 * DAY, ops=[('mv', 'y', 'd/z')])]


LAYOUTS = ['{h}\n', '# comment\n\n{h}\n', '{h}', '{h} # why\n', '{H}\n', '{h}\r\n', '  {h}\t\n', 'deadbeefdeadbeefdeadbeefdeadbeefdeadbeef\n{h}\n', '#{x}\n{h}\n', '{s}\n{h}\n', '{h}#why\n', '{h} \\\n{h}\\\n#{h}\n{h}\n', '\n' + 'c0ffee' * 6 + 'dead\n' * 3 + '{h}\n', '# ' + 'why ' * 17000 + '\n{h}\n', '{h} #' + 'why ' * 17000 + '\n']
MORE = [dict(csv=True, limit=0, mode='l', revs=['HEAD~1']), dict(csv=True, limit=0, mode='l', paths=['x']), dict(csv=True, limit=0, mode='f', authors=['b@x']), dict(csv=True, limit=0, mode='l', nauthors=['Alice'], email=True),
        dict(csv=True, limit=0, mode='l', since='@%d' % (T0 + DAY)), dict(csv=True, limit=0, mode='c'), dict(sub='tree', paths=['y', 'd'], show_all=True), dict(sub='hist', until='@%d' % (T0 + 3 * DAY)), dict(csv=True, limit=0, revs=['HEAD~2..'])]


def render(layout, subset):
    out = ''
    for i in subset:
        out += layout.replace('{h}', '{%d}' % i).replace('{H}', '\0%d\0' % i).replace('{x}', '{%d}' % ((i + 1) % 5)).replace('{s}', '{%d:12}' % ((i + 2) % 5))
        if layout == '{h}':
            out += '\n'
    return out[:-1] if layout == '{h}' else out


def specs(layouts, subsets, walks, cmds, **kw):
    for lay in layouts:
        for sub in subsets:
            text = render(lay, sub)
            yield dict(commits=history(), now=NOW, cmds=[dict(opt=o, ignore=list(sub)) for o in cmds], walks=walks, hash_files={'.git-blame-ignore-revs': text}, **kw)


def run(ck):
    ck.cov['rule'] = 'every subset of the commits of a history with a merge and a rename is listed, in several layouts of the file x subcommands; byte for byte'
    subs = [s for k in range(0, 6) for s in itertools.combinations(range(5), k)]
    lays = [l for l in LAYOUTS if l != '{H}\n']
    e2e.explore(ck, specs(lays[:2], subs, ['seq', 'par'], CMDS), what='all subsets')
    e2e.explore(ck, specs(lays[2:] + ['{H}\n'], [s for s in subs if len(s) in (1, 3)] if ck.quick else subs, ['seq', 'par'], CMDS[1:6:2] if ck.quick else CMDS), what='layouts')
    some = [s for s in subs if len(s) in (1, 4)] if ck.quick else subs
    e2e.explore(ck, specs(lays[:1] + lays[3:4] + ['{H}\n'], some, ['seq', 'par', 'warm'], CMDS[1:6:2], sha256=True), what='SHA-256')
    e2e.explore(ck, specs(lays[:1], some, ['seq', 'par', 'warm'], MORE), what='with filters')
    e2e.explore(ck, warm(subs), what='cached commits')
    e2e.explore(ck, absent(), what='file elsewhere')
    e2e.explore(ck, unreadable(), what='a list that cannot be read')


def warm(subs):
    """All commits are cached by commands that run without the list; then the list appears."""
    for sub in subs:
        cmds = []
        for o in (CMDS[1], CMDS[4], CMDS[8]):
            cmds.append(dict(opt=o, ignore=list(sub), walks=['warm']))
        yield dict(commits=history(), now=NOW, cmds=cmds, walks=['warm'], hash_files={'.git-blame-ignore-revs': render('{h}\n', sub)}, prime=dict(opt=dict(csv=True, mode='l', limit=0)))


def absent():
    """A list that is not at the root of the working tree has no effect; one at the root does, from any directory."""
    for cwd in ('', 'd'):
        for f, eff in (('d/.git-blame-ignore-revs', False), ('.git-blame-ignore-revs', True), ('.git/.git-blame-ignore-revs', False)):
            o = [dict(csv=True, limit=0, cwd=cwd), dict(csv=True, limit=0, mode='l', cwd=cwd), dict(sub='tree', cwd=cwd), dict(sub='hist', cwd=cwd, mode='f')]
            yield dict(commits=history(), now=NOW, cmds=[dict(opt=x, ignore=[0, 4] if eff else []) for x in o], walks=['seq', 'par', 'warm'], hash_files={f: '{0}\n{4}\n'})


def unreadable():
    """What a list that cannot be read would exclude is unknown: no answer can be given."""
    some = [dict(csv=True, limit=0, mode=m) for m in 'cmfl'] + [dict(sub=s, mode=m) for s in ('tree', 'hist') for m in 'clf'] + [dict(sub='tree', mode='l', show_all=True)]
    yield dict(commits=history(), now=NOW, cmds=[dict(opt=dict(o, **x), fail=True) for o in some for x in ({}, dict(revs=['HEAD~1']), dict(paths=['x']))], walks=['seq', 'par', 'warm'], hash_files={'.git-blame-ignore-revs/': ''})
