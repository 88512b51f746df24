"""C22: every repository state x every combination of options answers or fails cleanly."""
import itertools, os, re, shutil, subprocess, multiprocessing, traceback
import build, e2e
from gen import *

T0 = NOW - 30 * DAY
F = NOW + 5 * DAY
G = dict(name='', email='')
STATES = {
    'one empty commit': [who(A, date=T0, ops=[])],
    'only empty commits': [who(A, date=T0, ops=[]), who(B, date=T0 + 40, ops=[])],
    'one file': [who(A, date=T0, ops=[('+', 'd/x', 1)])],
    'empty file': [who(A, date=T0, ops=[('empty', 'x')])],
    'everything deleted': [who(A, date=T0, ops=[('+', 'd/x', 1), ('+', 'y', 2)]), who(B, date=T0 + DAY, ops=[('del', 'd/x'), ('del', 'y')])],
    'merge at the tip': [who(A, date=T0, ops=[('+', 'x', 1)]), who(B, date=T0, ops=[('+', 'y', 1)], parents=[0]), who(A, date=T0, ops=[], parents=[0]), who(A, date=T0 + 2 * DAY, ops=[('take', 1)], parents=[2, 1])],
    'unrelated roots merged': [who(A, date=T0, ops=[]), who(B, date=T0, ops=[], parents=[]), who(A, date=T0, ops=[], parents=[0, 1])],
    'only future commits': [who(A, date=F, ops=[('+', 'd/x', 1)])],
    'future commit among others': [who(A, date=T0, ops=[('+', 'd/x', 1)]), who(B, date=F, ops=[('+', 'd/y', 1)]), who(B, date=T0, ops=[('mv', 'd/x', 'z')])],
    'only nameless commits': [dict(G, date=T0, ops=[('+', 'd/x', 1)])],
    'nameless commit among others': [who(A, date=T0, ops=[('+', 'd/x', 1)]), dict(G, date=T0 + 9, ops=[('+', 'd/x', 1)]), who(A, date=T0 + 10, ops=[('+', 'w', 1)])],
    'epoch and 2030s': [who(A, date=0, ops=[('+', 'd/x', 1)]), who(B, date=1, ops=[('del', 'd/x')]), who(B, date=NOW - 1, ops=[('+', 'd/q', 1)])],
    'binary and links': [who(A, date=T0, ops=[('bin', 'b'), ('link', 'l'), ('noeol', 'n')]), who(B, date=T0 + DAY, ops=[('sub', 'sm'), ('bin', 'b')]), who(A, date=T0 + DAY, ops=[('del', 'b'), ('chmod', 'n')])],
    'file became directory': [who(A, date=T0, ops=[('+', 'p', 1)]), who(B, date=T0 + DAY, ops=[('del', 'p'), ('+', 'p/q', 1)]), who(A, date=T0 + 2 * DAY, ops=[('del', 'p/q'), ('+', 'p', 2)])],
    'odd names': [who(A, date=T0, ops=[('+', 'a\nb/c\td', 1), ('+', '"q"', 1), ('+', ' lead', 1), ('+', 'trail ', 1), ('+', '\x7f', 1), ('+', '.git-who', 1), ('+', '漢/é', 1), ('+', '{a,b}', 1), ('+', '[x', 1), ('+', '%s', 1)])],
    'path like a hash': [who(A, date=T0, ops=[('+', 'f' * 40, 3), ('+', 'x', 4)]), who(B, date=T0 + 5, ops=[('mv', 'f' * 40, 'e' * 40)]), who(B, date=T0 + 6, ops=[('mv', 'x', 'c' * 40)])],
}
STATES['many commits on a few days'] = ([who((A, B)[i % 4 == 0], date=T0 + i, ops=[('+', 'd/x%d' % (i % 50), 7 + i % 3)]) for i in range(81)] + [who(A, date=T0 + 2 * DAY, ops=[('+', 'd/y', 1)])] +
                                        [who((B, C)[i % 2], date=T0 + 4 * DAY + i, ops=[('+', 'd/z%d' % i, 5)]) for i in range(7)])
IGNORED = {'everything ignored': ('one file', [0]), 'last ignored': ('everything deleted', [1]), 'merge ignored': ('merge at the tip', [3])}
DIRS = ['r', 'p[1', 'a b', 'glob*', 'q?', '-dash', 'ünï', 'b\\s', "quo'te", '{x}', '$HOME', 'trail ']


def options(full):
    o = []
    axes = dict(email=[False, True], merges=[False, True])
    for ax in product_opts(**axes):
        for m in ('', 'l', 'f', 'm', 'c'):
            for x in ([dict(), dict(csv=True), dict(limit=0), dict(limit=1, csv=True)] if full else [dict(csv=True), dict(limit=1)]):
                o.append(dict(mode=m, **ax, **x))
            for x in ([dict(), dict(show_all=True), dict(depth=1), dict(depth=2, show_all=True), dict(depth=-1)] if full else [dict(show_all=True)]):
                o.append(dict(sub='tree', mode=m, **ax, **x))
        for m in ('', 'l', 'f'):
            o.append(dict(sub='hist', mode=m, **ax))
    # filters that match nothing, or paths that are not there
    for f in (dict(authors=['nobody']), dict(nauthors=['.']), dict(since='@%d' % (NOW + 999999)), dict(until='@1'), dict(paths=['nosuch'], dashdash=True), dict(revs=['HEAD', '^HEAD']), dict(paths=[':!*'])):
        for b in (dict(csv=True), dict(), dict(mode='l'), dict(mode='f', email=True), dict(sub='tree'), dict(sub='tree', mode='l', show_all=True), dict(sub='hist'), dict(sub='hist', mode='l'), dict(sub='hist', mode='f', merges=True)):
            o.append(dict(b, **f))
    return o


def exact(full, states):
    for name in states:
        cs, ig = STATES.get(name), []
        if cs is None:
            base, ig = IGNORED[name]
            cs = STATES[base]
        opts = [o for o in options(full) if not (o.get('depth') == -1)]
        for k in range(0, len(opts), 40):
            s = dict(commits=cs, now=NOW, cmds=[dict(opt=o) for o in opts[k:k + 40]], walks=['seq', 'par', 'warm'])
            if ig:
                s.update(ignore=ig, hash_files={'.git-blame-ignore-revs': ''.join('{%d}\n' % i for i in ig)})
            if name == 'everything deleted' or 'only' in name:
                s['walks'] = ['seq', 'cold', 'warm']
            yield s


def dirs(full):
    """Repository directories with odd names."""
    cs = STATES['everything deleted'] + [who(A, date=T0 + 2 * DAY, ops=[('+', 'sub dir/[x]/f', 2), ('+', ' lead /x/f', 3), ('+', 'd/y', 1)])]
    o = [dict(csv=True, mode='l', limit=0), dict(sub='tree', show_all=True, mode='f'), dict(sub='tree', cwd='sub dir/[x]'), dict(mode='f', cwd='d', paths=['.']), dict(csv=True, mode='l', cwd='sub dir/[x]', paths=['f']), dict(mode='l', csv=True, cwd=' lead /x', paths=['f']), dict(sub='tree', cwd=' lead /x', paths=['f'], mode='l'), dict(sub='hist', mode='l', cwd='d')]
    for d in DIRS:
        yield dict(commits=cs, now=NOW, dirname=d, cmds=[dict(opt=x) for x in o], walks=['seq', 'cold', 'warm'])


def terminal(n):
    """On a terminal, progress is shown while several batches are under way; what is left in the end is the same output."""
    o = [dict(mode='l'), dict(csv=True, mode='f'), dict(sub='tree', show_all=True), dict(sub='hist', mode='l'), dict(mode='l', paths=['a']), dict(mode='l', authors=['nobody']), dict(sub='tree', authors=['nobody']), dict()]
    for k in n:
        cs = [who((A, B)[i % 3 == 1], date=T0 + i * DAY, ops=[('+', 'ab'[i % 2], i + 1)]) for i in range(k)]
        yield dict(commits=cs, now=NOW, cmds=[dict(opt=x) for x in o], walks=['tty'])


BAD = [['-l', '-f'], ['-l', '-c'], ['-m', '-c'], ['-f', '-m'], ['-l', '-f', '-m', '-c'], ['-n', '-1'], ['-n', 'x'], ['--nope'], ['-n'], ['--since'],
       ['tree', '-l', '-f'], ['tree', '-m', '-c'], ['tree', '-d', 'x'], ['tree', '-n', '3'], ['tree', '--csv'], ['hist', '-l', '-f'], ['hist', '-m'], ['hist', '-c'], ['hist', '-a'], ['nosuchsub'], ['tree', 'nosuch'], ['hist', 'nosuch..HEAD'],
       ['--', ':(icase)x'], ['--author', '[', '-l'], ['--nauthor', '(', '-l'], ['--author', '['], ['hist', '--nauthor', '('], ['tree', '--author', '[']]
GOOD = [['-h'], ['--help'], ['--version'], ['-version'], ['table', '-h'], ['tree', '-h'], ['hist', '--help']]


def raw_job(job):
    """States the model does not describe: only the exit status, stderr and the absence of a crash count."""
    i, spec = job
    wd = os.path.join(build.scratch(), 'w%d' % os.getpid())
    try:
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd + '/home')
        from model import base_env
        env = base_env(wd + '/home', NOW, XDG_CACHE_HOME=wd + '/c')
        sh = spec['setup']
        r = subprocess.run(['sh', '-ec', sh], cwd=wd, env=dict(env, GIT_AUTHOR_DATE='@%d +0000' % T0, GIT_COMMITTER_DATE='@%d +0000' % T0, GIT_AUTHOR_NAME='A', GIT_AUTHOR_EMAIL='a@x', GIT_COMMITTER_NAME='C', GIT_COMMITTER_EMAIL='c@x'), capture_output=True, text=True)
        if r.returncode:
            return i, {'error': 'setup failed: %s %s' % (sh, r.stderr)}
        res = dict(runs=0, bad=[], kinds=set())
        for argv in spec['argv']:
            for w in spec['walks']:
                e = dict(env)
                e.update(e2e.WALKS[w])
                e.update({k: v.replace('$W', wd) for k, v in spec.get('env', {}).items()})
                rc, out, err = e2e.run_cmd(e2e._bins['small'], argv, os.path.join(wd, spec['cwd']), e)
                res['runs'] += 1
                res['kinds'].add((rc, bool(out), bool(err)))
                m = None
                if rc not in (0, 1, 2) or 'panic:' in err or 'goroutine ' in err:
                    m = 'exit %s, stderr %s' % (rc, err[:1500])
                elif rc != 0 and not err.strip():
                    m = 'failed with exit status %s without an error message' % rc
                elif spec['want'] == 'fail' and rc == 0:
                    m = 'succeeded with output %r' % out[:300]
                elif spec['want'] == 'ok' and rc != 0:
                    m = 'exit %s, stderr %s' % (rc, err[:1500])
                if m:
                    res['bad'].append((m, argv, w))
        return i, res
    except Exception:
        return i, {'error': traceback.format_exc()}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


ALLCMDS = [[], ['-l'], ['-f', '-e', '--csv'], ['-m'], ['-c', '--merges'], ['tree'], ['tree', '-l', '-a'], ['tree', '-f', '-d', '1'], ['hist'], ['hist', '-l'], ['hist', '-f', '-e'], ['hist', '--merges', '--since', 'yesterday'], ['-n', '0', '--', 'x'], ['tree', '--', 'x'], ['hist', '-l', '--', 'x'],
           ['parse'], ['dump'], ['parse', '-s'], ['dump', '-s'], ['-v', '-l']]
ONE = 'mkdir r; cd r; git init -q; mkdir d; echo 1 >x; echo 2 >d/y; git add .; git commit -qm 1; echo 3 >>x; git commit -qam 2; '


def raw():
    W = ['seq', 'par', 'warm']
    yield dict(setup='mkdir r; git init -q r', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup='mkdir r', cwd='r', argv=[a for a in ALLCMDS], walks=W, want='fail')
    yield dict(setup='git init -q --bare r', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'git clone -q --bare . ../b', cwd='b', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE, cwd='r/.git', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE, cwd='r/d', argv=ALLCMDS, walks=W, want='ok')
    for sh in ('mkdir -p new/er; ', 'mkdir -p new/er; echo > new/er/file; ', 'mkdir -p new/er; echo new > .git/info/exclude; echo > new/er/file; ', 'mkdir -p new/er; echo > new/er/file; git add -N new; '):
        for cwd in ('r/new', 'r/new/er'):
            yield dict(setup=ONE + sh, cwd=cwd, argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'git rm -q -r d; mkdir -p d; ', cwd='r/d', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'git checkout -q --detach HEAD~1', cwd='r', argv=ALLCMDS, walks=W, want='ok')
    yield dict(setup=ONE + 'git worktree add -q ../wt HEAD~1', cwd='wt', argv=ALLCMDS, walks=W, want='ok')
    yield dict(setup=ONE + 'cd ..; git clone -q --depth 1 file://$PWD/r s', cwd='s', argv=ALLCMDS, walks=W, want='ok')
    yield dict(setup=ONE + 'rm -r x d', cwd='r', argv=ALLCMDS, walks=W, want='ok')
    yield dict(setup=ONE + 'rm .git/index', cwd='r', argv=ALLCMDS, walks=W, want='ok')
    yield dict(setup=ONE + 'git tag -a -m t v1; git notes add -m n; git gc -q; git pack-refs --all', cwd='r', argv=ALLCMDS + [['v1'], ['tree', 'v1'], ['hist', 'v1^{commit}']], walks=W, want='ok')
    yield dict(setup=ONE + 'git checkout -q --orphan new', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'echo notahash > .git-blame-ignore-revs; mkdir .mailmap', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'mkdir .git-blame-ignore-revs', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'printf "garbage <<< >\\n\\xff" > .mailmap; head -c 200000 /dev/zero | tr "\\0" a > .git-blame-ignore-revs', cwd='r', argv=ALLCMDS, walks=W, want='any')
    yield dict(setup=ONE + 'git config mailmap.file nosuch; git config log.showSignature true; git config log.date iso; git config color.ui always; git config diff.renames copies; git config log.mailmap false; git config core.quotePath true; git config log.decorate full; git config format.pretty oneline', cwd='r', argv=ALLCMDS, walks=W, want='ok')
    # places for the cache that cannot be used
    for env in ({'XDG_CACHE_HOME': '$W/file'}, {'XDG_CACHE_HOME': '/dev/null'}, {'XDG_CACHE_HOME': 'relative'}, {'XDG_CACHE_HOME': '', 'HOME': '$W/file'}, {'XDG_CACHE_HOME': '', 'HOME': ''}):
        yield dict(setup=ONE + 'echo x > ../file', cwd='r', argv=ALLCMDS, walks=['par', 'warm'], want='any', env=env)
    yield dict(setup=ONE, cwd='r', argv=BAD, walks=['seq', 'par'], want='fail')
    yield dict(setup=ONE, cwd='r', argv=GOOD, walks=['seq', 'par'], want='ok')


def explore_raw(ck, specs):
    jobs = list(enumerate(specs))
    with build.Pool() as pool:
        for i, r in pool.imap_unordered(raw_job, jobs):
            if 'error' in r:
                raise build.HarnessError(r['error'])
            ck.add('states')
            ck.add('transitions', r['runs'])
            ck.add('raw_state_runs', r['runs'])
            for k in r['kinds']:
                ck.distinct('distinct_outcomes', k)
            if r['bad'] and any(raw_job(jobs[i])[1].get('bad') for _ in range(2)):
                m, argv, w = r['bad'][0]
                ck.violation('git who %s [%s] after: %s\n%s' % (' '.join(map(repr, argv)), w, jobs[i][1]['setup'], m), dict(engine='c22', spec=jobs[i][1], argv=argv))
            elif not r['bad']:
                ck.add('traces_validated_against_impl')


def run(ck):
    e2e.prepare()
    build.scratch()
    ck.cov['rule'] = 'every repository state of a list x every combination of options (exact output where the model defines it, otherwise exit status and absence of a crash)'
    explore_raw(ck, raw())
    names = list(STATES) + list(IGNORED)
    e2e.explore(ck, exact(not ck.quick, names), what='states x options')
    e2e.explore(ck, terminal([1, 4, 5, 6, 7, 12] if ck.quick else range(1, 30)), what='on a terminal')
    e2e.explore(ck, dirs(not ck.quick), what='directory names')


def replay(r):
    if r.get('engine') == 'e2e':
        return e2e.replay(r)
    e2e.prepare()
    _, res = raw_job((0, r['spec']))
    print(res.get('bad') or res.get('error'))
    return 1 if res.get('bad') else 0
