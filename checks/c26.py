"""C26: commits read once are not asked of Git again.  Explicit-state exploration of what a cache can hold: states are the sets of commits known
to the cache, transitions are real runs of the real program (complete, failing, or after damage), with a git in front that notes what it is asked."""
import gzip, os, re, shutil, tempfile, traceback
import build, e2e, model
from model import Opt
from gen import *

T0 = NOW - 30 * DAY
SHIM = '''#!/bin/sh
for a; do case "$a" in
--stdin) cat > "$GWV_ASKED/$$"; [ -n "$GWV_FAIL" ] && exit 1; exec /usr/bin/git "$@" < "$GWV_ASKED/$$";;
esac; done
exec /usr/bin/git "$@"
'''
L = dict(csv=True, limit=0, mode='l')
CMDS = [dict(L), dict(L, revs=['HEAD~2']), dict(L, revs=['side']), dict(L, revs=['HEAD', 'side'], mode='f'), dict(L, paths=['x']), dict(L, paths=['d']), dict(L, paths=[':(exclude)x'], email=True),
        dict(sub='tree', mode='l'), dict(sub='tree', paths=['d']), dict(sub='hist', mode='f', merges=True), dict(L, merges=True), dict(L, authors=['Bob']), dict(L, nauthors=['Bob']),
        dict(L, since='@%d' % (T0 + 2 * DAY - 1)), dict(L, until='@%d' % (T0 + 3 * DAY - 1)), dict(L, cwd='d'), dict(sub='tree', cwd='d', show_all=True), dict(sub='hist', mode='l', revs=['HEAD~1'])]
FEW = [CMDS[i] for i in (0, 2, 3, 5, 7, 9, 13)]


def history():
    return [who(A, date=T0, ops=[('+', 'x', 3), ('bin', 'd/b')]), who(B, date=T0 + DAY, ops=[('+', 'd/y', 2)]), who(A, date=T0 + 2 * DAY, ops=[('mv', 'x', 'd/z é')]),
            who(C, date=T0 + 3 * DAY, ops=[('+', 'x', 1)], parents=[0], ref='refs/heads/side'), who(B, date=T0 + 4 * DAY, ops=[('take', 1)], parents=[2, 3], ref='refs/heads/main'),
            who(C, date=T0 + 5 * DAY, ops=[]), who(A, date=T0 + 6 * DAY, ops=[('del', 'd/b')]), who(B, date=T0 + 7 * DAY, ops=[('+', 'u', 2)], parents=[3], ref='refs/heads/side')]


def worlds(quick):
    h = history()
    yield dict(name='a history with everything', spec=dict(commits=h, now=NOW), cmds=CMDS, damage=True)
    yield dict(name='a mailmap', spec=dict(commits=h, now=NOW, files={'.mailmap': 'Robert <r@x> Bob <b@x>\n'}), cmds=FEW, damage=True)
    yield dict(name='attributes', spec=dict(commits=h, now=NOW, files={'.gitattributes': 'x binary\n'}), cmds=FEW, damage=False)
    yield dict(name='ignored revisions', spec=dict(commits=h, now=NOW, hash_files={'.git-blame-ignore-revs': '{1}\n{3}\n'}), cmds=FEW, damage=False)
    yield dict(name='SHA-256', spec=dict(commits=h, now=NOW, sha256=True), cmds=FEW, damage=False)
    yield dict(name='a replaced commit', spec=dict(commits=h, now=NOW), git=[['replace', '{1}', '{0}']], cmds=FEW, damage=False)
    yield dict(name='a shallow clone', spec=dict(commits=h, now=NOW), shallow='{2}', cmds=FEW, damage=False)
    yield dict(name='two processors', spec=dict(commits=h, now=NOW), cmds=CMDS if not quick else FEW, damage=True, env=dict(GOMAXPROCS='2'))
    yield dict(name='nine processors', spec=dict(commits=h, now=NOW), cmds=CMDS if not quick else FEW, damage=True, env=dict(GOMAXPROCS='9'))
    yield dict(name='config that formats output', spec=dict(commits=h, now=NOW, gconfig='[log]\n\tshowSignature = true\n\tdate = iso\n[diff]\n\trenames = copies\n[core]\n\tquotePath = false\n[color]\n\tui = always\n'), cmds=FEW, damage=False)
    many = [who((A, B, C)[i % 3], date=T0 + i * 600, ops=[('+', 'd/f%d' % (i % 7), 1)]) for i in range(2600)]
    yield dict(name='2600 commits', spec=dict(commits=many, now=NOW), cmds=[dict(L), dict(L, revs=['HEAD~1000']), dict(L, revs=['HEAD~1024']), dict(sub='hist', mode='f', revs=['HEAD~1025..']), dict(sub='tree', paths=['d/f1'])],
               damage=not quick, bin='real')


DAMAGE = ['half', 'empty', 'garbage', 'removed']


def damage(d, how):
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            n = os.path.getsize(p)
            if how == 'removed':
                os.unlink(p)
                continue
            with open(p, 'r+b') as o:
                if how == 'half':
                    o.truncate(n // 2)
                elif how == 'empty':
                    o.truncate(0)
                else:
                    o.seek(n // 3)
                    o.write(b'garbage garbage')


def holds(d):
    """What can be told of a cache from outside: its files, and the commits named in them."""
    out = []
    for r, ds, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            with open(os.path.join(r, f), 'rb') as i:
                b = i.read()
            try:
                b = gzip.decompress(b)
            except (OSError, EOFError, ValueError):
                pass
            out.append((os.path.relpath(os.path.join(r, f), d), frozenset(re.findall(rb'(?<![0-9a-f])[0-9a-f]{40}(?:[0-9a-f]{24})?(?![0-9a-f])', b))))
    return tuple(out)


class World:
    def __init__(self, w, d):
        self.w, self.d = w, d
        shutil.rmtree(d, ignore_errors=True)
        self.live = live = e2e.Live(w['spec'], d)
        sub = lambda s: re.sub(r'\{(\d+)\}', lambda m: live.h.commits[int(m[1])].hash, s)
        for a in w.get('git', ()):
            live.repo.git(*[sub(x) for x in a])
        if 'shallow' in w:
            with open(os.path.join(live.repo.path, '.git/shallow'), 'w') as f:
                f.write(sub(w['shallow']) + '\n')
        self.path = live.repo.path
        self.bin = e2e._bins[w.get('bin', 'small')]
        self.shim = os.path.join(d, 'shim')
        os.makedirs(self.shim)
        with open(os.path.join(self.shim, 'git'), 'w') as f:
            f.write(SHIM)
        os.chmod(os.path.join(self.shim, 'git'), 0o755)
        self.need = {}

    def needed(self, k):
        """The commits a command reads, by Git."""
        if k not in self.need:
            o = Opt(**self.w['cmds'][k])
            a = ['rev-list']
            for n, v in (('since', o.since), ('until', o.until)):
                if v:
                    a.append('--%s=%s' % (n, v))
            a += ['--author=' + x for x in o.authors]
            out = self.live.repo.git(*a, *(o.revs or ['HEAD']), '--', *o.paths, cwd=os.path.join(self.path, o.cwd)).decode().split()
            if o.nauthors:
                bad = self.live.repo.git('rev-list', *['--author=' + x for x in o.nauthors], *(o.revs or ['HEAD'])).decode().split()
                out = [h for h in out if h not in bad]
            self.need[k] = frozenset(out)
        return self.need[k]

    def step(self, cache, act):
        """Perform one action on a copy of a cache.  -> (exit code, commits asked for, stderr)"""
        kind, k = act
        if kind == 'damage':
            damage(cache, DAMAGE[k])
            return 0, [], ''
        o = Opt(**self.w['cmds'][k])
        asked = tempfile.mkdtemp(prefix=os.path.basename(cache) + '-asked', dir=os.path.dirname(cache))
        e = self.live.env('warm')
        e.update(self.w.get('env', {}), XDG_CACHE_HOME=cache, GWV_ASKED=asked, PATH=self.shim + ':' + e['PATH'])
        if kind == 'fail':
            e['GWV_FAIL'] = '1'
        r = e2e.run_cmd(self.bin, o.argv(), os.path.join(self.path, o.cwd), e)
        got = []
        for f in sorted(os.listdir(asked)):
            with open(os.path.join(asked, f)) as i:
                got += [x for x in i.read().split() if re.fullmatch('[0-9a-f]{40,64}', x)]
        shutil.rmtree(asked, ignore_errors=True)             # (a Git that outlives a failed run may still write to it)
        return r[0], got, r[2] if len(r) > 2 else ''

    def name(self, act):
        kind, k = act
        return 'cache %s' % DAMAGE[k] if kind == 'damage' else ' '.join(['git who'] + Opt(**self.w['cmds'][k]).argv()) + (' (git log fails)' if kind == 'fail' else '')

    def judge(self, known, act, res):
        """-> (what is wrong, the commits known afterwards)"""
        rc, asked, err = res
        kind, k = act
        if kind == 'damage':
            return None, frozenset()
        again = sorted(known & set(asked))
        twice = sorted(h for h in set(asked) if asked.count(h) > 1) if len(asked) != len(set(asked)) else []
        if again:
            return '%s asks git again for %d commits read before, such as %s' % (self.name(act), len(again), again[0][:12]), None
        if twice:
            return '%s asks git twice for %d commits, such as %s' % (self.name(act), len(twice), twice[0][:12]), None
        if kind == 'fail':
            return None, known    # whatever a failed run leaves, it loses nothing
        if rc != 0:
            return None, known
        return None, known | set(asked) | self.needed(k)


CUR = None


def _job(j):
    src, known, act, dst = j
    try:
        if os.path.isdir(src):
            shutil.copytree(src, dst, symlinks=True)
        else:
            os.makedirs(dst)
        res = CUR.step(dst, act)
        bad, after = CUR.judge(known, act, res)
        return act, bad, after, res[0], len(res[1]), () if act[0] == 'damage' else holds(dst)
    except Exception:
        return act, 'error ' + traceback.format_exc(), None, 0, 0, ()


def explore(ck, i, w, limit, quick):
    global CUR
    d = os.path.join(build.scratch(), 'c26-%d' % i)
    CUR = W = World(w, os.path.join(d, 'w'))
    for k in range(len(w['cmds'])):
        W.needed(k)
    acts = [('run', k) for k in range(len(w['cmds']))] + [('fail', k) for k in range(len(w['cmds'])) if w['damage'] and k < 3]
    if w['damage']:
        acts += [('damage', k) for k in range(len(DAMAGE))]
    start = frozenset()
    seen = {(start, (), False): (os.path.join(d, 'none'), [])}
    front = [(start, (), False)]
    n = 0
    asked = 0
    with build.Pool() as pool:
        while front:
            jobs = []
            for s in front:
                for a in acts:
                    if a[0] == 'damage' and (not s[0] or s[2]):
                        continue
                    n += 1
                    jobs.append((s, (seen[s][0], s[0], a, os.path.join(d, 's%d' % n))))
            nxt = []
            for (s, j), (act, bad, after, rc, na, there) in zip(jobs, pool.imap(_job, [j for s, j in jobs])):
                ck.add('transitions')
                ck.add('executions')
                ck.add('evaluations')
                ck.add('traces_validated_against_impl')
                asked += na
                if rc and act[0] == 'run':
                    ck.add('failed_runs')
                if bad and bad.startswith('error '):
                    raise build.HarnessError(bad)
                if bad:
                    trace = seen[s][1] + [act]
                    if any(again(w, os.path.join(d, 'again'), trace) for _ in range(3)):
                        ck.violation('%s: after %s, %s' % (w['name'], '; '.join(W.name(a) for a in seen[s][1]) or 'nothing', bad), dict(world=w, trace=trace))
                    else:
                        ck.add('not_reproduced')
                key = None if bad else (after, there, act[0] == 'damage' and (act[1], frozenset() if quick else s[0]))
                if key is None or key in seen or ck.out_of_time() or len(seen) >= limit:
                    if key is not None and key not in seen:
                        ck.incomplete('%s: %s' % (w['name'], 'time' if ck.out_of_time() else '%d states' % limit))
                    shutil.rmtree(j[3], ignore_errors=True)
                    continue
                seen[key] = (j[3], seen[s][1] + [act])
                nxt.append(key)
            front = nxt
            if len(ck.violations) >= 4:
                break
    ck.add('states', len(seen))
    ck.add('distinct_nontrivial', len(seen))
    ck.sample('%s: %d states, %d transitions, deepest: %s' % (w['name'], len(seen), n, '; '.join(W.name(a) for a in max((t for _, t in seen.values()), key=len))), 12)
    shutil.rmtree(d, ignore_errors=True)


def again(w, d, trace):
    """The whole history of runs once more, from nothing."""
    W = World(w, d)
    cache = os.path.join(d, 'cache')
    os.makedirs(cache)
    known = frozenset()
    for a in trace:
        bad, known = W.judge(known, tuple(a), W.step(cache, tuple(a)))
        if bad:
            return bad


def run(ck):
    ck.cov['rule'] = ('explicit-state exploration to the fixpoint: states are what the cache can hold (the set of commits read so far), transitions are all runs of a set of commands, '
                      'failing runs and damage to the cache, on the real program with a git in front that notes the commits it is asked for')
    ck.assumptions.append('a cache that was damaged may be discarded as a whole; the runs after it are held to the property again')
    e2e.prepare()
    for i, w in enumerate(worlds(ck.quick)):
        if ck.out_of_time():
            ck.incomplete(w['name'])
            continue
        explore(ck, i, w, 60 if ck.quick else 4000, ck.quick)


def replay(r):
    e2e.prepare()
    bad = again(r['world'], os.path.join(build.scratch(), 'replay'), r['trace'])
    print(bad or 'not reproduced')
    return 1 if bad else 0
