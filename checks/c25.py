"""C25: nothing is ever written outside the cache directory."""
import hashlib, multiprocessing, os, re, shutil, subprocess, sys, traceback
import build, e2e, model, sched
from sched import PROC_FAULTS, SCHED_POINTS, FS_FAULTS
from gen import *
from c01 import linear, branched, LINES, TREE, HISTL

COMMANDS = [[], ['-l', '--csv'], ['-f', '-n', '0'], ['-m', '--merges'], ['-c'], ['-l', 'HEAD~1'], ['-l', '--', 'd'], ['-l', '--', ':(icase)x'], ['-l', '-e', '--author', 'a'], ['tree'], ['tree', '-l', '-a'],
            ['tree', 'd'], ['hist'], ['hist', '-l'], ['hist', '-f', '--nauthor', 'b'], ['dump'], ['parse'], ['dump', '--short'], ['parse', 'HEAD~1'], ['-l', 'nosuch'], ['tree', '--', 'nosuch'],
            ['--bad'], ['--version'], ['-h'], ['tree', '-h'], ['-v', '-l'], ['-v', 'tree', '-l'], ['hist', '-l', '-f'], ['-l', '-n', '-1']]
HASH = 'git-who'


class World:
    """Two repositories of the same name, a linked worktree, a bare repository, other files, and a cache."""

    def __init__(self, d):
        self.d = d
        shutil.rmtree(d, ignore_errors=True)
        self.home = os.path.join(d, 'home')
        os.makedirs(self.home)
        self.repo = {}
        for n, cs in (('a', branched()), ('b', linear(3))):
            h = e2e.make_history(dict(commits=cs))
            self.repo[n] = h.build(os.path.join(d, n, 'proj'), home=self.home).path
        env = model.base_env(self.home)
        git = lambda *a: subprocess.run(['git'] + list(a), env=env, check=True, capture_output=True)
        self.repo['wt'] = os.path.join(d, 'wt', 'proj')
        git('-C', self.repo['a'], 'worktree', 'add', '-q', '--detach', self.repo['wt'], 'HEAD~1')
        self.repo['bare'] = os.path.join(d, 'bare', 'proj')
        git('clone', '-q', '--bare', self.repo['b'], self.repo['bare'])
        for f, s in (('a/proj/untracked', 'u\n'), ('a/proj/.mailmap', 'Zoe <a@x>\n'), ('a/proj/.git-blame-ignore-revs', '# none\n'), ('outside/file.gobs', 'x'), ('outside/dir/file', 'y'), ('home/.gitconfig', '[core]\n\tpager = cat\n'), ('a/file', 'z')):
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as o:
                o.write(s)
        self.repo['outside'] = os.path.join(d, 'outside')
        self.repo['sub'] = os.path.join(self.repo['a'], 'd')
        self.repo['gitdir'] = os.path.join(self.repo['a'], '.git')
        with open(os.path.join(d, 'passwd'), 'w') as f:
            f.write('root:x:%d:0::%s:/bin/sh\n' % (os.getuid(), self.home))
        # a staged, a changed and a stale-looking index entry tempt git into refreshing the index
        with open(os.path.join(self.repo['a'], 'x2'), 'w') as f:
            f.write('new\n')
        git('-C', self.repo['a'], 'add', 'x2')
        os.utime(os.path.join(self.repo['a'], 'x2'), (1, 1))
        self.cachehome = {'xdg': os.path.join(d, 'xdg'), 'home': os.path.join(self.home, '.cache')}

    def root(self, where):
        return os.path.join(self.cachehome[where], HASH)

    def run(self, where, cwd, argv, disable=False, procs='4', clock=NOW + 30):
        e = model.base_env(self.home, clock)
        e.update(GWV_PASSWD=os.path.join(self.d, 'passwd'), GWV_FSLOG=os.path.join(os.path.dirname(self.d), 'fslog' + os.path.basename(self.d)), GOMAXPROCS=procs)
        if where == 'xdg':
            e['XDG_CACHE_HOME'] = self.cachehome['xdg']
        if disable:
            e['GIT_WHO_DISABLE_CACHE'] = disable
        open(e['GWV_FSLOG'], 'w').close()
        got = e2e.run_cmd(build.binary('fslog', 2) or build.binary('fslog'), argv, self.repo[cwd], e)
        with open(e['GWV_FSLOG'], errors='surrogateescape') as f:
            log = [l.split(' ', 1) for l in f.read().split('\n') if l]
        return got, [(o, p) for o, p in log if not p.startswith('/dev/') and not p.startswith('|')]

    def snapshot(self):
        s = {}
        for r, ds, fs in os.walk(self.d):
            for n in ds + fs:
                p = os.path.join(r, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    c = os.readlink(p)
                elif os.path.isdir(p):
                    c = ''
                else:
                    with open(p, 'rb') as f:
                        c = hashlib.md5(f.read()).hexdigest()
                s[p] = (st.st_mode, st.st_ino, st.st_mtime_ns, c)
        return s

    def own(self, where, cwd):
        """The directories a run in an otherwise empty cache creates below git-who's own: its own directory is the last."""
        for w in self.cachehome.values():
            shutil.rmtree(w, ignore_errors=True)
        self.run(where, cwd, ['-l'])
        r = self.root(where)
        found = []
        for d, ds, fs in os.walk(r):
            if fs:
                found.append(d)
        return found

    def save(self):
        return {w: load(p) for w, p in self.cachehome.items()}

    def restore(self, st):
        for w, p in self.cachehome.items():
            if os.path.isdir(p):
                shutil.rmtree(p)
            for rel in sorted(st.get(w) or {}):
                k, v = st[w][rel]
                f = os.path.join(p, rel)
                if k == 'd':
                    os.makedirs(f, exist_ok=True)
                elif k == 'l':
                    os.symlink(v, f)
                else:
                    with open(f, 'wb') as o:
                        o.write(v)


def load(p):
    if not os.path.isdir(p):
        return None
    r = {'': ('d', None)}
    for d, ds, fs in os.walk(p):
        for n in ds + fs:
            f = os.path.join(d, n)
            rel = os.path.relpath(f, p)
            if os.path.islink(f):
                r[rel] = ('l', os.readlink(f))
            elif os.path.isdir(f):
                r[rel] = ('d', None)
            else:
                with open(f, 'rb') as o:
                    r[rel] = ('f', o.read())
    return r


def key(st):
    return hashlib.md5(re.sub('-[0-9a-f]{1,8}(?=[/\'])', '-*', repr([(w, sorted(t.items()) if t else None) for w, t in sorted(st.items())])).encode()).hexdigest()


def begin(w, own):
    """The cache contents to start from."""
    yield 'nothing', dict(xdg=None, home=None)
    yield 'empty', dict(xdg={'': ('d', None)}, home={'': ('d', None)})
    w.restore({})
    for where in ('xdg', 'home'):
        w.run(where, 'a', ['-l', 'HEAD~1'])
    yield 'partly cached', w.save()
    for where in ('xdg', 'home'):
        for r in ('b', 'wt'):
            w.run(where, r, ['-l'])
    full = w.save()
    yield 'three repositories cached', full

    def vary(f):
        s = {x: dict(t) for x, t in full.items()}
        for x, t in s.items():
            f(x, t, os.path.relpath(own[x, 'a'], w.cachehome[x]))
            f(x, t, os.path.relpath(own[x, 'b'], w.cachehome[x]))
        return s

    def corrupt(x, t, o):
        for p in list(t):
            if p.startswith(o + '/') and t[p][0] == 'f':
                t[p] = ('f', b'garbage')
    yield 'damaged', vary(corrupt)

    def cut(x, t, o):
        for p in list(t):
            if p.startswith(o + '/') and t[p][0] == 'f':
                t[p] = ('f', t[p][1][:-9])
    yield 'cut short', vary(cut)

    def clutter(x, t, o):
        t[o + '/deadbeef.gobs'] = t[o + '/deadbeef.gobs.gz'] = t[o + '/x y'] = ('f', b'left')
        t[o + '/sub'] = ('d', None)
        t[o + '/sub/file'] = ('f', b'left')
        t[o + '/link'] = ('l', os.path.join(w.d, 'outside'))
        t[o + '/flink'] = ('l', os.path.join(w.d, 'outside', 'file.gobs'))
        t[o + '2'] = t[os.path.dirname(o) + '/other-123'] = ('d', None)
        t[o + '2/cafe.gobs'] = t[os.path.dirname(o) + '/other-123/cafe.gobs.gz'] = ('f', b'not yours')
        t['git-who/README'] = t['other program'] = ('f', b'not yours')
    yield 'cluttered', vary(clutter)
    yield 'damaged and cluttered', vary(lambda x, t, o: (corrupt(x, t, o), clutter(x, t, o)))

    def blocked(x, t, o):
        for p in list(t):
            if p.startswith(o):
                del t[p]
        t[o] = ('f', b'not a directory')
    yield 'a file instead', vary(blocked)


def judge(w, own, where, cwd, argv, disable, before, after, log, got):
    allowed = own.get((where, cwd))
    anc = set()
    if allowed:
        p = allowed
        while len(p) > len(w.d):
            p = os.path.dirname(p)
            anc.add(p)
    ok = lambda p: allowed and not disable and (p == allowed or p.startswith(allowed + '/'))
    bad = []
    for o, p in log:
        if disable:
            bad.append('with caching disabled: operation %s on %s' % (o, p))
        elif not ok(p) and not (o == 'g' and p in anc):
            bad.append('operation %s on %s' % (o, p))
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if a == b or ok(p):
            continue
        if not disable and p in anc and (a is None or (a[0], a[3]) == (b and b[0], b and b[3])):
            continue
        bad.append('%s %s' % (p, 'was created' if a is None else 'is gone' if b is None else 'was changed'))
    if got[0] == 'timeout' or 'panic:' in got[2]:
        bad.append('no proper end: %s' % got[2][-300:])
    return bad


def plan(quick):
    """(state, cache home, directory, disabled)"""
    names = ['nothing', 'empty', 'partly cached', 'three repositories cached', 'damaged', 'cut short', 'cluttered', 'damaged and cluttered', 'a file instead']
    for n in names:
        for where in ('xdg', 'home'):
            for cwd in ('a', 'b', 'wt', 'sub', 'gitdir', 'bare', 'outside'):
                if quick and where == 'home' and (cwd != 'a' or n not in ('nothing', 'damaged and cluttered')):
                    continue
                if quick and cwd in ('gitdir', 'bare', 'outside') and n not in ('nothing', 'cluttered'):
                    continue
                yield n, where, cwd, ''
            for cwd in ('a', 'outside') if quick else ('a', 'b', 'wt', 'sub', 'gitdir', 'bare', 'outside'):
                if not quick or n in ('nothing', 'damaged and cluttered'):
                    yield n, where, cwd, '1'


def work(job):
    items, quick = job
    try:
        w = World(os.path.join(build.scratch(), 'c25', 'w%d' % os.getpid()))
        own = {}
        for where in ('xdg', 'home'):
            for cwd in ('a', 'b', 'wt', 'sub'):
                o = w.own(where, cwd)
                if len(o) != 1 or not o[0].startswith(w.root(where) + '/'):
                    return dict(bad=[('after git who -l in %s of an empty world the cache holds files in %s' % (cwd, [os.path.relpath(x, w.d) for x in o]), None)], runs=0, states=[])
                own[where, cwd] = o[0]
        if len({own['xdg', c] for c in ('a', 'b', 'wt')}) != 3:
            return dict(bad=[('repositories share a cache directory: %s' % own, None)], runs=0, states=[])
        states = dict(begin(w, own))
        res = dict(bad=[], runs=0, states=[])
        for n, where, cwd, disable in items:
            for argv in COMMANDS:
                for procs in ('4',) if quick else ('4', '1'):
                    todo = [(states[n], [])]
                    for depth in range(2 if not disable and not quick else 1):
                        st, pre = todo[-1]
                        w.restore(st)
                        before = w.snapshot()
                        got, log = w.run(where, cwd, argv, disable, procs)
                        after = w.snapshot()
                        res['runs'] += 1
                        bad = judge(w, own, where, cwd, argv, disable, before, after, log, got)
                        new = w.save()
                        res['states'].append(key(new))
                        if bad:
                            res['bad'].append(('git who %s in %s, cache: %s (%s)%s\n%s' % (' '.join(argv), cwd, n, where, ', caching disabled' if disable else '', '\n'.join(x.replace(w.d, '') for x in bad[:6])),
                                               dict(item=[n, where, cwd, disable], argv=argv, procs=procs)))
                            break
                        if key(new) == key(st):
                            break
                        todo.append((new, pre))
        shutil.rmtree(w.d, ignore_errors=True)
        return res
    except Exception:
        return dict(error=traceback.format_exc())


def run(ck):
    ck.cov['rule'] = ('from every cache content (nothing, partial, several repositories, damaged, cluttered with other files and links, blocked) every command is run in repositories of the same name, a linked worktree, '
                      'a subdirectory, a bare repository, a git directory and outside any, with and without XDG_CACHE_HOME and GIT_WHO_DISABLE_CACHE; every file operation of the program is logged and '
                      'contents, times and inodes of everything in a small world are compared before and after; the same log is monitored under all faults and many schedules')
    q = ck.quick
    build.binary('fslog', 2)
    items = list(plan(q))
    jobs = [(items[i::24], q) for i in range(24)]
    with build.Pool() as pool:
        for r in pool.imap_unordered(work, jobs):
            if 'error' in r:
                raise build.HarnessError(r['error'])
            ck.add('evaluations', r['runs'])
            ck.add('transitions', r['runs'])
            ck.add('distinct_nontrivial', r['runs'])
            ck.add('traces_validated_against_impl', r['runs'])
            for s in r['states']:
                ck.distinct('states', s)
            for m, rep in r['bad']:
                ck.violation(m, dict(engine='c25', what=rep))
    ck.sample(dict(states=9, directories=7, commands=COMMANDS[:6]))
    n = len(ck.seen.pop('states', ()))
    ck.add('states', n)
    # file operations under faults
    lab = sched.Lab(ck)
    br = lab.live(dict(commits=branched(), now=NOW + 30))
    l3 = lab.live(dict(commits=linear(3), now=NOW + 30))
    P, F, S = PROC_FAULTS, FS_FAULTS, SCHED_POINTS
    K = dict(chunk=2, ncpu=2, flags=P | F | S, sched=0, fault=1 if q else 2, monitor=True, policies=(0, 3) if q else (0, 1, 2, 3, 4))
    lab.job(l3, LINES, **K)
    lab.job(l3, LINES, prime=[LINES], **K)
    lab.job(br, TREE, prime=[dict(LINES, revs=['HEAD~2'])], **K)
    lab.job(br, HISTL, prime=[dict(LINES, revs=['HEAD~2'])], **dict(K, damaged=True))
    lab.run(max(10, ck.budget - ck.elapsed()))


def replay(r):
    if r.get('engine') == 'sched':
        return sched.replay(r)
    x = r['what']
    if x is None:
        return 1
    build.binary('fslog', 2)
    global COMMANDS
    COMMANDS = [x['argv']]
    res = work(([tuple(x['item'])], False))
    for m, _ in res.get('bad', ()):
        print(m)
    return 1 if res.get('bad') else 0
