"""Bounded enumeration of histories and command lines, run on the real program and
compared byte for byte with the reference model.

A scenario is a json-able dict:
  commits: [ {name,email,date,ops,parents,...} ]   arguments of History.commit
  branch/refs/tags/files/config/gconfig/mailmap    repository set-up
  now, tz
  cmds:  [ {opt: {...Opt kwargs}, ...} ]
  walks: [ 'seq', 'par', 'cold', 'warm' ]
"""
import hashlib, json, multiprocessing, os, re, shutil, subprocess, time, traceback
import build, model
from model import History, Opt, Expect, base_env

WALKS = {
    'seq': dict(GOMAXPROCS='1', GIT_WHO_DISABLE_CACHE='1'),
    'par': dict(GOMAXPROCS='4', GIT_WHO_DISABLE_CACHE='1'),
    'par2': dict(GOMAXPROCS='2', GIT_WHO_DISABLE_CACHE='1'),
    'par3': dict(GOMAXPROCS='3', GIT_WHO_DISABLE_CACHE='1'),
    'par9': dict(GOMAXPROCS='9', GIT_WHO_DISABLE_CACHE='1'),
    'cold': dict(GOMAXPROCS='4'),       # starts from an empty cache
    'warm': dict(GOMAXPROCS='4'),       # uses whatever earlier commands of the scenario cached
    'tty': dict(GOMAXPROCS='2', GIT_WHO_DISABLE_CACHE='1'),      # on a terminal, with progress
    'seqc': dict(GOMAXPROCS='1'),
}
TIMEOUT = 60
_bins = None


def prepare(small=2):
    """Build the programs in the parent before forking workers."""
    global _bins
    _bins = {'real': build.binary('e2e')}
    _bins['small'] = (build.binary('e2e', small) if small else None) or _bins['real']
    return _bins


def make_history(spec):
    h = History()
    h.branch = spec.get('branch', 'main')
    h.sha256 = spec.get('sha256', False)
    h.config = dict(spec.get('config', {}))
    for c in spec['commits']:
        c = dict(c)
        c['ops'] = [tuple(o) for o in c.get('ops', ())]
        h.commit(**c)
    for t, i in spec.get('tags', {}).items():
        h.tags[t] = i
    for r, i in spec.get('refs', {}).items():
        h.refs[r] = i
    h.files = dict(spec.get('files', {}))
    return h


def identity_from(pairs):
    """pairs: [ [newname|null, newmail|null, oldname|null, oldmail] ] in mailmap order (later entries win per kind)."""
    if not pairs:
        return None
    simple, full = {}, {}
    for nn, nm, on, om in pairs:
        if on is None:
            e = simple.setdefault(om.lower(), [None, None])
            if nn is not None:
                e[0] = nn
            if nm is not None:
                e[1] = nm
        else:
            full[(on.lower(), om.lower())] = (nn, nm)

    def f(n, e):
        k = (n.lower(), e.lower())
        if k in full:
            nn, nm = full[k]
            return (nn if nn is not None else n, nm if nm is not None else e)
        if e.lower() in simple:
            nn, nm = simple[e.lower()]
            return (nn if nn is not None else n, nm if nm is not None else e)
        return (n, e)
    return f


def subst(live, o):
    """'{3}' and '{3:7}' in revisions stand for (the first characters of) the hash of commit 3."""
    f = lambda s: re.sub(r'\{(\d+)(?::(\d+))?\}', lambda m: live.h.commits[int(m[1])].hash[:int(m[2] or 64)], s)
    o.revs = tuple(f(x) for x in o.revs)
    o.paths = tuple(o.paths)
    if 'extra' in o.__dict__:
        o.extra = tuple(f(x) for x in o.extra)
    return o


PROGRESS = re.compile(r' *(\d+)% \(([\d,]+)/([\d,]+) commits\)')


def run_tty(binary, argv, cwd, env):
    """On a terminal: what is left on the screen once progress has been erased."""
    import pty, termios, threading
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, a)
    out = []

    def read():
        try:
            while True:
                b = os.read(m, 65536)
                if not b:
                    return
                out.append(b)
        except OSError:
            pass
    t = threading.Thread(target=read)
    t.start()
    try:
        p = subprocess.run([binary] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE, timeout=TIMEOUT)
        rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    os.close(s)
    t.join()
    os.close(m)
    text = b''.join(out).decode('utf-8', 'surrogateescape')
    steps = text.split('\x1b[2K\r')
    last = (-1, -1)
    for x in steps[:-1]:
        g = PROGRESS.fullmatch(x)
        n = tuple(int(v.replace(',', '')) for v in g.groups()) if g else ()
        if x and not (g and last <= n[:2] and n[0] <= 100 and n[1] <= n[2]):
            return rc, 'not a sensible progress: ' + text, err
        last = n[:2] or last
    return rc, steps[-1], err


def run_cmd(binary, argv, cwd, env, timeout=None):
    try:
        p = subprocess.run([binary] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout or TIMEOUT)
        return p.returncode, p.stdout.decode('utf-8', 'surrogateescape'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


class Impossible(Exception):
    """Git refuses to do this to the repository, or to answer in it."""


class Live:
    """A realised scenario."""

    def __init__(self, spec, workdir):
        self.spec = spec
        self.dir = workdir
        shutil.rmtree(workdir, ignore_errors=True)
        os.makedirs(workdir)
        self.h = make_history(spec)
        self.home = os.path.join(workdir, 'home')
        os.makedirs(self.home)
        if spec.get('gconfig') or spec.get('global_mailmap') is not None:
            with open(os.path.join(self.home, '.gitconfig'), 'w') as f:
                f.write(spec.get('gconfig', ''))
                if spec.get('global_mailmap') is not None:
                    f.write('[mailmap]\n\tfile = %s/gmailmap\n' % self.home)
        if spec.get('global_mailmap') is not None:
            with open(os.path.join(self.home, 'gmailmap'), 'w') as f:
                f.write(spec['global_mailmap'])
        self.repo = self.h.build(os.path.join(workdir, spec.get('dirname', 'r')), home=self.home)
        self.repo.env['TZ'] = spec.get('tz', 'UTC')          # for --since and --until
        if spec.get('identity_git'):                         # what Git makes of odd names, asked for one commit at a time
            for c in self.h.commits:
                o = self.repo.git('log', '-1', '--no-mailmap', '--encoding=UTF-8', '--format=%an%n%ae', c.hash)
                c.name, c.email = (os.fsdecode(x) for x in o[:-1].split(b'\n'))
        for a in spec.get('git_after', []):                  # what has been done to the checkout since
            a, inp = (a[:-1], a[-1]) if isinstance(a[-1], dict) else (a, {})
            try:
                self.repo.git(*a, input=inp.get('input', '').encode() if inp else b'')
            except RuntimeError as e:
                if not spec.get('unless_impossible'):
                    raise
                raise Impossible(str(e))
        if spec.get('unless_impossible') and run_cmd('git', spec['unless_impossible'][1:], os.path.join(self.repo.path, spec['unless_impossible'][0]), self.repo.env)[0]:
            raise Impossible(spec['unless_impossible'])
        self.cachen = 0
        self.cachedir = os.path.join(workdir, 'cache0')
        if spec.get('prime'):                                # fill the cache before the files below exist
            self.run(spec['prime'], 'warm')
        for p, data in spec.get('hash_files', {}).items():   # working-tree files mentioning hashes
            if p.endswith('/'):
                os.makedirs(os.path.join(self.repo.path, p))
                continue
            data = re.sub('\0(\\d+)\0', lambda m: self.h.commits[int(m[1])].hash.upper(), data)
            with open(os.path.join(self.repo.path, p), 'w', newline='') as f:
                f.write(re.sub(r'\{(\d+)(?::(\d+))?\}', lambda m: self.h.commits[int(m[1])].hash[:int(m[2] or 64)], data))

    def expect(self, cmd, opt=None):
        s = self.spec
        opt = opt or subst(self, Opt(**cmd['opt']))
        if 'want' in cmd:
            return cmd['want']
        for i, ds in cmd.get('diffs', {}).items():           # what a replaced git reports
            self.h.commits[int(i)].diffs = [tuple(d) for d in ds]
        if 'git_env' in cmd:                                 # settings that Git heeds too
            self.repo.cache.clear()
            env = self.repo.env
            self.repo.env = dict(self.repo.env, **cmd['git_env'])
            try:
                return self.expect({k: v for k, v in cmd.items() if k != 'git_env'}, opt)
            except RuntimeError:
                if not cmd.get('or_fail'):
                    raise
                return None
            finally:
                self.repo.env = env
                self.repo.cache.clear()
        return Expect(self.repo, opt, cmd.get('now', s.get('now', 1700000030)), cmd.get('tz', s.get('tz', 'UTC')), ignore=cmd.get('ignore', s.get('ignore', ())),
                      identity=identity_from(s.get('identity')), revs_for_git=cmd.get('revs_for_git')).stdout()

    def env(self, walk, cmd={}):
        s = self.spec
        e = base_env(self.home, cmd.get('now', s.get('now', 1700000030)), cmd.get('tz', s.get('tz', 'UTC')), XDG_CACHE_HOME=self.cachedir)
        e.update(WALKS[walk])
        e.update(s.get('env', {}))
        return e

    def run(self, cmd, walk, opt=None, extra_env=None):
        opt = opt or subst(self, Opt(**cmd['opt']))
        if walk == 'cold':
            self.cachen += 1
            self.cachedir = os.path.join(self.dir, 'cache%d' % self.cachen)
        b = _bins[cmd.get('bin', self.spec.get('bin', 'small'))]
        e = self.env(walk, cmd)
        if extra_env:
            e.update(extra_env)
        if 'env' in cmd or 'via' in cmd:
            f = lambda v: v.replace('{fakegit}', build.fakegit() if '{fakegit}' in v else '').replace('{R}', self.repo.path).replace('{W}', self.dir).replace('{gw}', b)
            e.update({k: f(v) for k, v in cmd.get('env', {}).items()})
        for k in cmd.get('unset', ()):
            e.pop(k, None)
        if 'via' in cmd:                                     # started by something else, perhaps elsewhere
            bin = os.path.join(self.dir, 'bin')
            if not os.path.exists(bin):
                os.makedirs(bin)
                os.symlink(self.repo.path, os.path.join(self.dir, 'link'))
            at = os.path.join(bin, 'git-who')
            if not os.path.islink(at) or os.readlink(at) != b:
                if os.path.islink(at):
                    os.unlink(at)
                os.symlink(b, at)
            e['PATH'] = bin + ':' + e['PATH']
            argv = [f(x) for x in cmd['via']] + (cmd.get('argv') or opt.argv())
            return run_cmd(argv[0], argv[1:], os.path.join(self.repo.path, f(cmd.get('from', opt.cwd))), e)
        return (run_tty if walk == 'tty' else run_cmd)(b, cmd.get('argv') or opt.argv(), os.path.join(self.repo.path, opt.cwd), e)


def judge(cmd, exp, got):
    rc, out, err = got
    if cmd.get('fail'):                      # the command has to fail cleanly
        if rc in ('timeout', 0) or 'panic:' in err or 'goroutine ' in err or not err.strip():
            return 'should fail with an error message; exit %s, stdout %r, stderr %r' % (rc, out[:200], err[-300:])
        return None
    if cmd.get('or_fail') and rc not in (0, 'timeout') and 'panic:' not in err and (err.strip() or 'via' in cmd):
        return None                          # or may fail cleanly
    if rc != 0:
        return 'exit status %s, stderr %s' % (rc, err[-600:])
    if out != exp:
        return 'wrong output\n' + diff(exp, out)
    return None


def diff(exp, got):
    import difflib
    r = ['%s %s' % (l[0], l[2:]) for l in difflib.ndiff(exp.splitlines(), got.splitlines()) if l[0] in '+-'][:12]
    return '\n'.join(x.replace('\x1b', '\\e') for x in r) or 'expected %r got %r' % (exp[-200:], got[-200:])


def show(spec, cmd, walk):
    opt = Opt(**cmd['opt']) if 'opt' in cmd else None
    how = ''.join('%s=%r ' % x for x in sorted(cmd.get('env', {}).items())) + ''.join('-%s ' % x for x in cmd.get('unset', ())) + ('%s: ' % cmd['via'] if 'via' in cmd else '')
    return how + "git who %s  [%s%s]" % (' '.join(map(repr, cmd.get('argv') or opt.argv())), walk, ', in %s/' % opt.cwd if opt and opt.cwd else '')


def run_scenario(spec, workdir):
    """-> dict(runs, outs, bad=[(what, cmd index, walk)])"""
    live = Live(spec, workdir)
    res = dict(runs=0, cmds=0, outs=[], bad=[], nontrivial=0)
    walks = spec.get('walks', ['seq', 'par'])
    for i, cmd in enumerate(spec['cmds']):
        opt = subst(live, Opt(**cmd['opt']))
        try:
            exp = None if cmd.get('fail') else live.expect(cmd, opt)
        except Exception:
            raise build.HarnessError('model failed on %s: %s' % (cmd, traceback.format_exc()))
        res['cmds'] += 1
        if exp:
            res['nontrivial'] += 1
            res['outs'].append(hashlib.md5(exp.encode('utf-8', 'surrogateescape')).hexdigest()[:12])
        for w in cmd.get('walks', walks):
            if w in ('par', 'par2', 'par3', 'par9', 'cold', 'warm', 'tty') and not uses_pool(opt) and w != walks[0] and not spec.get('allwalks'):
                continue
            began = time.time()
            if 'cuts' in cmd:
                full(live, cmd, w, opt, exp, res, i)
                continue
            got = live.run(cmd, w, opt)
            res['runs'] += 1
            m = judge(cmd, exp, got)
            if m and 'or_now' in cmd and got[0] == 0 and got[1] == live.expect(dict(cmd, now=cmd['or_now']), opt):
                m = None                                     # the clock was read before and after
            if m:
                res['bad'].append((m, i, w))
                if len(res['bad']) > 30 or got[0] == 'timeout' or time.time() - began > 5:
                    return res
    return res


def full(live, cmd, walk, opt, exp, res, i):
    """Standard output takes only so many bytes: every number of them, or those around the ends of blocks."""
    size = len(exp.encode('utf-8', 'surrogateescape'))
    at = range(size) if cmd['cuts'] == 'all' and size < 3000 else sorted({x for b in range(0, size, 4096) for x in (b - 1, b, b + 1) if 0 <= x < size} | {0, 1, size // 2, size - 2, size - 1})
    for n in list(at) + [size, size + 1, None]:
        rc, out, err = got = live.run(cmd, walk, opt, dict(GWV_OUTFULL=str(n + 1)) if n is not None else None)
        res['runs'] += 1
        m = None
        if n is None or n >= size:
            m = judge(cmd, exp, got)
        elif rc in (0, 'timeout') or 'panic:' in err or 'goroutine ' in err or not err.strip():
            m = 'only %d of %d bytes could be written; exit status %s, stderr %r' % (n, size, rc, err[-300:])
        elif not exp.startswith(out) and not exp.encode('utf-8', 'surrogateescape').startswith(out.encode('utf-8', 'surrogateescape')):
            m = 'what was written before the device was full is wrong:\n' + diff(exp[:len(out)], out)
        if m:
            res['bad'].append((m, i, walk))
            return


def uses_pool(opt):
    """Commands that need file changes are the ones that can run in parallel (others are cheap to skip)."""
    return opt.sub == 'tree' or opt.mode in ('l', 'f')


def _work(job):
    i, spec = job
    wd = os.path.join(build.scratch(), 'w%d' % os.getpid())
    try:
        r = run_scenario(spec, wd)
        if r['bad']:
            # believe it only when a fresh run of the whole scenario repeats it
            r['reproduced'] = any(run_scenario(spec, wd)['bad'] for _ in range(3))
            if not r['reproduced']:
                r['flaky'] = r['bad']
                r['bad'] = []
        return i, r
    except build.HarnessError as e:
        return i, {'error': str(e)}
    except Impossible:
        return i, {'impossible': True}
    except Exception:
        return i, {'error': traceback.format_exc()}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def explore(ck, specs, small=2, key=None, jobs=None, what='scenarios', stop_after=int(os.environ.get('GWV_STOP') or 8)):
    """Run every scenario of an iterable (within the time budget) and record results in the check."""
    if _bins is None:
        prepare(small)
    build.scratch()
    done = [0]
    keep = {}
    stop = [False]

    def feed():
        n = 0
        for s in specs:
            if stop[0]:
                return
            if ck.out_of_time():
                ck.incomplete('%s: stopped after %d by the time budget' % (what, n))
                return
            # bound what is queued ahead
            keep[n] = s
            yield (n, s)
            n += 1

    with build.Pool(jobs) as pool:
        it = pool.imap_unordered(_work, throttle(feed(), keep, stop), chunksize=1)
        try:
            for i, r in it:
                spec = keep.pop(i)
                if 'error' in r:
                    raise build.HarnessError(r['error'])
                if 'impossible' in r:
                    ck.add('impossible_scenarios')
                    continue
                done[0] += 1
                ck.add('states')
                ck.add('model_commits', len(spec['commits']))
                ck.add('transitions', r['runs'])
                ck.add('evaluations', r['cmds'])
                if not r['bad']:
                    ck.add('traces_validated_against_impl')
                for o in r['outs']:
                    ck.distinct('distinct_outputs', o)
                ck.add('distinct_nontrivial', 1 if r['nontrivial'] else 0)
                if r['nontrivial']:
                    ck.sample(dict(commits=[(c.get('name'), c.get('ops')) for c in spec['commits']][:6],
                                   command=show(spec, spec['cmds'][0], spec.get('walks', ['seq'])[0]), distinct_outputs=len(set(r['outs']))))
                if r.get('flaky'):
                    ck.add('unreproduced_mismatches')
                for m, ci, w in r['bad']:
                    cmd = spec['cmds'][ci]
                    k = key(spec, cmd, w, m) if key else None
                    if k is not None and ck.known_key(k):
                        continue
                    ck.violation('%s%s\n%s\nhistory: %s' % (show(spec, cmd, w), '  after %s' % spec['label'] if 'label' in spec else '', m, json.dumps([dict(c) for c in spec['commits']], default=str)[:700]),
                                 dict(engine='e2e', spec=spec, cmd=ci, walk=w, mismatch=m), k)
                    if not os.environ.get('GWV_SHOWKEYS'):
                        break
                if len(ck.violations) >= stop_after:
                    stop[0] = True
                    for _ in it:          # what is under way
                        pass
                    break
        finally:
            stop[0] = True
    return done[0]


def throttle(gen, keep, stop, ahead=64):
    # imap consumes its input eagerly from a thread: pause while too much is pending
    for x in gen:
        while len(keep) > ahead and not stop[0]:
            time.sleep(0.002)
        if stop[0]:
            return
        yield x


def replay(r, small=2):
    prepare(small)
    wd = os.path.join(build.scratch(), 'replay')
    res = run_scenario(r['spec'], wd)
    for m, ci, w in res['bad']:
        print(show(r['spec'], r['spec']['cmds'][ci], w))
        print(m)
    return 1 if res['bad'] else 0
