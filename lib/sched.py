"""Exhaustive exploration of schedules and faults of the whole program (harness/sched, harness/explore)."""
import concurrent.futures, hashlib, json, os, shutil, struct, subprocess
import build, e2e
from build import HarnessError
from e2e import Live, subst
from model import Opt, Expect, base_env

SCHED_POINTS, FS_FAULTS, PROC_FAULTS = 1, 2, 4
_driver = None


def driver():
    global _driver
    if _driver is None:
        out = os.path.join(build.scratch(), 'explore')
        env = build.goenv()
        r = subprocess.run([build.GOROOT + '/bin/go', 'build', '-o', out, '.'], cwd=os.path.join(build.HARNESS, 'explore'), env=env, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('cannot build explore: ' + r.stderr)
        _driver = out
    return _driver


def sched_binary(chunk, kind='sched'):
    """The program with batches of `chunk` commits; falls back to the real batch size (then one batch holds everything)."""
    return build.binary(kind, chunk) or build.binary(kind)


class Lab:
    """Repositories and jobs for one check."""

    def __init__(self, ck):
        self.ck = ck
        if e2e._bins is None:
            e2e.prepare(2)
        self.dir = os.path.join(build.scratch(), 'lab')
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        self.lives = []
        self.jobs = []
        self.meta = {}

    def live(self, spec):
        self.n += 1
        l = Live(dict(spec), os.path.join(self.dir, 's%d' % self.n))
        l.memo = os.path.join(l.dir, 'memo')
        os.makedirs(l.memo)
        self.lives.append(l)
        return l

    def template(self, live, *prime):
        """A cache directory as earlier runs left it."""
        if not prime:
            return ''
        self.n += 1
        d = os.path.join(live.dir, 'tpl%d' % self.n)
        os.makedirs(d)
        for o in prime:
            e = live.env('warm')
            ctl = os.path.join(live.dir, 'tplctl')
            with open(ctl, 'wb') as f:                     # base scheduler, two workers
                f.write(struct.pack('<6I', 0, 0, 2, 10000000, 0, 0).ljust(4 << 18, b'\0'))
            e.update(XDG_CACHE_HOME=d, GWV_CTL=ctl, GWV_MEMO=live.memo, GWV_FSROOT=d, GWV_MAPSEED='0', GOMAXPROCS='1', GODEBUG='asyncpreemptoff=1')
            opt = subst(live, Opt(**o))
            rc, out, err = e2e.run_cmd(sched_binary(2), opt.argv(), os.path.join(live.repo.path, opt.cwd), e)
            if rc != 0:
                # judged elsewhere; here it only means that the cache starts out differently
                self.ck.add('templates_failed')
        return d

    def job(self, live, o, name='', chunk=1, ncpu=2, policies=(0, 1, 2, 3, 4), flags=SCHED_POINTS, sched=1, fault=0, total=None,
            prime=(), follow=(), argv=None, horizon=20000, readsize=0, tpl=None, expect=None, fail=False, kind='sched', **extra):
        opt = subst(live, Opt(**o))
        fol = []
        for f in follow:
            fo = subst(live, Opt(**f))
            fol.append(dict(argv=fo.argv(), expect=live.expect(dict(opt=f)), env=[]))
        e = live.env('warm')
        for k in ('GOMAXPROCS', 'XDG_CACHE_HOME'):
            e.pop(k, None)
        e['GWV_MAPSEED'] = '0'
        if kind == 'race':
            e['GORACE'] = 'atexit_sleep_ms=0 halt_on_error=1 exitcode=66'
            name += 'happens-before monitor'
        cwd = os.path.join(live.repo.path, opt.cwd)
        name = '%s%s: git who %s, %d workers, batches of %s%s%s' % (
            '#%d ' % (len(self.jobs) + 1), name, ' '.join(argv or opt.argv()), ncpu, chunk or 'real size', ', primed by ' + ' + '.join(' '.join(Opt(**p).argv()) for p in prime) if prime else '',
            ', reads of %d bytes' % readsize if readsize else '')
        j = dict(name=name, bin=sched_binary(chunk, kind), cwd=cwd, argv=argv or opt.argv(), env=['%s=%s' % kv for kv in e.items()],
                 memo=live.memo, ncpu=ncpu, policies=list(policies), flags=flags, sched=sched, fault=fault, total=total or 0, horizon=horizon,
                 cachetpl=tpl if tpl is not None else self.template(live, *prime), expect=expect if expect is not None else ('' if fail else live.expect(dict(opt=o))),
                 follow=fol, readsize=readsize, wanterr=fail)
        if extra:
            self.modes(live, j, extra, e)
            name = j['name']
        self.jobs.append(j)
        self.meta[name] = dict(live=live.spec, job=dict(extra=extra, o=o, chunk=chunk, ncpu=ncpu, flags=flags, prime=list(prime), follow=list(follow), argv=argv, readsize=readsize, fail=fail, kind=kind))
        return j

    def graph(self, name, versions, after, chunk=2, ncpu=2, policy=0, probes=((0, 0),)):
        """Sequences of runs in a repository that changes between them.  A version is dict(name, spec, cmds, others={dir: spec}, setup=f(Live)); a command is Opt arguments
        and possibly at=(directory, other's name or None), revs_for_git, want."""
        self.n += 1
        top = os.path.join(self.dir, 'g%d' % self.n)
        worlds = [os.path.join(top, 'w%d' % i) for i in range(build.NCPU)]
        vs = [None] * len(versions)

        def build_world(i):
            w = worlds[i]
            for k, v in enumerate(versions):
                cur = os.path.join(w, 'cur')
                live = Live(dict(v['spec']), cur)
                lives = {None: live}
                for d, s in v.get('others', {}).items():
                    l = Live(dict(s), os.path.join(w, 'tmp'))
                    os.makedirs(os.path.dirname(os.path.join(cur, d)), exist_ok=True)
                    os.rename(l.repo.path, os.path.join(cur, d))
                    l.repo.path = os.path.join(cur, d)
                    l.repo.cache.clear()
                    lives[d] = l
                if v.get('setup'):
                    v['setup'](live)
                os.makedirs(os.path.join(w, 'memo%d' % k))
                if i == 0:
                    cmds = []
                    for c in v['cmds']:
                        c = dict(c)
                        d, other = c.pop('at', ('r', None))
                        l = lives[other]
                        x = {n: c.pop(n) for n in ('revs_for_git', 'want', 'identity') if n in c}
                        opt = subst(l, Opt(**c))
                        if 'want' in x:
                            exp = x['want']
                        else:
                            exp = Expect(l.repo, opt, l.spec.get('now', 1700000030), l.spec.get('tz', 'UTC'), ignore=l.spec.get('ignore', ()),
                                         identity=e2e.identity_from(l.spec.get('identity')), revs_for_git=x.get('revs_for_git')).stdout()
                        e = l.env('warm') if 'tz' in l.spec or 'now' in l.spec else {}
                        cmds.append(dict(argv=opt.argv(), cwd=os.path.join(d, opt.cwd), env=['%s=%s' % (n, e[n]) for n in ('TZ', 'GWV_NOW', 'GIT_TEST_DATE_NOW') if n in e], expect=exp))
                    vs[k] = dict(name=v['name'], env=['HOME={WORLD}/cur/home', 'GIT_CEILING_DIRECTORIES={WORLD}/cur'] + ['%s=%s' % x for x in v.get('env', {}).items()], cmds=cmds)
                os.rename(cur, os.path.join(w, 'v%d' % k))
        with concurrent.futures.ThreadPoolExecutor(build.NCPU) as pool:
            list(pool.map(build_world, range(len(worlds))))
        e = {k: v for k, v in base_env('/nonexistent', 1700000030).items() if k not in ('HOME', 'GIT_CEILING_DIRECTORIES')}
        e['GWV_MAPSEED'] = '0'
        name = '#%d %s: sequences of %d runs in %d versions of the repository' % (len(self.jobs) + 1, name, after, len(versions))
        self.jobs.append(dict(name=name, bin=sched_binary(chunk), cwd='/', argv=[], env=['%s=%s' % kv for kv in e.items()], memo='', ncpu=ncpu, policies=[policy], flags=0, horizon=0,
                              mode='graph', worlds=worlds, versions=vs, after=after, probes=[list(p) for p in probes]))
        self.meta[name] = dict(live=None, job=dict(graph=name.split(' ', 1)[1].split(':')[0]))

    def modes(self, live, j, x, e):
        """monitor: only the own cache directory may be written; damaged: the cache is garbage to begin with.
        Exploration of cache states: x has mode and, depending on it, crashed, crashes, damage, procs, preempt, kills, after."""
        if x.get('monitor'):
            d = self.template(live, dict(sub='tree'))
            j['monitor'] = ([os.path.relpath(r, d) for r, ds, fs in os.walk(d) if fs] + ['nothing-cached'])[0]
        if x.get('damaged'):
            for r, ds, fs in os.walk(j['cachetpl']):
                for f in fs:
                    with open(os.path.join(r, f), 'r+b') as o:
                        o.write(b'garbage')
        if 'mode' not in x:
            return
        j.update(mode=x['mode'], after=x.get('after', 3), crashes=x.get('crashes', 1), damage=list(x.get('damage', ())), preempt=x.get('preempt', 0), kills=x.get('kills', 0))
        cmd = lambda o: dict(argv=subst(live, Opt(**o)).argv(), expect=live.expect(dict(opt=o)), env=[])
        j['crashed'] = [cmd(o) for o in x.get('crashed', ())]
        if 'procs' in x:
            j['procs'] = []
            for k, p in enumerate(x['procs']):
                p = dict(p)
                o = p.pop('o')
                memo = live.memo + '-%d%s' % (k, '-mailmap' if 'mailmap' in p else '')
                os.makedirs(memo, exist_ok=True)
                po = subst(live, Opt(**o))
                home = p.get('home')           # another home directory: another mailmap
                spec = dict(live.spec, identity=p['identity']) if 'identity' in p else live.spec
                exp = Expect(live.repo, po, spec.get('now', 1700000030), spec.get('tz', 'UTC'), ignore=spec.get('ignore', ()), identity=e2e.identity_from(spec.get('identity'))).stdout()
                env = []
                if 'mailmap' in p:
                    env = ['GIT_CONFIG_COUNT=1', 'GIT_CONFIG_KEY_0=mailmap.file', 'GIT_CONFIG_VALUE_0=' + os.path.join(live.dir, 'mailmap-%d' % k)]
                    with open(os.path.join(live.dir, 'mailmap-%d' % k), 'w') as f:
                        f.write(p['mailmap'])
                j['procs'].append(dict(argv=po.argv(), cwd=os.path.join(live.repo.path, po.cwd), env=env, memo=memo, ncpu=p.get('ncpu', 2), expect=exp))
            j['name'] += ' with ' + ' and '.join(' '.join(p['argv']) for p in j['procs'][1:])

    def run(self, seconds, stop_after=int(os.environ.get('GWV_STOP') or 8), verbose=False):
        ck = self.ck
        scr = os.path.join(self.dir, 'x')
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(scr)
        spec = dict(workers=build.NCPU, seconds=seconds, scratch=scr, jobs=self.jobs, maxviol=stop_after, baseenv=[], verbose=verbose)
        r = subprocess.run([driver()], input=json.dumps(spec), capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('explore failed: ' + r.stderr[-2000:])
        if r.stderr:
            print(r.stderr)
        res = json.loads(r.stdout)
        res['violations'] = res['violations'] or []
        per = []
        for j in res['jobs']:
            ck.add('executions', j['executions'])
            ck.add('states', j['executions'])
            ck.add('transitions', j['points'])
            ck.add('decisions', j['decisions'])
            ck.add('evaluations', j['executions'] + j['follow_runs'])
            ck.add('traces_validated_against_impl', j['executions'])
            ck.add('cache_states', j['cache_states'])
            ck.add('transitions', j['transitions'] + (j['follow_runs'] if j['transitions'] else 0))
            ck.add('later_runs', j['follow_runs'])
            for k in ('diverged', 'unconfirmed', 'overflow'):
                if j[k]:
                    ck.add(k, j[k])
            for o, n in j['outcomes'].items():
                ck.add('outcome ' + o, n)
            per.append(dict(job=j['name'], executions_per_level=j['executions_per_level'], levels='%d of %d' % (j['levels_completed'], j['levels_wanted']),
                            most_decisions=j['max_decisions'], outcomes=j['outcomes'], cache_states=j['cache_states'], **({'transitions': j['transitions'], 'states_crashes_start_from': j['sources']} if j['transitions'] else {})))
            if j['levels_completed'] < j['levels_wanted'] and not res['violations']:
                ck.incomplete('%s: %d of %d base schedulers up to the bounds within the time budget' % (j['name'], j['levels_completed'], j['levels_wanted']))
            if j['diverged']:
                ck.incomplete('%s: %d executions did not follow their schedule' % (j['name'], j['diverged']))
        ck.cov.setdefault('jobs', []).extend(per)
        ck.add('distinct_nontrivial', sum(j['executions'] for j in res['jobs']))
        for p in per[:3]:
            ck.sample(p)
        for v in res['violations']:
            m = self.meta[v['job']]
            what = '%s\n%s: %s\nschedule: policy %d, deviations %s\nfaults: %s' % (v['job'], v['kind'], v['detail'], v['policy'], v['forced'], ', '.join(v['faults'] or []) or 'none')
            if v['kind'] in ('wrong', 'partial', 'unreported'):
                what += '\n' + e2e.diff(v['expect'], v['stdout'])
            if v['stderr']:
                what += '\nstderr: ' + v['stderr'][-700:]
            ck.violation(what, dict(engine='sched', spec=m['live'], job=m['job'], policy=v['policy'], forced=v['forced'], kind=v['kind'], steps=v.get('steps')))
        self.jobs = []
        return res


class _Stub:
    def add(self, *a):
        pass


def replay(r):
    lab = Lab(_Stub())
    if 'graph' in r['job']:
        import c04
        c04.graphs(lab, only=r['job']['graph'])
        lab.jobs[0]['steps'] = r['steps']
        return _replay(lab, lab.jobs[0])
    live = lab.live(r['spec'])
    m = r['job']
    j = lab.job(live, m['o'], chunk=m['chunk'], ncpu=m['ncpu'], policies=(r['policy'],), flags=m['flags'], prime=m['prime'], follow=m['follow'], argv=m['argv'], readsize=m['readsize'], fail=m['fail'], kind=m['kind'], **(m.get('extra') or {}))
    j['replay'] = r['forced']
    j['steps'] = r.get('steps') or []
    return _replay(lab, j)


def _replay(lab, j):
    scr = os.path.join(lab.dir, 'x')
    os.makedirs(scr)
    # once without recording to fill the memory of processes, once for the verdict
    for _ in range(2):
        p = subprocess.run([driver()], input=json.dumps(dict(workers=1, seconds=60, scratch=scr, jobs=[j], verbose=True, baseenv=[])), capture_output=True, text=True)
    print(p.stderr)
    v = json.loads(p.stdout)['violations']
    for x in v or []:
        print(x['kind'] + ': ' + x['detail'])
    return 1 if v else 0
