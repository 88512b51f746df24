"""C21: splitting of arguments.  All argument lists up to a bounded length; git itself says which are errors and what they select."""
import itertools, os, subprocess
import build, e2e, model
from model import Opt, Expect, base_env
from gen import *

T0 = NOW - 30 * DAY
WORDS = ['main', 'br', '{2:8}', 'main..br', '^br', 'HEAD~1', 'v1', 'README', 'src', 'both', 'nosuch', '--', '*.c', ':!src', 'src/a.c', '-x', 'deadbeef', '.', 'HEAD:README', 'HEAD']
FLAG = lambda x: not any(w[0] == '-' and w != '--' for w in (x[:x.index('--')] if '--' in x else x)[1:])   # options come first: see DESIGN.md
SMALL = ['br', 'v1..', 'README', 'both', '--', 'src', 'nosuch', 'HEAD', '-x', '^br', '{1}', 'deadbeef', 'cafe']


HEX = '0123456789abcdef' * 5
LONG = ['d' + 'o' * 39, 'a1' + 'x' * 38, 'x' * 39 + 'a', HEX[:39], HEX[:40], HEX[:41], HEX[:37] + '.md', HEX[:8] + '/' + HEX[:31], HEX[:40].upper(), '^' + HEX[:39], 'e' * 63 + '_', HEX[:63], HEX[:64], HEX[:65], 'f' * 36 + '.txt', 'f ' * 20]


def history(odd):
    cs = [who(A, date=T0, ops=[('+', 'README', 3), ('+', 'src/a.c', 2), ('+', 'both', 1)]), who(B, date=T0 + DAY, ops=[('+', 'src/b.c', 2), ('+', 'README', 1), ('+', 'deadbeef', 1)]),
          who(A, date=T0 + 2 * DAY, parents=[1], ops=[('+', 'both', 2), ('+', 'src/a.c', 1)], ref='refs/heads/br'),
          who(C, date=T0 + 3 * DAY, parents=[1], ops=[('+', 'x.c', 1), ('+', '-x', 1), ('+', 'cafe', 2)])]
    if odd == 2:
        cs.append(who(B, date=T0 + 4 * DAY, ops=[('+', f, 1) for f in LONG]))
    elif odd:
        cs.append(who(B, date=T0 + 4 * DAY, ops=[('+', 'HEAD', 2), ('+', 'br', 3), ('+', '--', 1), ('+', 'main..br', 1), ('+', 'table', 1), ('+', '--csv', 1), ('+', 'src/v1', 1), ('+', '^--', 1), ('+', '^^--', 2)]))
    return cs


def split(words, exists, isrev):
    """Revisions and paths of an argument list; None when it is an error.  Before "--", a word is a
    revision if it can be one, and the first that cannot starts the paths, which have to exist."""
    if words and words[0][0] == '-' and words[0] != '--':
        return None                        # unknown option
    if '--' in words:
        i = words.index('--')
        if not all(isrev(w) for w in words[:i]):
            return None
        return words[:i], words[i + 1:]
    for i, w in enumerate(words):
        if not isrev(w):
            if not all(exists(x) for x in words[i:]):
                return None
            return words[:i], words[i:]
    return words, []


def run_lists(job):
    """One repository, many argument lists."""
    wd = os.path.join(build.scratch(), 'w%d' % os.getpid())
    import shutil
    i, spec = job
    try:
        live = e2e.Live(spec, wd)
        res = dict(runs=0, outs=[], bad=[], ok=0, rejected=0)
        repo = live.repo
        revcache = {}

        def isrev(w):
            if w not in revcache:
                revcache[w] = subprocess.run(['git', 'rev-parse', '--revs-only', w], cwd=repo.path, env=repo.env, capture_output=True).stdout.strip() != b'' and w[0] != '-'
            return revcache[w]
        for words in spec['lists']:
            words = [model.re.sub(r'\{(\d+)(?::(\d+))?\}', lambda m: live.h.commits[int(m[1])].hash[:int(m[2] or 40)], w) for w in words]
            exp = None
            sp = split(words, lambda w: w[0] == ':' or '*' in w or os.path.lexists(os.path.join(repo.path, w)), isrev)
            if sp:
                r, p = sp
                g = subprocess.run(['git', 'log', '--format=%H'] + r + ['--'] + p, cwd=repo.path, env=repo.env, capture_output=True)
                if g.returncode == 0:
                    ex = Expect(repo, Opt(csv=True, mode='l', limit=0, paths=p), NOW)
                    ex.r = Fixed(repo, [repo.byhash[x] for x in g.stdout.decode().split()])
                    exp = ex.stdout()
            if exp is not None:
                res['ok'] += 1
                res['outs'].append(hash(exp))
            else:
                res['rejected'] += 1
            for w in spec['walks']:
                argv = spec['prefix'] + words
                got = e2e.run_cmd(e2e._bins['small'], argv, repo.path, live.env(w))
                res['runs'] += 1
                m = e2e.judge({'fail': exp is None}, exp, got)
                if m:
                    res['bad'].append((m, argv, w))
                    if len(res['bad']) > 2:
                        return i, res
        return i, res
    except Exception:
        import traceback
        return i, {'error': traceback.format_exc()}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


class Fixed:
    """The repository with a fixed selection of commits."""

    def __init__(self, repo, sel):
        self.repo, self.sel = repo, sel

    def select(self, *a):
        return self.sel

    def __getattr__(self, n):
        return getattr(self.repo, n)


def explore(ck, lists, odd, walks, prefix, what):
    import multiprocessing
    jobs = []
    lists = [x for x in lists if FLAG(x)]
    for k in range(0, len(lists), 40):
        jobs.append((k, dict(commits=history(odd), refs={}, tags={'v1': 1, 'both': 0}, now=NOW, lists=lists[k:k + 40], walks=walks, prefix=prefix)))
    build.scratch()
    with build.Pool() as pool:
        for i, r in pool.imap_unordered(run_lists, jobs):
            if 'error' in r:
                raise build.HarnessError(r['error'])
            ck.add('states', r['ok'] + r['rejected'])
            ck.add('transitions', r['runs'])
            ck.add('lists_accepted_by_git', r['ok'])
            ck.add('lists_rejected_by_git', r['rejected'])
            ck.add('traces_validated_against_impl', r['ok'] + r['rejected'] - len(r['bad']))
            for o in r['outs']:
                ck.distinct('distinct_outputs', o)
            if r['bad']:
                again = [run_lists((i, dict(j, lists=j['lists']))) for j in [dict(jobs)[i]] for _ in range(2)]
                if any(a[1].get('bad') for a in again):
                    m, argv, w = r['bad'][0]
                    ck.violation('git who %s [%s]\n%s' % (' '.join(map(repr, argv)), w, m), dict(engine='c21', spec=dict(jobs)[i], mismatch=m, argv=argv))
    if lists:
        ck.sample(dict(arguments=lists[len(lists) // 2], what=what))


def run(ck):
    e2e.prepare()
    ck.cov['rule'] = 'every argument list over an alphabet of words up to the stated length; git log on the same list says whether it is an error and which commits it selects; a word that is both a revision and a file is a revision'
    L = ['-l', '--csv', '-n', '0']
    explore(ck, [list(x) for n in (0, 1, 2) for x in itertools.product(WORDS, repeat=n)], False, ['seq', 'par'], ['table'] + L, 'length 2')
    explore(ck, [list(x) for n in (0, 1, 2) for x in itertools.product(SMALL + ['table', '--csv', 'main..br', 'src/v1'], repeat=n) if x[:1] not in (('--csv',), ('table',))], True, ['seq'], L, 'length 2, odd file names')
    explore(ck, [['--'] + list(x) for n in (1, 2) for x in itertools.product(['HEAD', 'br', '--', 'main..br', 'table', '--csv', '-x', 'deadbeef', 'cafe', 'both', '^--', '^^--'], repeat=n)], True, ['par'], L, 'odd names after --')
    explore(ck, [list(x) for n in (1, 2) for x in itertools.product(LONG + ['main', '--', 'br'], repeat=n)], 2, ['seq', 'par'], ['table'] + L, 'names like hashes')
    three = [list(x) for x in itertools.product(SMALL if not ck.quick else SMALL[:9], repeat=3)]
    explore(ck, three, False, ['seq'] if ck.quick else ['seq', 'par'], ['table'] + L, 'length 3')
    if not ck.quick:
        explore(ck, three, True, ['seq', 'par'], L, 'length 3, odd file names')
        explore(ck, [list(x) for x in itertools.product(SMALL[:7], repeat=4)], False, ['seq'], ['table'] + L, 'length 4')
    # the same command with and without naming the subcommand, options of every subcommand
    specs = []
    for odd in (False, True):
        o = [dict(explicit_sub=e, **f) for e in (False, True) for f in (dict(mode='l', csv=True), dict(mode='f', email=True, merges=True, limit=1), dict(csv=True, since='@%d' % T0, authors=['Bob']), dict(mode='c', nauthors=['Bob'], revs=['br']),
                                                                    dict(mode='m', paths=['src'], dashdash=True))]
        o = [x for x in o if not (odd and x.get('revs'))]
        o += [dict(sub='tree', mode='f', email=True, show_all=True, depth=1), dict(sub='hist', mode='l', email=True, merges=True), dict(sub='tree', paths=['table'] if odd else ['src'], dashdash=True)]
        specs.append(dict(commits=history(odd), tags={'v1': 1, 'both': 0}, now=NOW, cmds=[dict(opt=x) for x in o], walks=['seq', 'par']))
    e2e.explore(ck, specs, what='options')
    e2e.explore(ck, sha256(), what='other object format')


def sha256():
    for n in (1, 2):
        o = [dict(csv=True, mode='l', limit=0, revs=r, paths=p) for r in ((), ('{1}',), ('{0:9}..',), ('br',)) for p in ((), ('src',), (':!README',))] + [dict(sub='tree'), dict(sub='hist', mode='l', revs=['{2}', '^{0}'])]
        yield dict(commits=history(n == 2), sha256=True, tags={'v1': 1}, now=NOW, cmds=[dict(opt=x) for x in o if not (n == 2 and 'br' in x.get('revs', ()))], walks=['seq', 'par', 'cold', 'warm'],
                   hash_files={'.git-blame-ignore-revs': '{1}\n'} if n == 2 else {}, ignore=[1] if n == 2 else [])


def replay(r):
    if r.get('engine') == 'e2e':
        return e2e.replay(r)
    e2e.prepare()
    _, res = run_lists((0, r['spec']))
    print(res.get('bad') or res.get('error'))
    return 1 if res.get('bad') else 0
