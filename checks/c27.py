"""C27: output that can't be written is an error.  Every command x every byte after which standard output fails."""
import fcntl, os, subprocess
import build, e2e
from gen import *

T0 = NOW - 30 * DAY


def history():
    return [who(A, date=T0, ops=[('+', 'x', 3), ('bin', 'd/b')]), who(B, date=T0 + DAY, ops=[('+', 'd/y', 2)]), who(('Zoë, "Z"', 'z@x'), date=T0 + 2 * DAY, ops=[('mv', 'x', 'd/z é')]),
            who(C, date=T0 + 3 * DAY, ops=[('+', 'd/e/f', 1)], parents=[0]), who(B, date=T0 + 4 * DAY, ops=[('take', 1)], parents=[2, 3])]


def wide(n):
    """So much output that it doesn't fit any buffer."""
    return [dict(name='Author %d' % i, email='a%d@x' % i, date=T0 + i * 3600, ops=[('+', 'd%d/f%d' % (i % 9, i), 1)]) for i in range(n)]


def commands(modes):
    for m in modes:
        yield dict(mode=m)
        yield dict(csv=True, mode=m, limit=0, email=True)
        yield dict(sub='tree', mode=m, show_all=True)
        if m in ('', 'l', 'f'):
            yield dict(sub='hist', mode=m)
    yield dict(limit=1)
    yield dict(sub='tree', depth=1)
    yield dict(csv=True, limit=1)
    yield dict(csv=True, authors=['nobody'])
    yield dict(sub='parse')
    yield dict(sub='parse', extra=['-s'])


def specs(quick):
    cmds = [dict(opt=o, cuts='all') for o in commands(['', 'l'] if quick else ['', 'l', 'f', 'm', 'c'])]
    for k in range(0, len(cmds), 2):
        yield dict(commits=history(), now=NOW, cmds=cmds[k:k + 2], walks=['seq', 'par', 'warm'] if not quick else ['par'] if k % 4 else ['seq'])
    for n in (200,) if quick else (60, 200, 2500):
        for o in (dict(limit=0), dict(limit=0, mode='l'), dict(csv=True, limit=0), dict(csv=True, limit=0, mode='f', email=True), dict(sub='tree', show_all=True), dict(sub='hist'), dict(sub='hist', mode='l'), dict(sub='parse')):
            yield dict(commits=wide(n), now=NOW, cmds=[dict(opt=o, cuts='blocks')], walks=['seq', 'par'], bin='real')


def devices(say):
    """The same with what there is outside: a device that is full, a reader that goes away."""
    d = os.path.join(build.scratch(), 'devices')
    live = e2e.Live(dict(commits=wide(200), now=NOW), d)
    for o in (dict(limit=0), dict(csv=True, limit=0), dict(sub='tree'), dict(sub='hist'), dict(limit=0, mode='l'), dict(sub='hist', mode='f')):
        opt = e2e.Opt(**o)
        big = len(live.run(dict(opt=o), 'par')[1].encode()) > 4500
        for how in ('full', 'gone', 'gone later'):
            argv, env = [e2e._bins['real']] + opt.argv(), live.env('par')
            if how == 'full':
                with open('/dev/full', 'w') as out:
                    p = subprocess.run(argv, cwd=live.repo.path, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, timeout=60)
                rc, err = p.returncode, p.stderr
            else:
                r, w = os.pipe()
                if how == 'gone':
                    os.close(r)
                p = subprocess.Popen(argv, cwd=live.repo.path, env=env, stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.PIPE)
                os.close(w)
                if how != 'gone':
                    fcntl.fcntl(r, 1031, 4096)           # F_SETPIPE_SZ: the whole doesn't fit
                    os.read(r, 1)
                    os.close(r)
                _, err = p.communicate(timeout=60)
                rc = p.returncode
            bad = None
            if (rc == 0 and (big or how != 'gone later')) or b'panic:' in err or (how == 'full' and not err.strip()):
                bad = 'git who %s, standard output %s\n    exit status %s, stderr %r' % (' '.join(opt.argv()), how, rc, err[-300:])
            say(bad)


def dump(say):
    """The output for debugging, which has no model: compared with itself."""
    live = e2e.Live(dict(commits=history(), now=NOW), os.path.join(build.scratch(), 'dump'))
    for args in (['dump'], ['dump', '-s'], ['dump', '--author', 'nobody'], ['dump', 'HEAD', '--', 'd']):
        def go(n):
            env = live.env('par')
            if n is not None:
                env['GWV_OUTFULL'] = str(n + 1)
            p = subprocess.run([e2e._bins['small']] + args, cwd=live.repo.path, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            return p.returncode, p.stdout, p.stderr
        rc, whole, err = go(None)
        say('git who %s fails: %r' % (' '.join(args), err) if rc else None)
        for n in range(len(whole) + 2):
            rc, out, err = go(n)
            bad = (rc, out) != (0, whole) if n >= len(whole) else rc == 0 or not err.strip() or b'panic:' in err or not whole.startswith(out)
            say('git who %s, %d of %d bytes can be written\n    exit status %s, stderr %r' % (' '.join(args), n, len(whole), rc, err[-300:]) if bad else None)
            if bad:
                break


def run(ck):
    ck.cov['rule'] = 'every command x every number of bytes that standard output takes before it fails (larger outputs: around the ends of blocks); all of it must be written, or the run fails with a message'
    e2e.prepare()
    e2e.explore(ck, specs(ck.quick), what='every byte')

    def say(bad):
        ck.add('evaluations')
        ck.add('transitions')
        if bad:
            ck.violation(bad, dict(kind='device'))
    devices(say)
    dump(say)


def replay(r):
    if r.get('kind') != 'device':
        return e2e.replay(r)
    e2e.prepare()
    bad = []
    devices(lambda b: bad.append(b) if b else None)
    dump(lambda b: bad.append(b) if b else None)
    print('\n'.join(bad) or 'not reproduced')
    return 1 if bad else 0
