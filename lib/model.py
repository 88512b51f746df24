"""Independent reference model of git-who.

A history is described by the scenario (authors, dates, file operations), from
which both a real repository (through git fast-import) and the expected output
of every command are derived.  The model never looks at git-who, and takes from
git only what the properties define by reference to git: which commits a
revision/date/path selection contains and which paths a pathspec matches.
"""
import math, os, re, subprocess, unicodedata
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

DIM = '\x1b[2m'; RESET = '\x1b[0m'; GREEN = '\x1b[32m'; RED = '\x1b[31m'; DEF = '\x1b[39m'; INV = '\x1b[7m'
NODIFF = '\0no-diff'
DAY = 86400


# ---------------------------------------------------------------- repositories
class Commit:
    __slots__ = ('idx', 'name', 'email', 'date', 'cdate', 'parents', 'diffs', 'tree', 'hash', 'stream', 'short', 'moves')

    @property
    def merge(self):
        return len(self.parents) > 1


def q(path):
    out = bytearray(b'"')
    for ch in os.fsencode(path):
        if ch in b'"\\':
            out += b'\\' + bytes([ch])
        elif ch < 32 or ch > 126:
            out += b'\\%03o' % ch
        else:
            out.append(ch)
    return bytes(out + b'"')


def commits_tree(h, i):
    return h.commits[i].tree


class History:
    """Builds up commits; each commit's per-file line counts are known by construction."""

    def __init__(self):
        self.commits = []
        self.refs = {}
        self.tags = {}
        self.branch = 'main'
        self.serial = 0
        self.files = {}      # untracked/working-tree files written after checkout
        self.mailmap = None
        self.gconfig = {}
        self.config = {}
        self.renames = True
        self.sha256 = False

    def _lines(self, n, path):
        r = []
        for _ in range(n):
            self.serial += 1
            r.append(b'%06d %s of some unique text\n' % (self.serial, re.sub(rb'[\r\n]', b'_', os.fsencode(path))))
        return r

    def commit(self, name='A', email='a@x', date=1600000000, ops=(), parents=None, cdate=None, committer=None, ref=None):
        c = Commit()
        c.idx = len(self.commits)
        c.name, c.email, c.date = name, email, date
        c.cdate = date if cdate is None else cdate
        if parents is None:
            parents = [c.idx - 1] if c.idx else []
        c.parents = parents
        tree = dict(self.commits[parents[0]].tree) if parents else {}
        diffs = {}
        moves = {}
        body = []

        def w(path, mode, data):
            tree[path] = (mode, data)
            body.append(b'M %s inline %s\ndata %d\n%s\n' % (mode, q(path), len(data), data))
        for op in ops:
            k = op[0]
            if k == '+':                                   # append n lines (creating the file)
                _, path, n = op
                mode, old = tree.get(path, (b'100644', b''))
                w(path, mode, old + b''.join(self._lines(n, path)))
                a, r = diffs.get(path, (0, 0))
                diffs[path] = (a + n, r)
            elif k == '-':                                 # remove last n lines
                _, path, n = op
                mode, old = tree[path]
                ls = old.splitlines(True)
                n = min(n, len(ls))
                if n == 0:
                    continue
                w(path, mode, b''.join(ls[:len(ls) - n]))
                a, r = diffs.get(path, (0, 0))
                diffs[path] = (a, r + n)
            elif k == '=':                                 # replace last r lines by a lines
                _, path, na, nr = op
                mode, old = tree[path]
                ls = old.splitlines(True)
                nr = min(nr, len(ls))
                w(path, mode, b''.join(ls[:len(ls) - nr]) + b''.join(self._lines(na, path)))
                diffs[path] = (na, nr)
            elif k == 'del':
                _, path = op
                mode, old = tree.pop(path)
                body.append(b'D %s\n' % q(path))
                diffs[path] = (0, 0 if b'\0' in old else len(old.splitlines()))
            elif k == 'mv':                                # pure rename, or rename plus n lines
                _, a, b = op[:3]
                n = op[3] if len(op) > 3 else 0
                mode, old = tree.pop(a)
                body.append(b'D %s\n' % q(a))
                w(b, mode, old + b''.join(self._lines(n, b)))
                diffs[b] = (n, 0)
                moves[b] = (a, (0, 0) if b'\0' in old else (len(old.splitlines()), len(tree[b][1].splitlines())))
            elif k == 'bin':
                _, path = op
                self.serial += 1
                mode, old = tree.get(path, (b'100644', b''))
                w(path, mode, b'\0bin%06d\n' % self.serial * 5)
                diffs[path] = (0, 0)
            elif k == 'empty':
                w(op[1], b'100644', b'')
                diffs[op[1]] = (0, 0)
            elif k == 'chmod':
                mode, old = tree[op[1]]
                w(op[1], b'100755' if mode == b'100644' else b'100644', old)
                diffs[op[1]] = (0, 0)
            elif k == 'link':
                self.serial += 1
                w(op[1], b'120000', b'target%06d' % self.serial)
                a, r = diffs.get(op[1], (0, 0))
                diffs[op[1]] = (1, 0)
            elif k == 'noeol':                             # one line without a newline at the end
                self.serial += 1
                w(op[1], b'100644', b'no newline %06d' % self.serial)
                diffs[op[1]] = (1, 0)
            elif k == 'bulk':                              # new file of n identical short lines
                _, path, n = op
                w(path, b'100644', b'x\n' * n)
                diffs[path] = (n, 0)
            elif k == 'take':                              # merge in the files of the op[1]-th parent
                for p, (mode, old) in commits_tree(self, parents[op[1]]).items():
                    if p not in tree:
                        w(p, mode, old)
            elif k == 'sub':                               # gitlink
                self.serial += 1
                h = b'%040x' % (self.serial + 1)
                r = 1 if op[1] in tree else 0
                tree[op[1]] = (b'160000', h)
                body.append(b'M 160000 %s %s\n' % (h, q(op[1])))
                diffs[op[1]] = (1, r)
            else:
                raise ValueError(op)
        c.tree = tree
        c.moves = moves
        c.diffs = [] if c.merge else sorted((p, a, r) for p, (a, r) in diffs.items())
        ref = ref or 'refs/heads/' + self.branch
        cn, ce = committer or ('Committer', 'committer@x')
        head = b'commit %s\nmark :%d\nauthor %s%s<%s> %d +0000\ncommitter %s <%s> %d +0000\ndata 1\nm\n' % (
            b'refs/gwv/tmp', c.idx + 1, os.fsencode(name), b' ' if name else b'', os.fsencode(email), c.date,
            os.fsencode(cn), os.fsencode(ce), c.cdate)
        if parents:
            head += b'from :%d\n' % (parents[0] + 1)
            for p in parents[1:]:
                head += b'merge :%d\n' % (p + 1)
        else:
            head = b'reset refs/gwv/tmp\n' + head
        c.stream = head + b''.join(body) + b'\n'
        c.hash = None
        self.commits.append(c)
        self.refs[ref] = c.idx
        return c.idx

    # ------------------------------------------------------------- realisation
    def build(self, path, head=None, checkout=True, home=None):
        return Repo(self, path, head, checkout, home)


GITENV_DROP = [k for k in os.environ if k.startswith('GIT_')]


def base_env(home, now=None, tz='UTC', **kw):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': home, 'LC_ALL': 'C.UTF-8',
         'GIT_CONFIG_NOSYSTEM': '1', 'TZ': tz, 'GIT_CEILING_DIRECTORIES': os.path.dirname(home), 'USER': 'u'}
    if now is not None:
        e['GWV_NOW'] = str(now)
        e['GIT_TEST_DATE_NOW'] = str(now)
    e.update(kw)
    return e


class Repo:
    def __init__(self, hist, path, head=None, checkout=True, home=None):
        self.h = hist
        self.path = path
        self.home = home or os.path.join(os.path.dirname(path), 'home')
        os.makedirs(self.home, exist_ok=True)
        g = os.path.join(path, '.git')
        for d in ('objects', 'refs/heads', 'refs/tags'):
            os.makedirs(os.path.join(g, d))
        with open(os.path.join(g, 'HEAD'), 'w') as f:
            f.write('ref: refs/heads/%s\n' % hist.branch)
        with open(os.path.join(g, 'config'), 'w') as f:
            f.write('[core]\n\trepositoryformatversion = %d\n\tfilemode = true\n\tbare = false\n[gc]\n\tauto = 0\n[user]\n\tname=U\n\temail=u@x\n' % (1 if hist.sha256 else 0))
            if hist.sha256:
                f.write('[extensions]\n\tobjectformat = sha256\n')
            for k, v in hist.config.items():
                f.write('[%s]\n\t%s = %s\n' % (k.rsplit('.', 1)[0], k.rsplit('.', 1)[1], v))
        self.env = base_env(self.home)
        self.imported = 0
        self.cache = {}
        self.sync(checkout)

    def git(self, *args, input=None, cwd=None, check=True, env=None):
        r = subprocess.run(['git', *args], cwd=cwd or self.path, env=env or self.env, input=input, capture_output=True)
        if check and r.returncode != 0:
            raise RuntimeError('git %r failed: %s' % (args, r.stderr.decode(errors='replace')))
        return r.stdout

    def sync(self, checkout=True):
        """Import commits added to the history since the last sync and update refs and working tree."""
        h = self.h
        if self.imported < len(h.commits):
            marks = os.path.join(self.path, '.git', 'gwv-marks')
            args = ['fast-import', '--quiet', '--force', '--export-marks=' + marks]
            if self.imported:
                args.append('--import-marks=' + marks)
            self.git(*args, input=b''.join(c.stream for c in h.commits[self.imported:]))
            with open(marks) as f:
                for line in f:
                    m, hx = line.split()
                    i = int(m[1:]) - 1
                    if i < len(h.commits):
                        h.commits[i].hash = hx
            self.imported = len(h.commits)
            try:
                os.unlink(os.path.join(self.path, '.git/refs/gwv/tmp'))
            except FileNotFoundError:
                pass
        for ref, idx in list(h.refs.items()) + [('refs/tags/' + t, i) for t, i in h.tags.items()]:
            p = os.path.join(self.path, '.git', ref)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(h.commits[idx].hash + '\n')
        if checkout and h.commits:
            self.git('reset', '-q', '--hard')
        for p, data in h.files.items():
            fp = os.path.join(self.path, p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, 'wb') as f:
                f.write(data if isinstance(data, bytes) else data.encode())
        self.cache.clear()
        self.byhash = {c.hash: c for c in h.commits}

    # --------------------------------------------------- what git itself defines
    def select(self, revs=('HEAD',), pathspecs=(), since='', until='', cwd='', now=None):
        key = ('sel', tuple(revs), tuple(pathspecs), since, until, cwd, now)
        if key not in self.cache:
            a = ['log', '--format=%H', '--reverse']
            if since:
                a.append('--since=' + since)
            if until:
                a.append('--until=' + until)
            env = dict(self.env)
            if now is not None:
                env['GIT_TEST_DATE_NOW'] = str(now)
            out = self.git(*a, *revs, '--', *pathspecs, cwd=os.path.join(self.path, cwd), env=env).decode().split()
            self.cache[key] = [self.byhash[x] for x in out]
        return self.cache[key]

    def _allindex(self):
        if 'allidx' not in self.cache:
            paths = set()
            for c in self.h.commits:
                paths.update(p for p, _, _ in c.diffs)
                paths.update(c.tree)
            idx = os.path.join(self.path, '.git', 'gwv-index')
            res = []
            # a path can be a file in one commit and a directory in another: several indexes
            left = sorted(paths)
            n = 0
            while left:
                cur, rest, have = [], [], set()
                for p in left:
                    if any(p.startswith(x + '/') or x.startswith(p + '/') for x in have):
                        rest.append(p)
                    else:
                        have.add(p)
                        cur.append(p)
                f = '%s%d' % (idx, n)
                n += 1
                inp = b''.join(b'100644 %s\t%s\0' % (b'1' * (64 if self.h.sha256 else 40), os.fsencode(p)) for p in cur)
                self.git('update-index', '-z', '--index-info', input=inp, env=dict(self.env, GIT_INDEX_FILE=f))
                res.append(f)
                left = rest
            self.cache['allidx'] = res
        return self.cache['allidx']

    def matched(self, pathspecs, cwd=''):
        """Set of all paths that ever existed which git says match, or None for all."""
        if not pathspecs:
            return None
        key = ('match', tuple(pathspecs), cwd)
        if key not in self.cache:
            ps = list(pathspecs)
            # (git ls-files gets excludes wrong when all includes share a prefix)
            ps.append(':/' if all(p.startswith(':') for p in ps) else ':(top,literal)no/such/path')
            got = set()
            for f in self._allindex():
                out = self.git('ls-files', '-z', '--full-name', '--', *ps, cwd=os.path.join(self.path, cwd),
                               env=dict(self.env, GIT_INDEX_FILE=f))
                got.update(os.fsdecode(x) for x in out.split(b'\0') if x)
            self.cache[key] = got
        return self.cache[key]

    def short(self, c):
        if 'short' not in self.cache:
            self.cache['short'] = dict(x.split() for x in self.git('log', '--all', '--format=%H %h').decode().splitlines())
        return self.cache['short'][c.hash]

    def lsfiles(self, pathspecs=(), cwd=''):
        key = ('ls', tuple(pathspecs), cwd)
        if key not in self.cache:
            out = self.git('ls-files', '-z', '--', *pathspecs, cwd=os.path.join(self.path, cwd))
            self.cache[key] = set(os.fsdecode(x) for x in out.split(b'\0') if x)
        return self.cache[key]


# ------------------------------------------------------------------- formatting
def number(n):
    if n > 100_000_000:
        return '>99m'
    if n >= 1_000_000:
        return '%.1fm' % f32(n / 1_000_000.0, n)
    if n >= 1000:
        return '%d,%03d' % (n // 1000, n % 1000)
    return str(n)


def f32(_, n):
    import struct
    f = struct.unpack('f', struct.pack('f', float(n)))[0] / 1_000_000
    return struct.unpack('f', struct.pack('f', f))[0]


def reltime(secs):
    d = secs
    h, day = 3600, DAY
    if d < h:
        return '%d min. ago' % int(d / 60)
    if d < day:
        n = int(d // h)
        return '%d hr. ago' % n if n > 1 else '%d hour ago' % n
    if d < 7 * day:
        n = int(d // day)
        return '%d days ago' % n if n > 1 else '%d day ago' % n
    if d < 30 * day:
        n = int(d // (7 * day))
        return '%d weeks ago' % n if n > 1 else '%d week ago' % n
    if d < 365 * day:
        n = int(d // (30 * day))
        return '%d mon. ago' % n if n > 1 else '%d month ago' % n
    n = int(d // (365 * day))
    if n > 99:
        return '>99 yr. ago'
    return '%d yr. ago' % n if n > 1 else '%d year ago' % n


def chw(ch):
    if unicodedata.combining(ch) or unicodedata.category(ch) in ('Mn', 'Me', 'Cf'):
        return 0
    return 2 if unicodedata.east_asian_width(ch) in 'WF' else 1


def width(s):
    return sum(chw(c) for c in s)


def clusters(s):
    out = []
    for ch in s:
        if out and chw(ch) == 0:
            out[-1] += ch
        else:
            out.append(ch)
    return out


def abbrev(s, mx):
    if len(os.fsencode(s)) == len(s):
        return s if len(s) <= mx else s[:mx - 1] + '…'
    if width(s) <= mx:
        return s
    w, out = mx - 1, ''
    for g in clusters(s):
        if width(g) > w:
            break
        w -= width(g)
        out += g
    return out + '…'


def padw(s, w):
    return s + ' ' * max(0, w - width(s))


def padr(s, w):
    return s + ' ' * max(0, w - len(s))


def padl(s, w):
    return ' ' * max(0, w - len(s)) + s


# ---------------------------------------------------------------------- tallies
class T:
    __slots__ = ('name', 'email', 'commits', 'files', 'add', 'rem', 'first', 'last')

    def __init__(self):
        self.name = self.email = ''
        self.commits = set(); self.files = set(); self.add = self.rem = 0
        self.first = None; self.last = None

    def see(self, c, name, email):
        self.name = min(x for x in (self.name, name) if x) if (self.name or name) else ''
        self.email = min(x for x in (self.email, email) if x) if (self.email or email) else ''
        self.commits.add(c.idx)
        self.first = c.date if self.first is None else min(self.first, c.date)
        self.last = c.date if self.last is None else max(self.last, c.date)

    def merge(self, o):
        r = T()
        for t in (self, o):
            r.name = min(x for x in (r.name, t.name) if x) if (r.name or t.name) else ''
            r.email = min(x for x in (r.email, t.email) if x) if (r.email or t.email) else ''
            r.commits |= t.commits; r.files |= t.files; r.add += t.add; r.rem += t.rem
            if t.first is not None:
                r.first = t.first if r.first is None else min(r.first, t.first)
                r.last = t.last if r.last is None else max(r.last, t.last)
        return r


def sort_key(t, mode, times=True):
    k = {'': len(t.commits), 'l': t.add + t.rem, 'f': len(t.files), 'm': t.last, 'c': -(t.first or 0)}[mode]
    return (-k, -(t.last or 0) if times else 0, os.fsencode(t.name), os.fsencode(t.email))


def rank(tallies, mode, times=True):
    return sorted(tallies, key=lambda t: sort_key(t, mode, times))


class Opt:
    """One command line in structured form."""

    def __init__(self, sub='table', mode='', email=False, merges=False, csv=False, limit=None, show_all=False, depth=None,
                 revs=(), paths=(), since='', until='', authors=(), nauthors=(), cwd='', dashdash=None, extra=(), explicit_sub=True):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def argv(self):
        a = [self.sub] if (self.sub != 'table' or self.explicit_sub) else []
        if self.mode:
            a.append('-' + self.mode)
        if self.email:
            a.append('-e')
        if self.merges:
            a.append('--merges')
        if self.csv:
            a.append('--csv')
        if self.limit is not None:
            a += ['-n', str(self.limit)]
        if self.show_all:
            a.append('-a')
        if self.depth is not None:
            a += ['-d', str(self.depth)]
        if self.since:
            a += ['--since', self.since]
        if self.until:
            a += ['--until', self.until]
        for x in self.authors:
            a += ['--author', x]
        for x in self.nauthors:
            a += ['--nauthor', x]
        a += list(self.extra)
        a += list(self.revs)
        dd = self.dashdash if self.dashdash is not None else bool(self.paths)
        if dd:
            a.append('--')
        a += list(self.paths)
        return a


def bre(p):
    """A basic regular expression (what git log --author takes) as one of Python's."""
    out, i, start, cls = '', 0, True, False
    while i < len(p):
        c = p[i]
        if c == '[':
            j = p.index(']', i + 2)
            out += p[i:j + 1].replace('\\', '\\\\')
            i = j + 1
            start = False
            continue
        if c == '\\' and i + 1 < len(p):
            i += 1
            out += p[i] if p[i] in '(){}|+?' else '\\' + p[i]
            start = p[i] in '(|'
        elif c in '(){}|+?' or (c == '*' and start) or (c == '^' and not start) or (c == '$' and i + 1 < len(p)):
            out += '\\' + c
            start = False
        else:
            out += c
            start = c == '^'
        i += 1
    return out


class Expect:
    """Expected output for one repository, environment and command line."""

    def __init__(self, repo, opt, now, tz='UTC', ignore=(), identity=None, revs_for_git=None):
        self.r, self.o, self.now = repo, opt, now
        self.tz = ZoneInfo(tz)
        self.identity = identity or (lambda n, e: (n, e))
        self.ignore = set(ignore)
        self.revs = list(revs_for_git if revs_for_git is not None else (opt.revs or ('HEAD',)))

    def commits(self):
        o = self.o
        sel = self.r.select(self.revs, o.paths, o.since, o.until, o.cwd, self.now)
        out = []
        for c in sel:
            if c.idx in self.ignore or c.hash in self.ignore:
                continue
            n, e = self.identity(c.name, c.email)
            ident = '%s <%s>' % (n, e)
            if o.authors and not any(re.search(p if o.nauthors else bre(p), ident) for p in o.authors):
                continue
            if any(re.search(p, ident) for p in o.nauthors):
                continue
            if not n and not e:
                continue
            if c.date > self.now:
                continue
            out.append((c, n, e))
        return out

    def key(self, n, e):
        return e if self.o.email else n

    def diffs(self, c):
        m = self.r.matched(self.o.paths, self.o.cwd)
        if m is None:
            return c.diffs
        out = []
        for p, a, r in c.diffs:
            if p in c.moves and not c.merge:       # git sees a rename only if both names are selected
                old, (before, after) = c.moves[p]
                if p in m and old not in m:
                    out.append((p, after, 0))
                    continue
                if p not in m and old in m:
                    out.append((old, 0, before))
                    continue
            if p in m:
                out.append((p, a, r))
        return out

    # -------------------------------------------------------------------- table
    def tallies(self):
        out = {}
        for c, n, e in self.commits():
            if c.merge and not self.o.merges:
                continue
            t = out.setdefault(self.key(n, e), T())
            t.see(c, n, e)
            for p, a, r in self.diffs(c):
                t.files.add(p); t.add += a; t.rem += r
        return list(out.values())

    def rfc(self, ts):
        d = datetime.fromtimestamp(ts, self.tz)
        off = d.utcoffset()
        s = d.strftime('%Y-%m-%dT%H:%M:%S')
        m = int(off.total_seconds() // 60)
        if off.total_seconds() == 0:
            return s + 'Z'
        return s + '%s%02d:%02d' % ('+' if m >= 0 else '-', abs(m) // 60, abs(m) % 60)

    def ranked(self):
        return rank(self.tallies(), self.o.mode)

    def table(self):
        o = self.o
        rows = self.ranked()
        limit = 10 if o.limit is None else o.limit
        hidden = 0
        if limit > 0 and limit < len(rows):
            hidden = len(rows) - limit
            rows = rows[:limit]
        diff = o.mode in ('l', 'f')
        if o.csv:
            hdr = ['name'] + (['email'] if o.email else []) + ['commits'] + (
                ['lines added', 'lines removed', 'files'] if diff else []) + ['last commit time', 'first commit time']
            out = [','.join(hdr)]
            for t in rows:
                rec = [t.name] + ([t.email] if o.email else []) + [str(len(t.commits))]
                if diff:
                    rec += [str(t.add), str(t.rem), str(len(t.files))]
                rec += [self.rfc(t.last), self.rfc(t.first)]
                out.append(','.join(csvq(x) for x in rec))
            return '\n'.join(out) + '\n'
        if not rows:
            return ''
        cw = 80 if diff or o.email else 55
        rule = '─' * (cw - 2)
        out = ['┌%s┐' % rule]
        if diff:
            out.append('│%s %s %s %s  %s│' % (padr('Author', cw - 49), padr('Last Edit', 11), padl('Commits', 7), padl('Files', 7), padl('Lines (+/-)', 17)))
        elif o.mode == 'c':
            out.append('│%s %s %s│' % (padr('Author', cw - 22), padr('First Edit', 11), padl('Commits', 7)))
        else:
            out.append('│%s %s %s│' % (padr('Author', cw - 22), padr('Last Edit', 11), padl('Commits', 7)))
        out.append('├%s┤' % rule)
        for i, t in enumerate(rows):
            alt = INV if len(rows) > 14 and i % 2 == 1 else ''
            aw = cw - 49 if diff else cw - 22
            a = t.name + (' <%s>' % t.email if o.email else '')
            a = padw(abbrev(a, aw), aw)
            if diff:
                lines = '%s%s%s / %s%s%s' % (GREEN, padl(number(t.add), 7), DEF, RED, padl(number(t.rem), 7), DEF)
                out.append('│%s%s %s %s %s  %s%s│' % (alt, a, padr(reltime(self.now - t.last), 11), padl(number(len(t.commits)), 7),
                                                   padl(number(len(t.files)), 7), lines, RESET))
            else:
                ts = t.first if o.mode == 'c' else t.last
                out.append('│%s%s %s %s%s│' % (alt, a, padr(reltime(self.now - ts), 11), padl(number(len(t.commits)), 7), RESET))
        if hidden:
            out.append('│%s│' % padr('...%s more...' % number(hidden), cw - 2))
        out.append('└%s┘' % rule)
        return '\n'.join(out) + '\n'

    # --------------------------------------------------------------------- tree
    def tree(self):
        o = self.o
        wtree = self.r.lsfiles((), o.cwd)
        root = Node(True)
        prefix = o.cwd + '/' if o.cwd else ''
        leaf = {}
        for c, n, e in self.commits():
            if c.merge and not o.merges:
                continue
            k = self.key(n, e)
            ds = self.diffs(c)
            if not ds:
                ds = [(NODIFF, 0, 0)]
            for p, a, r in ds:
                t = leaf.setdefault((p, k), T())
                t.see(c, n, e)
                if p != NODIFF or (self.diffs(c)):
                    t.files.add(p); t.add += a; t.rem += r
        some = False
        for (p, k), t in leaf.items():
            if not p.startswith(prefix):
                continue
            rel = p[len(prefix):]
            some = True
            root.insert(rel.split('/'), k, t, rel in wtree)
        if not some:
            return ''
        root.rank(o.mode)
        lines = []
        maxd = o.depth if o.depth else 100
        self._lines(root, '.', 0, '', [], maxd, lines)
        longest = max([len(l['indent']) + len(l['path']) for l in lines] or [0])
        start = longest + 4
        out = []
        for l in lines:
            if not l['show']:
                continue
            path = DIM + l['path'] + RESET if l['dimpath'] else l['path']
            if not l['tally']:
                out.append(l['indent'] + path)
                continue
            t = l['t']
            a = abbrev('<%s>' % t.email, 25) if o.email else abbrev(t.name, 25)
            sep = '.' * (start - len(l['indent']) - len(l['path']))
            if l['dir']:
                out.append('%s%s%s%s%s%s %s' % (l['indent'], path, DIM, sep, RESET, a, l['metric']))
            else:
                out.append('%s%s%s%s%s %s%s' % (l['indent'], path, DIM, sep, a, l['metric'], RESET))
        return ''.join(x + '\n' for x in out)

    def _metric(self, t):
        m = self.o.mode
        if m == '':
            return '(%s)' % number(len(t.commits))
        if m == 'f':
            return '(%s)' % number(len(t.files))
        if m == 'l':
            return '(%s%s%s / %s%s%s)' % (GREEN, number(t.add), DEF, RED, number(t.rem), DEF)
        return '(%s)' % reltime(self.now - (t.last if m == 'm' else t.first))

    def _lines(self, node, path, depth, last, final, maxd, lines):
        if path == NODIFF or depth > maxd:
            return
        if depth < maxd and len(node.ch) == 1:
            (k, v), = node.ch.items()
            # filepath.Join cleans, so the leading "." disappears
            p = k if path == '.' else path + '/' + k
            self._lines(v, p, depth + 1, last, final, maxd, lines)
            return
        ind = ''
        for i, f in enumerate(final):
            if i < len(final) - 1:
                ind += '    ' if f else '│   '
            else:
                ind += '└── ' if f else '├── '
        key = self.key(node.best.name, node.best.email)
        isdir = len(node.ch) > 0
        lines.append(dict(indent=ind, path=path + '/' if isdir else path, t=node.best, metric=self._metric(node.best),
                          show=node.inw or self.o.show_all, dir=isdir, dimpath=not node.inw,
                          tally=self.o.show_all or key != last or isdir))
        names = sorted(node.ch, key=lambda n: (0 if node.ch[n].ch else 1, os.fsencode(n)))
        vis = [n for n in names if n != NODIFF and (node.ch[n].inw or self.o.show_all)]
        lastn = vis[-1] if vis else (names[0] if names else None)
        for n in names:
            self._lines(node.ch[n], n, depth + 1, key, final + [n == lastn], maxd, lines)

    # --------------------------------------------------------------------- hist
    def day0(self, y, m, d):
        """First instant of a local calendar date, as unix time."""
        t = datetime(y, m, d, tzinfo=timezone.utc).timestamp()
        # walk local wall clock: find the smallest instant whose local date is >= (y,m,d)
        lo = int(t) - 2 * DAY
        hi = int(t) + 2 * DAY
        want = (y, m, d)

        def date(x):
            dd = datetime.fromtimestamp(x, self.tz)
            return (dd.year, dd.month, dd.day)
        while lo < hi:
            mid = (lo + hi) // 2
            if date(mid) >= want:
                hi = mid
            else:
                lo = mid + 1
        return lo

    def hist(self):
        o = self.o
        sel = self.commits()
        if not sel:
            return ''
        loc = lambda ts: datetime.fromtimestamp(ts, self.tz)
        firstd = min(loc(c.date).date() for c, _, _ in sel)
        first = self.day0(firstd.year, firstd.month, firstd.day)
        if not o.revs and not o.until:
            end = self.now
        else:
            ld = max(loc(c.date).date() for c, _, _ in sel)
            end = self.day0(ld.year, ld.month, ld.day)
        dur = end - first
        if dur > 5 * 365 * DAY:
            lab = lambda d: (d.year,)
            fmt = lambda k: '%04d' % k[0]
            nxt = lambda k: (k[0] + 1,)
            start = lambda k: self.day0(k[0], 1, 1)
        elif dur > 60 * DAY:
            lab = lambda d: (d.year, d.month)
            mons = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
            fmt = lambda k: '%s %04d' % (mons[k[1] - 1], k[0])
            nxt = lambda k: (k[0] + 1, 1) if k[1] == 12 else (k[0], k[1] + 1)
            start = lambda k: self.day0(k[0], k[1], 1)
        else:
            lab = lambda d: (d.year, d.month, d.day)
            fmt = lambda k: '%04d-%02d-%02d' % k

            def nxt(k):
                n = (datetime(*k) + timedelta(days=1))
                n = (n.year, n.month, n.day)
                # dates that do not exist at all in this zone are skipped
                while lab(loc(self.day0(*n))) != n:
                    n2 = datetime(*n) + timedelta(days=1)
                    n = (n2.year, n2.month, n2.day)
                return n
            start = lambda k: self.day0(*k)
        rows = []
        k = lab(firstd)
        while start(k) <= end:
            rows.append(k)
            k = nxt(k)
        buckets = {k: {} for k in rows}
        for c, n, e in sel:
            if c.merge and not o.merges:
                continue
            b = buckets[lab(loc(c.date).date())]
            t = b.setdefault(self.key(n, e), T())
            t.see(c, n, e)
            for p, a, r in self.diffs(c):
                t.files.add(p); t.add += a; t.rem += r
        val = {'': lambda t: len(t.commits), 'l': lambda t: t.add + t.rem, 'f': lambda t: len(t.files)}[o.mode]
        total = {}
        for k in rows:
            u = T()
            for t in buckets[k].values():
                u = u.merge(t)
            total[k] = val(u)
        mx = max([36] + list(total.values()))
        out, last = [], ''
        for k in rows:
            b = list(buckets[k].values())
            w = rank(b, o.mode, times=False)[0] if b else None
            v = val(w) if w else 0
            if v <= 0:
                out.append('%s ┤ ' % fmt(k))
                continue
            cv = math.ceil((v / mx) * 36)
            ct = math.ceil((total[k] / mx) * 36)
            if o.mode == '':
                metric = '(%s)' % number(len(w.commits))
            elif o.mode == 'f':
                metric = '(%s)' % number(len(w.files))
            else:
                metric = '(%s%s%s / %s%s%s)' % (GREEN, number(w.add), DEF, RED, number(w.rem), DEF)
            a = abbrev('<%s>' % w.email, 25) if o.email else abbrev(w.name, 25)
            part = '%s %s' % (a, metric)
            if w.name == last:
                part = DIM + part + RESET
            out.append('%s ┤ %s%s%s%s  %s' % (fmt(k), '#' * cv, DIM, padr('-' * (ct - cv), 36 - cv), RESET, part))
            last = w.name
        return ''.join(x + '\n' for x in out)

    # -------------------------------------------------------------------- parse
    def parse(self):
        o = self.o
        mons = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
        out = []
        cs = self.commits()
        for c, n, e in cs:
            d = datetime.fromtimestamp(c.date, self.tz)
            out.append('{ hash:%s author:%s <%s> date:%s %d, %d merge:%s }\n' % (self.r.short(c), n, e, mons[d.month - 1], d.day, d.year, 'true' if c.merge else 'false'))
            if '-s' not in o.extra:
                # (in the order of the names Git sorts by)
                out += ['  { path:"%s" added:%d removed:%d }\n' % x for x in sorted(self.diffs(c), key=lambda x: os.fsencode(x[0]))]
            out.append('\n')
        return ''.join(out) + 'Parsed %d commits.\n' % len(cs)

    def stdout(self):
        return {'parse': self.parse, 'table': self.table, 'tree': self.tree, 'hist': self.hist}[self.o.sub]()


class Node:
    __slots__ = ('ch', 'inw', 't', 'best')

    def __init__(self, inw):
        self.ch = {}; self.inw = inw; self.t = {}; self.best = None

    def insert(self, parts, k, t, inw):
        if not parts:
            self.t[k] = t
            return
        c = self.ch.get(parts[0])
        if c is None:
            c = self.ch[parts[0]] = Node(inw)
        c.inw = c.inw or inw
        c.insert(parts[1:], k, t, inw)

    def rank(self, mode):
        for c in self.ch.values():
            c.rank(mode)
            for k, t in c.t.items():
                self.t[k] = self.t[k].merge(t) if k in self.t else t
        self.best = rank(self.t.values(), mode)[0]


def csvq(s):
    # encoding/csv: quote when the field contains a comma, quote, CR, LF, starts with a space, or is \.
    if s == '':
        return ''
    if s == '\\.' or any(ch in s for ch in ',"\r\n') or s[0].isspace():
        return '"' + s.replace('"', '""') + '"'
    return s
