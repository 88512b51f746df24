"""Exhaustive generators of small histories."""
import itertools

NOW = 1700000030
DAY = 86400
A = ('Alice', 'a@x')
B = ('Bob', 'b@x')
C = ('Cyd', 'c@x')


def apply(tree, ops):
    """Effect of ops on {path: lines or 'bin'/'sub'/'link'}; None when an op is not possible."""
    t = dict(tree)

    def clash(p):
        return any(x.startswith(p + '/') or p.startswith(x + '/') for x in t)
    for op in ops:
        k, p = op[0], op[1]
        have = t.get(p)
        if k == '+':
            if have is None:
                if clash(p):
                    return None
                t[p] = op[2]
            elif isinstance(have, int):
                t[p] = have + op[2]
            else:
                return None
        elif k == '-':
            if not isinstance(have, int) or have < op[2]:
                return None
            t[p] = have - op[2]
        elif k == '=':
            if not isinstance(have, int) or have < op[3]:
                return None
            t[p] = have - op[3] + op[2]
        elif k == 'del':
            if have is None or have == 'sub':
                return None
            del t[p]
        elif k == 'mv':
            n = op[3] if len(op) > 3 else 0
            # git detects the rename when at least half of the content stays
            if not isinstance(have, int) or have == 0 or n > have // 2 or op[2] in t:
                return None
            del t[p]
            if clash(op[2]):
                return None
            t[op[2]] = have + n
        elif k in ('bin', 'noeol', 'link'):
            if have is not None and have != k:
                return None
            if have == 'noeol' or have == 'link':
                return None
            if clash(p):
                return None
            t[p] = k
        elif k == 'empty':
            if have is not None or clash(p):
                return None
            t[p] = 0
        elif k == 'chmod':
            if not isinstance(have, int):
                return None
            # the mode is not tracked here: allow it once per path
            if (p, 'x') in t.get('', ()):
                return None
        else:
            return None
    return t


def sequences(depth, alphabet, first=None, tree=None):
    """All sequences of exactly `depth` items (anything with item['ops']) whose file operations are possible."""
    def rec(prefix, t):
        if len(prefix) == depth:
            yield list(prefix)
            return
        for it in (first if first is not None and not prefix else alphabet):
            t2 = apply(t, it.get('ops', ()))
            if t2 is None:
                continue
            prefix.append(it)
            yield from rec(prefix, t2)
            prefix.pop()
    yield from rec([], dict(tree or {}))


def commits(seq, dates):
    out = []
    for it, d in zip(seq, dates):
        c = dict(it)
        c['date'] = d
        out.append(c)
    return out


def who(a, **kw):
    return dict(name=a[0], email=a[1], **kw)


def product_opts(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))
