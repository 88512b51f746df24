"""C28: the environment and the way a command is started do not change its answer."""
import itertools
import e2e
from gen import *

T0 = NOW - 30 * DAY


def history(renames=True):
    return [who(A, date=T0, ops=[('+', 'x', 3), ('+', 'd/y', 2), ('bin', 'd/b')]), who(B, date=T0 + DAY, ops=[('mv', 'd/y', 'd/z', 1) if renames else ('+', 'd/z', 1), ('+', 'd/e/x', 2)]),
            who(C, date=T0 + 2 * DAY, ops=[('+', '[d]/q', 2), ('+', 'D', 4), ('+', '*x', 1), ('+', 'd*', 3)], parents=[0]), who(A, date=T0 + 3 * DAY, parents=[1, 2], ops=[('take', 1)]),
            who(('José', 'j@é'), date=T0 + 4 * DAY, ops=[('+', '[d]/q', 1), ('+', 'd/z', 1), ('+', 'd*', 1), ('+', 'e/X', 1), ('+', 'e/x', 2)]), who(B, date=T0 + 5 * DAY, ops=[('+', ':q', 1), ('+', 'x', 1), ('del', 'D')])]


LINES, TREE, TREEA = dict(csv=True, mode='l', limit=0), dict(sub='tree'), dict(sub='tree', mode='l', show_all=True)
PARSE, HIST, BYNAME = dict(sub='parse'), dict(sub='hist', mode='f'), dict(csv=True, mode='f', limit=0, authors=['é'], email=True)

# settings that must make no difference
NEUTRAL = [dict((kv.split('=', 1),)) for kv in '''GIT_PAGER=false|PAGER=false|GIT_PAGER_IN_USE=true|GIT_TRACE=1|GIT_TRACE=2|GIT_TRACE2=1|GIT_TRACE_SETUP=1|GIT_TRACE_PERFORMANCE=1|GIT_TRACE2_EVENT=1|GIT_TRACE={W}/trace|GIT_EXTERNAL_DIFF=/bin/false|GIT_DIFF_OPTS=-u0
GIT_DIFF_OPTS=--unified=9|LC_ALL=C|LC_ALL=de_DE.UTF-8|LC_ALL=tr_TR.UTF-8|LC_ALL=|LANG=ja_JP.eucJP|LANGUAGE=de|COLUMNS=10|LINES=2|TERM=dumb|TERM=|TERM=xterm-256color|NO_COLOR=1|CLICOLOR_FORCE=1|FORCE_COLOR=1|GIT_PREFIX=d/|GIT_OPTIONAL_LOCKS=0|GIT_NAMESPACE=foo
GIT_DEFAULT_HASH=sha256|GIT_CONFIG_PARAMETERS='log.showroot=false'|GIT_CONFIG_PARAMETERS='color.ui=always' 'diff.relative=true'|GIT_ATTR_SOURCE=HEAD|GIT_FLUSH=1|GIT_FLUSH=0|GIT_REDIRECT_STDERR=2>&1|GIT_TRACE_PACKET=1|GIT_NOTES_REF=refs/notes/x|GIT_DIFF_PATH_TOTAL=1
GIT_DIFF_PATH_COUNTER=1|XDG_CONFIG_HOME=/nonexistent|GIT_ADVICE=0|GIT_CONFIG_GLOBAL=/dev/null|GIT_CONFIG_SYSTEM=/dev/null|GIT_REF_PARANOIA=1|GIT_GRAFT_FILE=/dev/null|GIT_IMPLICIT_WORK_TREE=1|GIT_CEILING_DIRECTORIES={W}|GIT_CEILING_DIRECTORIES=|GIT_NO_REPLACE_OBJECTS=1
GIT_REPLACE_REF_BASE=refs/x|GIT_EXEC_PATH=/usr/lib/git-core|GIT_AUTHOR_NAME=Nobody|GIT_AUTHOR_EMAIL=n@x|GIT_AUTHOR_DATE=@1 +0000|GIT_COMMITTER_NAME=Nobody|EMAIL=n@x|GIT_EDITOR=false|GIT_SEQUENCE_EDITOR=false|GIT_ASKPASS=false|GIT_SSH=false|GIT_TERMINAL_PROMPT=0
GIT_MERGE_VERBOSITY=5|GIT_REFLOG_ACTION=x|GIT_INDEX_VERSION=4|GIT_INDEX_FILE={R}/.git/index|GIT_DIR={R}/.git|GIT_OBJECT_DIRECTORY={R}/.git/objects|GIT_ALTERNATE_OBJECT_DIRECTORIES={R}/none|GIT_COMMON_DIR={R}/.git|GIT_LITERAL_PATHSPECS=0|GIT_ICASE_PATHSPECS=no
GIT_GLOB_PATHSPECS=false|GIT_NOGLOB_PATHSPECS=|GIT_WHO=1|GIT_WHO_LOG_LEVEL=error|LESS=FRX|LV=-c|DIFF=x|GIT_PROTOCOL=version=2|GIT_ALLOW_PROTOCOL=none|GIT_DISCOVERY_ACROSS_FILESYSTEM=1|GIT_FORCE_UNTRACKED_CACHE=1|GIT_TEXTDOMAINDIR=/nonexistent|GIT_PRINT_SHA1_ELLIPSIS=yes
HOME=|HOME=/nonexistent|USER=|PWD=/|OLDPWD=/|SHELL=/bin/false|TMPDIR=/nonexistent|GOGC=1|GOGC=off|GOMEMLIMIT=20MiB|GODEBUG=madvdontneed=1|GODEBUG=asyncpreemptoff=1|GOTRACEBACK=crash|GIT_SSL_NO_VERIFY=1|MANWIDTH=20|EDITOR=false|VISUAL=false|BASH_ENV=/nonexistent|ENV=/nonexistent|IFS=x|CDPATH=/'''.replace('\n', '|').split('|')]
NEUTRAL += [dict(GIT_DIR='{R}/.git', GIT_WORK_TREE='{R}'), dict(GIT_CONFIG_COUNT='1', GIT_CONFIG_KEY_0='diff.noprefix', GIT_CONFIG_VALUE_0='true'), dict(GIT_DIR='{R}/.git', GIT_WORK_TREE='{R}', GIT_INDEX_FILE='{R}/.git/index', GIT_PREFIX='d/')]
ATTOP = ('GIT_DIR', 'GIT_COMMON_DIR')           # these make the current directory the top one


def sh(script):
    return ['sh', '-c', script, 'sh']


# (how it is started, from where in the repository, and in which directory it should then be)
FORMS = [(v, a, b) for v, where in [
    (['git', 'who'], ['', 'd', 'd/e']), (['{gw}'], ['', 'd']), (['git', '-p', 'who'], ['', 'd']), (['git', '--no-pager', 'who'], ['', 'd']), (['git', '--no-optional-locks', 'who'], ['', 'd']), (['git', '--no-replace-objects', 'who'], ['']),
    (['git', '-c', 'core.pager=false', 'who'], ['', 'd']), (['git', '-c', 'color.ui=always', '-c', 'log.showRoot=false', 'who'], ['', 'd']), (['git', '-c', 'alias.w=who', 'w'], ['', 'd']),
    (['git', '-c', 'alias.w=!cd "${GIT_PREFIX:-.}" && git who', 'w'], ['', 'd']), (['git', '--namespace=x', 'who'], ['', 'd']), (['git', '--exec-path=/usr/lib/git-core', 'who'], ['']),
    (['git', '--git-dir={R}/.git', '--work-tree={R}', 'who'], ['', 'd']), (['git', '-C', '.', 'who'], ['', 'd']), (['nice', 'git', 'who'], ['']), (['env', 'git', 'who'], ['d']),
    (sh('exec git who "$@" <&-'), ['', 'd']), (sh('echo HEAD~3 | git who "$@"'), ['', 'd']), (sh('exec git who "$@" </dev/zero'), ['']), (sh('exec git who "$@" <.'), ['']), (sh('exec git who "$@" 2>&-'), ['', 'd']), (sh('exec git who "$@" 2>/dev/full'), ['']),
    (sh('exec git who "$@" 3</dev/null 4<&3 5<&3 9<&3'), ['']), (sh('git who "$@" | cat'), ['', 'd']), (sh('trap "" INT TERM HUP PIPE CHLD; git who "$@"'), ['']), (sh('umask 777; git who "$@"'), ['']), (sh('umask 0; git who "$@"'), ['']), (sh('(git who "$@" & wait)'), ['']),
    (sh('ulimit -c 0; exec git who "$@"'), ['']), (['git', '-c', 'core.hooksPath={W}/hooks', 'hook', 'run', '--ignore-missing', 'none'], [])] for a in where for b in [a]]
FORMS += [(['git', '-C', '{R}/d', 'who'], '..', 'd'), (['git', '-C', 'd', '-C', 'e', 'who'], '', 'd/e'), (['git', '-C', '..', 'who'], 'd', ''), (['git', '--git-dir=.git', 'who'], '', ''), (['git', '--git-dir=../.git', '--work-tree=..', 'who'], 'd', 'd'),
          (['git', '-c', 'alias.w=!git who', 'w'], 'd', ''), (['git', '-c', 'alias.w=!git-who', 'w'], 'd/e', ''), (['git', '-c', 'alias.w=!git --no-pager who', 'w'], 'd', ''),
          (sh('cd {W}/link/d && exec git who "$@"'), '..', 'd'), (sh('cd {W}/link && exec {gw} "$@"'), '..', ''), (sh('cd {W}/link/d/../d/e && exec git who "$@"'), '..', 'd/e'), (sh('cd -P {W}/link/d && exec git who "$@"'), '..', 'd'),
          (['env', 'GIT_DIR={W}/link/.git', 'GIT_WORK_TREE={W}/link', 'git', 'who'], '', ''), (['env', 'GIT_DIR=../.git', 'GIT_WORK_TREE=..', 'git', 'who'], 'd', 'd'),
          (sh('mkdir -p {W}/hooks; printf \'#!/bin/sh\\nexec git who "$@"\\n\' > {W}/hooks/who.tmp.$$; chmod +x {W}/hooks/who.tmp.$$; mv {W}/hooks/who.tmp.$$ {W}/hooks/post-commit; git -c core.hooksPath={W}/hooks hook run post-commit -- "$@" 2>&1'), 'd', '')]

PATHS = ['d', '[d]', '[d]/q', '*x', 'D', './d', '*X', ':!d', ':!*x', ':(exclude)[d]', 'd/*', 'd*', '\\[d]', 'd/y', ':q', './:q', '.', '*', 'e/X', 'E', 'd/e/', '?']
SETTINGS = ['GIT_LITERAL_PATHSPECS', 'GIT_NOGLOB_PATHSPECS', 'GIT_GLOB_PATHSPECS', 'GIT_ICASE_PATHSPECS']


def chunks(cmds, walks, n=24, renames=True, **kw):
    for i in range(0, len(cmds), n):
        yield dict(commits=history(renames), now=NOW, cmds=cmds[i:i + n], walks=walks, **kw)


def environments(quick):
    cmds = []
    for e in NEUTRAL:
        cmds += [dict(opt=o, env=e) for o in (LINES, TREE, TREEA, PARSE, HIST, BYNAME)] + ([] if set(e) & set(ATTOP) and 'GIT_WORK_TREE' not in e else [dict(opt=dict(o, cwd='d', paths=p), env=e) for o in (LINES, TREE, HIST) for p in ([], ['.'], ['../x', 'e'])])
    for u in (['HOME'], ['HOME', 'XDG_CACHE_HOME', 'USER'], ['LC_ALL'], ['GIT_CONFIG_NOSYSTEM'], ['TZ'], ['USER']):
        cmds += [dict(opt=o, unset=u, env=dict(GIT_WHO_DISABLE_CACHE='1') if 'XDG_CACHE_HOME' in u else {}) for o in (LINES, TREE, PARSE)]
    yield from chunks(cmds, ['seq', 'par', 'warm'], files={'.mailmap': 'Robert <r@x> Bob <b@x>\n'}, identity=[['Robert', 'r@x', 'Bob', 'b@x']])
    if not quick:
        flat = [e for e in NEUTRAL if not (set(e) & set(ATTOP))]
        yield from chunks([dict(opt=dict(o, cwd='d'), env=dict(a, **b)) for a, b in itertools.combinations(flat, 2) if not set(a) & set(b) for o in (LINES, TREE)], ['par'], 60)


def forms(quick):
    cmds = []
    for via, at, cwd in FORMS:
        for o in (LINES, TREE, TREEA, HIST, PARSE, BYNAME):
            for p in ([], ['.'], ['e', ':!z'], ['*x']) if o in (LINES, TREE) or not quick else ([],):
                c = dict(opt=dict(o, cwd=cwd, paths=p), via=via, env={})
                if at != cwd:
                    c['from'] = at
                cmds.append(c)
    yield from chunks(cmds, ['seq', 'par', 'warm'])
    limits = [dict(opt=o, via=sh('ulimit -n %d; exec {gw} "$@"' % n), env={}, or_fail=True) for n in range(3, 40 if quick else 80) for o in (LINES, TREE, HIST, PARSE)]
    limits += [dict(opt=o, via=sh('ulimit -f %d; exec {gw} "$@"' % n), env={}, or_fail=True) for n in range(3) for o in (LINES, TREE, HIST, PARSE)]
    yield from chunks(limits, ['seq', 'par', 'cold', 'warm'])


def pathspecs(quick):
    cmds = []
    for v in SETTINGS:
        for x in ('1', 'true') if quick else ('1', 'true', 'YES', 'on', '2'):
            for ps in [(p,) for p in PATHS] + ([] if quick and x != '1' else list(itertools.combinations(PATHS, 2))):
                # the setting is heeded as Git does, or refused
                refused = v == 'GIT_ICASE_PATHSPECS' or v == 'GIT_GLOB_PATHSPECS' and any(c in p for p in ps for c in '*?[\\') or v == 'GIT_LITERAL_PATHSPECS' and any(p[0] == ':' for p in ps) or any(p[0] == ':' and p[1] not in '!(^' for p in ps)
                for o in ((LINES, TREEA, HIST) if x == '1' and len(ps) == 1 else (LINES,)):
                    cmds.append(dict(opt=dict(o, paths=list(ps)), env={v: x}, git_env={v: x}, **(dict(fail=True) if refused and any(p[0] == ':' and p[1] not in '!(^' for p in ps) else dict(or_fail=True) if refused else {})))
                    if len(ps) == 1 and x == '1' and o is LINES:
                        cmds.append(dict(cmds[-1], opt=dict(o, paths=list(ps), cwd='d')))
                        cmds.append(dict(cmds[-1], opt=dict(o, paths=list(ps), cwd='[d]')))
    yield from chunks(cmds, ['seq', 'par', 'warm'], renames=False)          # (renames across paths: see known_findings.json)


def run(ck):
    ck.cov['rule'] = ('%d settings of the environment that must not matter, %d ways of starting a command, limits on open files and file sizes, and Git\'s settings for pathspecs with all singles and pairs of an alphabet of pathspecs, '
                      'each with several commands, sequential, parallel and from a cache; byte for byte against the model' % (len(NEUTRAL), len(FORMS)))
    e2e.explore(ck, environments(ck.quick), what='environments')
    e2e.explore(ck, forms(ck.quick), what='ways of starting')
    e2e.explore(ck, pathspecs(ck.quick), what='settings for pathspecs')


replay = e2e.replay
