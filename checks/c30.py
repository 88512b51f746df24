"""C30: how Git stores a repository, and where a checkout of it is, does not change an answer."""
import itertools
import e2e
from gen import *

T0 = NOW - 30 * DAY


def history():
    return [who(A, date=T0, ops=[('+', 'x', 3), ('+', 'd/y', 2), ('bin', 'd/b')]), who(B, date=T0 + DAY, ops=[('mv', 'd/y', 'd/z', 1), ('+', 'd/e/x', 2)]),
            who(C, date=T0 + 2 * DAY, ops=[('+', 'f/q', 2), ('+', 'D', 4)], parents=[0]), who(A, date=T0 + 3 * DAY, parents=[1, 2], ops=[('take', 1)]),
            who(('José', 'j@é'), date=T0 + 4 * DAY, ops=[('+', 'f/q', 1), ('+', 'd/z', 1), ('+', '.mailmap', 1)]), who(B, date=T0 + 5 * DAY, ops=[('mv', 'd/e/x', 'f/x', 1), ('+', 'x', 2)]),
            who(C, date=T0 + 6 * DAY, ops=[('del', 'D'), ('+', 'd/e/é', 1), ('+', 'x', 1)])]


LINES, LAST, TREE, TREEA = dict(csv=True, mode='l', limit=0), dict(csv=True, mode='m', limit=0, email=True), dict(sub='tree'), dict(sub='tree', mode='l', show_all=True)
PARSE, HIST, SOME = dict(sub='parse'), dict(sub='hist', mode='f'), dict(csv=True, mode='f', limit=0, authors=['é|b@'], since='@%d' % (T0 + DAY))
CMDS = [LINES, TREE, TREEA, PARSE, HIST, SOME, dict(LAST, cwd='d'), dict(LINES, cwd='d', paths=['e', '../f']), dict(TREE, cwd='d/e'), dict(LINES, paths=['d', ':!d/e']), dict(TREE, cwd='d', revs=['HEAD~2']), dict(HIST, paths=['x']), dict(LINES, revs=['HEAD~3..'])]


def do(script):
    return ['-c', 'alias.do=!set -e; ' + script, 'do']


# what can be done to a repository without changing its history or the list of its files
STEPS = dict(
    loose=do('mkdir ../pk; for p in .git/objects/pack/*.pack; do test -e "$p" || continue; mv "$p" ../pk/; rm -f "${p%.pack}".*; done; for p in ../pk/*.pack; do test -e "$p" || continue; git unpack-objects -q <"$p"; done; rm -r ../pk'),
    packed=['repack', '-adq'], tight=['repack', '-adfq', '--depth=50', '--window=50'], bitmap=['repack', '-adbq'], cruft=['gc', '-q', '--cruft', '--prune=now'], gc=['gc', '-q'],
    manypacks=do('git rev-list HEAD | while read c; do git rev-list --objects $c | cut -c1-40 | git pack-objects -q .git/objects/pack/pack >/dev/null; done; git prune-packed -q'),
    midx=do('git repack -dq; git multi-pack-index write'), promisor=do('git repack -adq; for p in .git/objects/pack/*.pack; do : >"${p%.pack}.promisor"; done; git config remote.o.promisor true; git config remote.o.url ../none; git config core.repositoryFormatVersion 1; git config extensions.partialClone o'),
    graph=['commit-graph', 'write', '--reachable'], paths=['commit-graph', 'write', '--reachable', '--changed-paths'], split=['commit-graph', 'write', '--reachable', '--split'], packrefs=['pack-refs', '--all'],
    index2=['update-index', '--index-version', '2'], index4=['update-index', '--index-version', '4'], splitindex=['update-index', '--split-index'], untracked=['update-index', '--force-untracked-cache'],
    noindexhash=do('git config index.skipHash true; git update-index --force-write-index'), assume=['update-index', '--assume-unchanged', 'x', 'd/z'], skip=['update-index', '--skip-worktree', 'x', 'f/q'],
    cone=['sparse-checkout', 'set', '--cone', 'd/e'], nocone=['sparse-checkout', 'set', '--no-cone', '/d/', '!/d/z'], sparseindex=['sparse-checkout', 'set', '--cone', '--sparse-index', 'd/e'],
    detached=['checkout', '-q', '--detach'], other=['checkout', '-q', '-b', 'a/b-\u00e9'], oddref=do('git update-ref refs/x/y HEAD; git symbolic-ref HEAD refs/x/y'),
    tags=do('git tag x HEAD~1; git tag -a -m t HEAD HEAD~2 2>/dev/null || git tag -a -m t head HEAD~2; git tag d; git update-ref refs/remotes/origin/HEAD HEAD~3; git branch f HEAD~1'),
    notes=['notes', 'add', '-m', 'Author: Nobody <n@x>'], stash=do('echo 1 >>x; git stash -q'), dirty=do('echo 1 >>x; echo 2 >d/z; git add x; rm f/q'), untrackedfiles=do('echo 1 >new; mkdir -p n/m; echo 2 >n/m/o; echo 3 >d/new'), gone=do('rm -rf x d/z f; mkdir x; echo 1 >x/x'),
    worktreeconfig=do('git config extensions.worktreeConfig true; git config --worktree core.quotePath false'), fsmonitor=do('git config core.fsmonitor true'), hook=do('mkdir -p .git/hooks; printf "#!/bin/sh\\nprintf %s\\\\\\\\0/\\\\\\\\0 t\\n" >.git/hooks/f; chmod +x .git/hooks/f; git config core.fsmonitor .git/hooks/f'),
    preload=do('git config core.preloadIndex false; git config pack.threads 1; git config core.multiPackIndex false; git config core.commitGraph false'), big=do('git config core.packedGitLimit 1; git config core.packedGitWindowSize 1; git config core.deltaBaseCacheLimit 0'),
    many=do('git config feature.manyFiles true'), experimental=do('git config feature.experimental true'), included=do('git config include.path ../../inc; printf "[core]\\n\\tquotePath = true\\n" >../inc'), onbranch=do('git config includeIf.gitdir:**.path ../../inc2; printf "[diff]\\n\\trelative = true\\n[log]\\n\\tshowRoot = false\\n" >../inc2'),
    rerere=do('git config rerere.enabled true; mkdir -p .git/rr-cache'), bisect=do('git bisect start -q HEAD HEAD~3 >/dev/null; git checkout -q "$(cat .git/BISECT_START)"'), merging=do('git rev-parse HEAD~1 >.git/MERGE_HEAD; echo m >.git/MERGE_MSG'), rebasing=do('mkdir .git/rebase-merge; git rev-parse HEAD >.git/rebase-merge/onto; echo refs/heads/x >.git/rebase-merge/head-name; git rev-parse HEAD >.git/ORIG_HEAD'),
    lock=do(': >.git/index.lock'), headlock=do(': >.git/HEAD.lock; : >.git/packed-refs.lock; : >.git/config.lock; : >.git/shallow.lock'), junk=do('echo junk >.git/objects/pack/tmp_pack_x; mkdir -p .git/objects/zz; echo junk >.git/objects/zz/a; echo junk >.git/refs/junk.lock'),
    extraalternates=do('mkdir -p .git/objects/info; git init -q --bare ../alt; echo "$(cd ../alt && pwd)/objects" >.git/objects/info/alternates'), badalternates=do('mkdir -p .git/objects/info; echo /nonexistent/objects >.git/objects/info/alternates'), exclude=do('mkdir -p .git/info; echo "*" >.git/info/exclude'), ignore=do('printf "*\\n" >.gitignore'),
)

# where the checkout is that a command is run in, relative to the repository, and how it comes to be there
PLACES = dict(
    here=(None, '.'),
    worktree=(do('git worktree add -q --detach ../wt/r HEAD'), '../wt/r'),
    worktreeinside=(do('git worktree add -q ../wtb/r -b wtb; git worktree lock ../wtb/r'), '../wtb/r'),
    clone=(do('git clone -q . ../cl'), '../cl'),
    shared=(do('git clone -q --shared . ../sh'), '../sh'),
    reference=(do('git clone -q --reference . "file://$PWD" ../rf'), '../rf'),
    partial=(do('git config uploadpack.allowFilter true; git config uploadpack.allowAnySHA1InWant true; git clone -q --no-local --filter=blob:none "file://$PWD" ../pt'), '../pt'),
    treeless=(do('git config uploadpack.allowFilter true; git config uploadpack.allowAnySHA1InWant true; git clone -q --no-local --filter=tree:0 "file://$PWD" ../tl'), '../tl'),
    separate=(do('git clone -q --separate-git-dir=../sep.git . ../sp'), '../sp'),
    submodule=(do('git init -q ../sup; git -C ../sup -c protocol.file.allow=always submodule --quiet add "$PWD" m/r'), '../sup/m/r'),
    absorbed=(do('git clone -q . ../ab; git clone -q . ../ab/n; cd ../ab; git -c advice.addEmbeddedRepo=false add n; git submodule --quiet absorbgitdirs 2>/dev/null || :'), '../ab/n'),
    copied=(do('cp -a . ../cp'), '../cp'),
    odd=(do('mkdir -p "../o d/\u00e9 [x]*"; git clone -q . "../o d/\u00e9 [x]*/-r"'), '../o d/\u00e9 [x]*/-r'),
    inside=(do('git init -q ../in; git clone -q . ../in/r'), '../in/r'),
    bundle=(do('git bundle create -q ../b.bundle HEAD; git clone -q ../b.bundle ../bu 2>/dev/null || { git init -q ../bu; cd ../bu; git fetch -q ../b.bundle HEAD; git reset -q --hard FETCH_HEAD; }'), '../bu'),
    mirror=(do('git clone -q --mirror . ../mi.git; git --git-dir=../mi.git worktree add -q --detach ../mw HEAD'), '../mw'),
    linkedgit=(do('git clone -q . ../lg; mv ../lg/.git ../lg.git; ln -s ../lg.git ../lg/.git'), '../lg'),
)


def spec(steps, place, cmds, walks):
    make, at = PLACES[place]
    after = [STEPS[s] for s in steps] + ([make] if make else [])
    out = []
    for o in cmds:
        c = dict(opt=o)
        if at != '.':
            c.update(via=['{gw}'], env={}, **{'from': '%s/%s' % (at, o.get('cwd', ''))})
        out.append(c)
    return dict(commits=history(), now=NOW, cmds=out, walks=walks, git_after=after, label='%s, in %s' % (', '.join(steps) or 'nothing', place), unless_impossible=[at, 'log', '--numstat', '--oneline', 'HEAD'])


def run(ck):
    n = len(STEPS)
    ck.cov['rule'] = '%d things done to how a repository is stored or checked out x %d places for a checkout of it; all singles%s; several commands, sequential, parallel and from a cache; byte for byte against the model' % (n, len(PLACES), ', and all ordered pairs of things' if not ck.quick else '')
    w = ['seq', 'par', 'warm']
    e2e.explore(ck, (spec((), p, CMDS, w + ['warm']) for p in PLACES), what='places')
    e2e.explore(ck, (spec((s,), 'here', CMDS, w) for s in STEPS), what='things done')
    e2e.explore(ck, (spec((s,), p, CMDS[:4] if ck.quick else CMDS, ['par'] if ck.quick else w) for p in PLACES if p != 'here' for s in STEPS), what='things done, then elsewhere')
    if not ck.quick:
        e2e.explore(ck, (spec(s, 'here', CMDS[:6], ['par']) for s in itertools.permutations(STEPS, 2)), what='two things done')


replay = e2e.replay
