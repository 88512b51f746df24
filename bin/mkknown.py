#!/usr/bin/env python3
"""Regenerates known_findings.json (the table below plus the fix commits of /repo)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GLOB = [
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'docs/*.c'  [concurrent] 955162d2",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 's*/a.c'  [concurrent] 27828858",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'src/*.c'  [concurrent] 27828858",
    "git who 'tree' '-f' '-a' '--' 'docs/*.c'  [concurrent] e194b1a6",
    "git who 'tree' '-f' '-a' '--' 's*/a.c'  [concurrent] 772dd7e4",
    "git who 'tree' '-f' '-a' '--' 'src/*.c'  [concurrent] 772dd7e4",
]
RENAME = [
    "git who 'hist' '-l' '--' ':!d'  [concurrent] ae948f7e",
    "git who 'hist' '-l' '--' 'd'  [concurrent] f2d1d24b",
    "git who 'hist' '-l' '--' 'd/v'  [concurrent] ba744cd3",
    "git who 'hist' '-l' '--' 'x'  [concurrent] 68c4e054",
    "git who 'hist' '-l' '--' 'y'  [concurrent] 5cccb495",
    "git who 'table' '-l' '--csv' '-n' '0' '--' ':!d'  [concurrent] 38202803",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'd'  [concurrent] b02fa4af",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'd/v'  [concurrent] 14968d96",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'x'  [concurrent] 7ef51db8",
    "git who 'table' '-l' '--csv' '-n' '0' '--' 'y'  [concurrent] b351f769",
    "git who 'tree' '-f' '-a' '--' ':!d'  [concurrent] ae7e5f08",
    "git who 'tree' '-f' '-a' '--' 'd'  [concurrent] 4384a555",
    "git who 'tree' '-f' '-a' '--' 'x'  [concurrent] cb09c861",
]
RENAME_WHAT = ("with path arguments that select only one of the two names of a renamed file, git log (and git-who without concurrency) counts an added or deleted file, "
               "but the concurrent commands count a rename (or nothing), because they limit complete diffs afterwards so that they can be cached")
FINDINGS = [
    dict(id='glob-across-directories', property='C18',
         what="a pattern with \"*\" after a literal start (src/*.c, docs/*.c, s*/a.c) does not match across \"/\" in the concurrent commands, though it does in git log "
              "(PathspecMatch, pinned by the unit test glob_dir_not_match)",
         keys=GLOB),
    dict(id='rename-across-paths', property='C18', what=RENAME_WHAT, keys=RENAME),
    dict(id='rename-across-paths', property='C01', what=RENAME_WHAT, keys=RENAME),
]
FIXED = [
    ('C05', 'keep cache directory usable after clearing', 'after a corrupt cache was cleared, adding to it failed and the run with it'),
    ('C05', 'detect truncated entries', 'a truncated cache entry was read as zeros or ignored'),
    ('C05', 'discard uncompressed cache left behind', 'a run killed while the uncompressed cache existed left duplicates and partial entries for the next run'),
    ('C22', 'panic closing cache when repo directory', 'git who -l in a directory called "p[1" panicked'),
    ('C02', 'output that ends within a commit', 'output of git log cut off within a commit was taken for the whole; the last commit was dropped or half read'),
    ('C02', "don't drop errors scanning git log output", 'errors of the iterator in a worker were shadowed and dropped'),
    ('C07', "don't cache commits from a git log that fails", 'commits of a git log that failed afterwards were cached, possibly incompletely'),
    ('C02', "don't lose worker error when results", 'the error of the last worker was lost when the results channel was seen closed first'),
    ('C07', 'wait for cacher to exit before closing', 'on error the cache was closed while the cacher was still writing to it'),
    ('C22', "don't panic in hist when no commits match", 'git who hist -l panicked when no commit matched'),
    ('C22', "don't discard tally error", 'errors of the tally were overwritten by finish() in sequential commands, followed by a nil dereference'),
    ('C15', 'count zero files for commits without file diffs', 'hist -f counted commits without changes as one file'),
    ('C14', "don't hang in hist when midnight", 'hist never ended in zones where daylight saving skips midnight'),
    ('C16', 'rank tied authors in a stable order', 'the order of authors with equal metrics changed from run to run'),
    ('C19', 'exclude authors matching --nauthor anywhere', '--nauthor matched only at the start of the author and was ORed with --author'),
    ('C21', 'always pass -- to git', 'a file called HEAD made every command fail as ambiguous'),
    ('C19', 'apply mailmap before filtering by author', '--author was matched against unmapped identities in the concurrent commands'),
    ('C20', 'respect ignored revisions followed by', 'ignored revisions followed by a comment, or in upper case, were not ignored'),
    ('C08', "don't mistake path of renamed file", 'a renamed file whose path looks like a hash was parsed as a commit'),
    ('C23', 'format exactly one thousand', '1000 and 1000000 were formatted differently from their neighbours'),
    ('C13', 'draw last branch in tree correctly', 'tree -a drew the last branch as an intermediate one next to commits without diffs'),
    ('C21', 'recognize commit hashes in SHA-256', 'SHA-256 repositories could not be read at all'),
    ('C03', "don't deadlock when git writes a lot to stderr", 'git-who hung when git wrote more than a pipe buffer to stderr'),
    ('C18', 'match pathspec literally before', 'paths containing glob characters could not be selected in the concurrent commands'),
    ('C18', 'limit diffs to paths relative to the working', 'path arguments given in a subdirectory selected no diffs in the concurrent commands'),
    ('C10', 'show the same name every time', 'with -e the name shown for an email with several names changed from run to run'),
    ('C13', 'show files in tree when git ls-files', 'tree with an include and an exclude showed no files (git ls-files drops them)'),
    ('C21', 'allow file named -- to be given', 'a file named "--" could not be given after the "--" separator'),
    ('C22', 'keep whitespace around directory names', 'in a directory whose name ends in a space, or a subdirectory whose name starts with one, tree was empty and concurrent commands selected nothing'),
    ('C04', 'skip commits dated in the future when reading', 'commits cached under a later clock were counted although dated in the future, and hist -f panicked on them'),
    ('C08', 'always read author names from git log as UTF-8', 'with i18n.commitEncoding or i18n.logOutputEncoding set, names came in that encoding, were shown as such and cached'),
    ('C08', 'count lines of root commits', 'with log.showRoot=false the changes of root commits were not counted'),
    ('C08', 'count changes outside the working directory', 'with diff.relative=true changes outside the working directory were not counted and other paths were cut short'),
    ('C08', 'keep newline that file paths start with', 'a file renamed to a name that starts with a newline was counted under another name; one renamed to just a newline made every command fail'),
    ('C24', 'alter tallies of authors when ranking', 'ranking a time bucket added the files of all authors to those of one of them, so that ranking it again gave another answer'),
    ('C10', 'find mailmap with relative path', 'a mailmap.file relative to the root of the working tree was ignored by runs in a subdirectory'),
    ('C18', 'handle working directories whose names', 'in a directory whose name is not valid UTF-8 path arguments selected nothing in the concurrent commands'),
    ('C18', 'expand braces in pathspecs', 'a path argument such as a{b,c} selected ab and ac in the concurrent commands'),
    ('C18', 'count changes to paths that start with a colon', 'a path argument ./:name was taken for unsupported magic in the concurrent commands'),
    ('C18', 'match everything under directories that match', 'a path argument such as sr? selected everything in src/ in the concurrent commands'),
    ('C13', 'confuse a file with commits without changes', 'a file named .git-who-no-diff-commits was not shown by tree'),
    ('C18', 'match paths literally in directories with special', 'in a directory such as [id] path arguments such as [slug].c were not matched literally in the concurrent commands'),
    ('C18', 'match pathspecs byte by byte', 'path arguments matched other names that are not valid UTF-8, and ? matched characters of several bytes, in the concurrent commands'),
    ('C21', 'file with a hash of another length', 'a file named like a hash of the other object format (64 hex digits in a SHA-1 repository) was taken for a revision'),
    ('C21', 'tell values of flags and files named', 'a file named ^-- could not be selected (the argument became --), and --author -- failed'),
    ('C04', 'commits cached under other attributes', 'commits cached before a change of .gitattributes (as by switching branches), of a shallow boundary, of replacement refs or of mailmap.blob were served as they had been'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for p, frag, what in FIXED:
        m = [l for l in log if frag in l]
        assert len(m) == 1, (frag, m)
        fixed.append('fixed: property=%s %s %s' % (p, m[0].split()[0], what))
    left = [l for l in log if l.split(' ', 1)[1].startswith('fix:') and not any(f in l for _, f, _ in FIXED)]
    assert not left, left
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
        f.write('\n')


main()
