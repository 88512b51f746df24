From 524920d5a7855f7751164f73e97faf6e9a150def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/60] fix: keep cache directory usable after clearing a
 corrupt cache

Clear() removed the cache directory, so adding commits to the cache later in
the same run failed and the whole command exited with an error.
---
 internal/cache/backends/gob.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..791f008 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -245,6 +245,12 @@ func (b *GobBackend) Clear() error {
 		return err
 	}
 
+	// Cache might still be added to after it has been cleared
+	err = os.MkdirAll(b.Dir, 0o700)
+	if err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f5607b4f0fd40c6839435663602aa7b69c487c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/60] fix: detect truncated entries when reading gob cache

A short read left the rest of the buffer zeroed, and the zeroed data could
still decode to a commit with some of its fields or file diffs missing.
---
 internal/cache/backends/gob.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 791f008..c39e194 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -157,7 +157,11 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				iterErr = fmt.Errorf("truncated cache entry: %w", err)
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From 7ce32556594b531a0d5fcc3cd8266969de3d9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/60] fix: discard uncompressed cache left behind by an
 interrupted run

Only the compressed file is protected by a checksum.
---
 internal/cache/backends/gob.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index c39e194..3f131bd 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -54,7 +54,13 @@ func (b *GobBackend) compressedPath() string {
 func (b *GobBackend) Open() error {
 	b.wasOpened = true
 
-	err := uncompress(b.compressedPath(), b.Path)
+	// Don't trust uncompressed file left behind by a run that was interrupted
+	err := os.RemoveAll(b.Path)
+	if err != nil {
+		return err
+	}
+
+	err = uncompress(b.compressedPath(), b.Path)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c3a0b13de0557b21a9e98df203a386ed9353eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 04/60] fix: don't panic closing cache when repo directory name
 is a bad glob pattern

---
 internal/cache/backends/gob.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 3f131bd..51214c3 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -83,12 +83,15 @@ func (b *GobBackend) Close() error {
 	}
 
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
-	if err != nil {
-		panic(err) // Bad pattern
+	entries, err := os.ReadDir(b.Dir)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return err
 	}
 
-	for _, match := range matches {
+	for _, entry := range entries {
+		match := filepath.Join(b.Dir, entry.Name())
 		if match == b.compressedPath() {
 			continue
 		}
-- 
2.43.0


From 36061db20ff8b6007d9fe83e173249df3dbd1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 05/60] fix: don't drop errors scanning git log output in
 concurrent worker

Both deferred calls used the finish function for parsing, since the variable
is reused, so an error scanning the output was lost.
---
 internal/concurrent/worker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..3393657 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -215,11 +215,11 @@ loop:
 			result, err := func() (_ T, err error) {
 				var result T
 
-				lines, finish := subprocess.StdoutNullDelimitedLines()
-				defer func() { err = errors.Join(err, finish()) }()
+				lines, finishLines := subprocess.StdoutNullDelimitedLines()
+				defer func() { err = errors.Join(err, finishLines()) }()
 
-				commits, finish := git.ParseCommits(lines)
-				defer func() { err = errors.Join(err, finish()) }()
+				commits, finishCommits := git.ParseCommits(lines)
+				defer func() { err = errors.Join(err, finishCommits()) }()
 
 				commits = cacheTee(commits, toCache)
 
-- 
2.43.0


From 5dd0dbd9e85e219c4a69970fd04eac7d3a3acbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 06/60] fix: don't cache commits from a git log that fails

The last commit parsed from truncated output is missing file diffs. It was
written to the cache before we checked that git log exited successfully, so
later runs silently used the incomplete commit.
---
 internal/concurrent/cache.go  |  8 ++++----
 internal/concurrent/worker.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..c88bd39 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -8,10 +8,10 @@ import (
 
 const cacheChunkSize = chunkSize
 
-// Transparently splits off commits to the cache queue
+// Transparently splits off commits that should be written to the cache
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	toCache *[][]git.Commit,
 ) iter.Seq[git.Commit] {
 	chunk := []git.Commit{}
 
@@ -20,7 +20,7 @@ func cacheTee(
 			chunk = append(chunk, c)
 
 			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
+				*toCache = append(*toCache, chunk)
 				chunk = []git.Commit{}
 			}
 
@@ -31,7 +31,7 @@ func cacheTee(
 
 		// Make sure to write any remainder
 		if len(chunk) > 0 {
-			toCache <- chunk
+			*toCache = append(*toCache, chunk)
 		}
 	}
 }
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 3393657..3ae1feb 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits, holding on to them for caching
+			parsed := [][]git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finishCommits := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finishCommits()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &parsed)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -242,6 +243,11 @@ loop:
 				return err
 			}
 
+			// Only now do we know that we saw complete output from git log
+			for _, chunk := range parsed {
+				toCache <- chunk
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 2d010fc352734313649abddeb81ba1bf2cfb301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 07/60] fix: don't lose worker error when results channel is
 closed

Both channels can be ready at the same time, in which case select picks one at
random. When it picked the closed results channel we reported a partial tally
as if it were complete.
---
 internal/concurrent/concurrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..de0fc55 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -315,6 +315,12 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// Check if the last worker to exit failed. By the time the results channel
+	// is closed the errors channel has been closed too.
+	if err, ok := <-errs; ok && err != nil {
+		return accumulator, fmt.Errorf("concurrent tally failed: %w", err)
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
-- 
2.43.0


From f9aa665a7f2035fcec31d472690f4e305d5fffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 08/60] fix: wait for cacher to exit before closing cache on
 error

When a worker failed we closed the cache while the cacher could still be
appending to it, so that a half-written entry ended up in the compressed cache.
---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index de0fc55..2793f44 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -208,6 +208,9 @@ func tallyFanOutFanIn[T combinable[T]](
 		nCPU,
 	)
 
+	cacherDone := make(chan struct{})
+	defer func() { <-cacherDone }() // Cacher can't be writing when cache closes
+
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 
@@ -248,6 +251,7 @@ func tallyFanOutFanIn[T combinable[T]](
 
 		cacheErr := make(chan error, 1)
 		go func() {
+			defer close(cacherDone)
 			defer close(cacheErr)
 
 			err := runCacher(ctx, &cache, toCache)
-- 
2.43.0


From 8f47cb55521c593d31c642c288262e995661114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 09/60] fix: don't panic in hist when no commits match in lines
 or files mode

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 2793f44..4682f48 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -465,6 +465,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From 2a3b85f7325c3eeaaaedc2ff3794b97f757df263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 10/60] fix: don't discard tally error in non-concurrent
 commands

The deferred assignment replaced the error with the nil from finish(), so tree
went on to rank an empty tree and panicked.
---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From b64568298fb42a85817acb3dc1422a7ab517ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 11/60] fix: count zero files for commits without file diffs in
 hist

With an empty file set we fell back to counting commits, so hist -f showed too
many files and could panic when an author's count exceeded the total.
---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From 3e8b49b2fa53de071eecf11f432a2e5dbc7d533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 12/60] fix: don't hang in hist when midnight is skipped by
 daylight saving time

In e.g. America/Sao_Paulo midnight did not exist on the day DST started.
time.Date() gave us a time on the previous day, so that the next bucket after
the previous day was itself.
---
 internal/tally/bucket.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..c29a724 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,28 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns first instant of the given date in the local time zone.
+//
+// In time zones where daylight saving time starts at midnight, midnight might
+// not exist, in which case time.Date() can return a time on the previous day.
+func startOfDate(year int, month time.Month, day int) time.Time {
+	midnight := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
+
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	for {
+		_, offset := t.Zone()
+		wallClock := t.UTC().Add(time.Duration(offset) * time.Second)
+		if !wallClock.Before(midnight) {
+			return t
+		}
+
+		t = t.Add(time.Hour)
+	}
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDate(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +155,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDate(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +171,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +188,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From 5777b5caf3a83553c16e7091e9b90e28a9e499b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 13/60] fix: rank tied authors in a stable order

Ties were left in map iteration order, so output changed from run to run.
---
 internal/tally/tally.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1e7138f..3267253 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,8 +2,10 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
@@ -77,7 +79,16 @@ func (a FinalTally) Compare(b FinalTally, mode TallyMode) int {
 	}
 
 	// Break ties with last edited
-	return a.LastCommitTime.Compare(b.LastCommitTime)
+	lastEdit := a.LastCommitTime.Compare(b.LastCommitTime)
+	if lastEdit != 0 {
+		return lastEdit
+	}
+
+	// Still tied? Fall back to name then email so that ranking is stable
+	return -cmp.Or(
+		strings.Compare(a.AuthorName, b.AuthorName),
+		strings.Compare(a.AuthorEmail, b.AuthorEmail),
+	)
 }
 
 // A non-final tally that can be combined with other tallies and then finalized
-- 
2.43.0


From 42535a646586f34fef4c0ce7bd778e0141ea65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 14/60] fix: exclude authors matching --nauthor anywhere and
 combine with --author

The pattern only excluded authors starting with the given string. And since Git
selects commits matching any of its --author patterns, giving both --author and
--nauthor selected everyone who was not excluded.
---
 internal/git/cmd/filters.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..2624bb0 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,8 +24,12 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
+	// Git selects commits matching any --author pattern. So when we also have
+	// authors to exclude, we need one pattern that takes care of both.
+	if len(f.Nauthors) == 0 {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
+		}
 	}
 
 	if len(f.Nauthors) > 0 {
@@ -40,7 +44,11 @@ func (f LogFilters) ToArgs() []string {
 			}
 		}
 
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
+		regex := fmt.Sprintf(`^(?!.*(?:%s))`, b.String())
+		if len(f.Authors) > 0 {
+			regex += fmt.Sprintf(`(?=.*(?:%s))`, strings.Join(f.Authors, "|"))
+		}
+
 		args = append(args, "--author", regex)
 	}
 
-- 
2.43.0


From 73bff047e96962825e3f45163210ce082167a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 15/60] fix: always pass -- to git so that file names aren't
 ambiguous

With a file named e.g. HEAD in the working directory, Git refused to guess
whether the revision was a path. For git ls-files the condition was inverted.
---
 internal/git/cmd/cmd.go | 47 +++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..318deb7 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -53,18 +53,14 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always need the "--" or Git complains if e.g. there's a file named HEAD
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -177,18 +173,14 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always need the "--" or Git complains if e.g. there's a file named HEAD
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -206,12 +198,7 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 		"-z",
 	}
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
-		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
-	}
+	args := slices.Concat(baseArgs, []string{"--"}, pathspecs)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From 807b01ed76642beff13487a3d7150fd92bacb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 16/60] fix: apply mailmap before filtering by author in
 concurrent mode

git rev-list doesn't know about the mailmap, so --author with a mapped name
found no commits when running concurrently.
---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 18 ++++++++++++------
 internal/git/git.go               |  9 ++++++++-
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 4682f48..1d05bbd 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -144,7 +144,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 318deb7..8868076 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -153,22 +153,28 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// Runs git rev-list. When countOnly is true, passes --count, which is much
-// faster than printing then getting all the revisions when all you need is the
-// count.
+// Lists revisions. We use git log here because git rev-list doesn't support
+// applying the mailmap before filtering by author.
 func RunRevList(
 	ctx context.Context,
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
-		return nil, errors.New("git rev-list requires revision spec")
+		return nil, errors.New("listing revisions requires revision spec")
 	}
 
 	baseArgs := []string{
-		"rev-list",
+		"log",
+		"--pretty=format:%H",
 		"--reverse",
+		"--no-show-signature",
+	}
+
+	if !useMailmap {
+		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -185,7 +191,7 @@ func RunRevList(
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
 	if err != nil {
-		return nil, fmt.Errorf("failed to run git rev-list: %w", err)
+		return nil, fmt.Errorf("failed to list revisions: %w", err)
 	}
 
 	return subprocess, nil
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..34502e3 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,13 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(
+		ctx,
+		revranges,
+		pathspecs,
+		filters,
+		useMailmap,
+	)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From 1e87b97158a5ea067e1ebadac9a616cd8f34e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 17/60] fix: respect ignored revisions followed by a comment

Git allows comments at the end of a line in the ignore revs file and accepts
uppercase hashes.
---
 internal/git/config/files.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..cb05e0b 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,10 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-
 		// Comments starting with "#" are allowed in the ignore revs file
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.ToLower(strings.TrimSpace(line))
+
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From ed9f1aafc5be653babb62dbe23d92114f4b4c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 18/60] fix: don't mistake path of renamed file for a commit
 hash

---
 internal/git/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..4c5804d 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -66,6 +66,10 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 
 		for line := range lines {
 			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			if diff != nil {
+				done = false // Still expecting path of a renamed file
+			}
+
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From 03299cb9bf00c1ba125906811a42db8cfc3819fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 19/60] fix: format exactly one thousand and one million like
 other numbers

---
 internal/format/format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..1510932 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -91,12 +91,12 @@ func Number(num int) string {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From 3d706332b12a98080c06b55fc31c769a38938a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 20/60] fix: draw last branch in tree correctly when showing
 hidden files

---
 internal/subcommands/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 9b45edc..1f8f7bc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -289,6 +289,10 @@ func toLines(
 	finalChildIndex := 0
 	for i, p := range childPaths {
 		child := node.Children[p]
+		if p == tally.NoDiffPathname {
+			continue // Never printed
+		}
+
 		if child.InWorkTree || opts.showHidden {
 			finalChildIndex = i
 		}
-- 
2.43.0


From 7393e3c4968730e2e1eca446a8f2f9bf1a6cd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 21/60] fix: recognize commit hashes in SHA-256 repositories

---
 internal/git/revision/revision.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..76e1598 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -2,6 +2,7 @@ package revision
 
 import (
 	"regexp"
+	"strings"
 )
 
 var commitHashRegexp *regexp.Regexp
@@ -15,5 +16,6 @@ func init() {
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
 	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	s = strings.TrimPrefix(s, "^")
+	return matched && (len(s) == 40 || len(s) == 64) // SHA-1 or SHA-256
 }
-- 
2.43.0


From 4aa7220d472f625cf68dfc4881c01821dd038de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 22/60] fix: don't deadlock when git writes a lot to stderr

---
 internal/git/cmd/subprocess.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..8ae1f7f 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,10 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Collect stderr as we go. If it were a pipe only read after stdout is
+	// closed, we would deadlock once the subprocess had filled the pipe.
+	var stderr bytes.Buffer
+	cmd.Stderr = &stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
@@ -194,6 +189,6 @@ func run(
 		cmd:    cmd,
 		stdin:  stdin,
 		stdout: stdout,
-		stderr: stderr,
+		stderr: &stderr,
 	}, nil
 }
-- 
2.43.0


From bfee659ac5c940770aeae8e5180e6e1ac5224955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 23/60] fix: match pathspec literally before treating it as a
 pattern

Like Git does. Paths such as app/[slug].ts never matched themselves, and we
panicked on paths that are not valid patterns.
---
 internal/git/pathspec.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..fda0b00 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
@@ -61,6 +62,17 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	// Git first tries to match the pathspec as is. Someone might have a path
+	// containing characters that would otherwise be special.
+	literal := strings.TrimSuffix(pathspec, "/")
+	if p == literal || strings.HasPrefix(p, literal+"/") {
+		return true
+	}
+
+	if !doublestar.ValidatePattern(pathspec) {
+		return false // Git only matches malformed patterns literally
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-- 
2.43.0


From 303964bb30bf8d6f6c92ca2e624346260aa4fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 24/60] fix: limit diffs to paths relative to the working
 directory

When running concurrently in a subdirectory, pathspecs were compared to paths
relative to the root of the repository as if they were relative to it too, so
that lines and files were missing or counted for the wrong paths.
---
 internal/concurrent/concurrent.go |  6 ++++++
 internal/git/cmd/cmd.go           | 12 +++++++++++
 internal/git/git.go               | 34 +++++++++++++++++++++++++++++++
 internal/git/pathspec.go          | 34 +++++++++++++++++++++++++++++++
 4 files changed, 86 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 1d05bbd..0440b03 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -155,6 +155,12 @@ func tallyFanOutFanIn[T combinable[T]](
 		return accumulator, err
 	}
 
+	// From here on we only use pathspecs to limit diffs ourselves
+	whop.pathspecs, err = git.RootPathspecs(ctx, whop.pathspecs)
+	if err != nil {
+		return accumulator, err
+	}
+
 	if len(revs) == 0 {
 		logger().Debug("no commits found; no work to do")
 		return accumulator, nil
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 8868076..6d4bc9c 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -153,6 +153,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParseShowPrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists revisions. We use git log here because git rev-list doesn't support
 // applying the mailmap before filtering by author.
 func RunRevList(
diff --git a/internal/git/git.go b/internal/git/git.go
index 34502e3..792b170 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -186,6 +186,40 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// Returns pathspecs relative to the working directory as pathspecs relative to
+// the root of the repository, which is what paths in diffs are relative to.
+func RootPathspecs(
+	ctx context.Context,
+	pathspecs []string,
+) (_ []string, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get working directory prefix: %w", err)
+		}
+	}()
+
+	if len(pathspecs) == 0 {
+		return pathspecs, nil
+	}
+
+	subprocess, err := cmd.RunRevParseShowPrefix(ctx)
+	if err != nil {
+		return nil, err
+	}
+
+	prefix, err := subprocess.StdoutText()
+	if err != nil {
+		return nil, err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return nil, err
+	}
+
+	return rootPathspecs(pathspecs, prefix), nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index fda0b00..cce3bc2 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -109,3 +109,37 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	return false
 }
+
+// Makes pathspecs, which Git takes to be relative to the working directory,
+// relative to the root of the repository, given the path of the working
+// directory under the root.
+func rootPathspecs(pathspecs []string, prefix string) []string {
+	var escaped strings.Builder
+	for _, r := range prefix {
+		if strings.ContainsRune(`:*?[]{}\`, r) {
+			escaped.WriteRune('\\')
+		}
+		escaped.WriteRune(r)
+	}
+
+	rooted := []string{}
+	for _, p := range pathspecs {
+		if len(p) == 0 {
+			continue
+		}
+
+		magic := ""
+		if p[0] == ':' {
+			magic = ":(exclude)"
+			p = path.Join(".", excludeStripRegexp.ReplaceAllString(p, ""))
+		}
+
+		if len(prefix) > 0 && p[0] == '*' {
+			p = path.Join("**", p) // Matches in any directory below this one
+		}
+
+		rooted = append(rooted, magic+path.Join(escaped.String(), p))
+	}
+
+	return rooted
+}
-- 
2.43.0


From d63d7663099f21315846fa4e75a6582b45f4d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 25/60] fix: show the same name every time when an email
 address has several

With -e, the name shown was that of whichever commit, file or chunk of work we
happened to come across first.
---
 internal/tally/bucket.go |  2 ++
 internal/tally/tally.go  | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index c29a724..715d69f 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -258,6 +258,8 @@ func TallyCommitsByDate(
 				tally.fileset = map[string]bool{}
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.numTallied += 1
 
 			if !commit.IsMerge {
diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 3267253..1ffabcb 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -105,6 +105,8 @@ type Tally struct {
 	numTallied int
 }
 
+// Picks the non-empty string. If neither is empty, the choice doesn't depend on
+// the order in which we come across the strings.
 func or(a, b string) string {
 	if a == "" {
 		return b
@@ -112,7 +114,7 @@ func or(a, b string) string {
 		return a
 	}
 
-	return a
+	return min(a, b)
 }
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
@@ -245,6 +247,8 @@ func TallyCommits(
 				tally.firstCommitTime = commit.Date
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.numTallied += 1
 			tally.firstCommitTime = timeutils.Min(
 				commit.Date,
@@ -309,6 +313,8 @@ func TallyCommitsByPath(
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.commitset[commit.ShortHash] = true
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -330,6 +336,8 @@ func TallyCommitsByPath(
 					tally.commitset = map[string]bool{}
 				}
 
+				tally.name = or(tally.name, commit.AuthorName)
+				tally.email = or(tally.email, commit.AuthorEmail)
 				tally.commitset[commit.ShortHash] = true
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From 6b4d40f14c355b7e505c2e5aed583f6bc17fe18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 26/60] fix: show files in tree when git ls-files mishandles
 excludes

---
 internal/subcommands/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 1f8f7bc..a533bd8 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -86,7 +86,9 @@ func Tree(
 		nauthors,
 	)
 
-	wtreeset, err := git.WorkingTreeFiles(pathspecs)
+	// Diffs are limited to the pathspecs already. We can't rely on git ls-files
+	// to do that because it gets some combinations with excludes wrong.
+	wtreeset, err := git.WorkingTreeFiles(nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3997c1915215b83af7c7ff2da89cdb498abec8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 27/60] fix: allow file named -- to be given as a path

---
 internal/git/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 6f58b1b..2198861 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -27,13 +27,16 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	pathspecs = []string{}
 
 	pastRevs := false
+	pastTerminator := false
 	for line := range lines {
 		if !pastRevs && rev.IsFullHash(line) {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
 
-			if line != "--" {
+			if line == "--" && !pastTerminator {
+				pastTerminator = true // There could still be a file named "--"
+			} else {
 				// If user used backslashes as path separator on windows,
 				// we want to turn into forward slashes
 				pathspecs = append(pathspecs, filepath.ToSlash(line))
-- 
2.43.0


From 44530caaa2d5f86a6065af22f7c1a93b0c8750be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 28/60] fix: keep whitespace around directory names that Git
 prints

---
 internal/git/cmd/subprocess.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 8ae1f7f..3ad0d7e 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -52,7 +52,9 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	// Only the final newline is not part of the output. Other whitespace might
+	// belong to e.g. the name of a directory.
+	return strings.TrimSuffix(string(b), "\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From b950566127f94d7829bfdbb1074b64cc1df52970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 29/60] fix: report git log output that ends within a commit

---
 internal/git/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4c5804d..f81995f 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -202,6 +202,16 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 			linesThisCommit += 1
 		}
 
+		// Nothing but an empty line follows the last commit
+		inHeader := linesThisCommit < 6 && len(commit.Hash) > 0
+		if inHeader || diff != nil {
+			iterErr = fmt.Errorf(
+				"unexpected end of output in commit %s",
+				commit.Name(),
+			)
+			return
+		}
+
 		if linesThisCommit > 0 && allowCommit(commit, now) {
 			yield(commit) // Last yield
 		}
-- 
2.43.0


From 4ab7186f79c8f770927eb6d73895630b8d750839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 30/60] fix: skip commits dated in the future when reading from
 the cache

---
 internal/concurrent/concurrent.go |  1 +
 internal/git/parse.go             | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 0440b03..becb77d 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -100,6 +100,7 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
+	commits = git.SkipDisallowed(commits)
 	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
 	if err != nil {
 		return none, revs, err
diff --git a/internal/git/parse.go b/internal/git/parse.go
index f81995f..f1287ac 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -54,6 +54,19 @@ func allowCommit(commit Commit, now time.Time) bool {
 	return true
 }
 
+// Drops commits that would be skipped if they were parsed now. Only needed for
+// commits that weren't just parsed; the clock might have been set back since.
+func SkipDisallowed(commits iter.Seq[Commit]) iter.Seq[Commit] {
+	return func(yield func(Commit) bool) {
+		now := time.Now()
+		for commit := range commits {
+			if allowCommit(commit, now) && !yield(commit) {
+				return
+			}
+		}
+	}
+}
+
 // Turns an iterator over lines from git log into an iterator of commits
 func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 	var iterErr error
-- 
2.43.0


From 9d59b4d20134616bf14933215cf43201e1838dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 31/60] fix: always read author names from git log as UTF-8

---
 internal/git/cmd/cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 6d4bc9c..440095e 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -34,6 +34,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 		}
 	} else {
 		baseArgs = []string{
@@ -43,6 +44,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--no-mailmap",
 		}
 	}
@@ -88,6 +90,7 @@ func RunStdinLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--stdin",
 			"--no-walk",
 		}
@@ -99,6 +102,7 @@ func RunStdinLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--stdin",
 			"--no-walk",
 			"--no-mailmap",
@@ -183,6 +187,7 @@ func RunRevList(
 		"--pretty=format:%H",
 		"--reverse",
 		"--no-show-signature",
+		"--encoding=UTF-8",
 	}
 
 	if !useMailmap {
-- 
2.43.0


From bda0062c6506b6deb4738b400d32782d342fe4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 32/60] fix: count lines of root commits whatever log.showRoot
 is set to

---
 internal/git/cmd/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 440095e..f3c8384 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -50,7 +50,7 @@ func RunLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, "--numstat", "--root")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -110,7 +110,7 @@ func RunStdinLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, "--numstat", "--root")
 	}
 
 	var args []string
-- 
2.43.0


From 1c003bd3127b457be78329d7a6fa76d5bdc7a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 33/60] fix: count changes outside the working directory
 whatever diff.relative is set to

---
 internal/git/cmd/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index f3c8384..47d5740 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -50,7 +50,7 @@ func RunLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat", "--root")
+		baseArgs = append(baseArgs, "--numstat", "--root", "--no-relative")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -110,7 +110,7 @@ func RunStdinLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat", "--root")
+		baseArgs = append(baseArgs, "--numstat", "--root", "--no-relative")
 	}
 
 	var args []string
-- 
2.43.0


From 1d007469370e872c12d2ffaf34a0e1a454426433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 34/60] fix: keep newline that file paths start with

---
 internal/git/cmd/subprocess.go | 10 ++--------
 internal/git/parse.go          |  6 ++++++
 internal/subcommands/dump.go   |  1 +
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 3ad0d7e..107d22a 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -85,7 +85,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 // Returns a single-use iterator over the output from git log.
 //
-// Lines are split on NULLs with some additional processing.
+// Lines are split on NULLs.
 func (s Subprocess) StdoutNullDelimitedLines() (
 	iter.Seq[string],
 	func() error,
@@ -110,13 +110,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 		})
 
 		for scanner.Scan() {
-			line := scanner.Text()
-
-			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
-
-			if !yield(processedLine) {
+			if !yield(scanner.Text()) {
 				return
 			}
 		}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index f1287ac..8e186f9 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -78,6 +78,12 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
+			// Handle annoying new line that exists between regular commit
+			// fields and --numstat data
+			if linesThisCommit == 6 {
+				line = strings.TrimPrefix(line, "\n")
+			}
+
 			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
 			if diff != nil {
 				done = false // Still expecting path of a renamed file
diff --git a/internal/subcommands/dump.go b/internal/subcommands/dump.go
index ca74650..7af82f6 100644
--- a/internal/subcommands/dump.go
+++ b/internal/subcommands/dump.go
@@ -85,6 +85,7 @@ func Dump(
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
+		line = strings.TrimPrefix(line, "\n")
 		lineWithReplaced := strings.ReplaceAll(line, "\n", "\\n")
 		fmt.Fprintln(w, lineWithReplaced)
 	}
-- 
2.43.0


From 20c2e32466ee89ae09cb3b5c86e4677f7c47051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 35/60] fix: don't alter tallies of authors when ranking time
 buckets

---
 internal/tally/tally.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1ffabcb..a004260 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -4,6 +4,7 @@ package tally
 import (
 	"cmp"
 	"iter"
+	"maps"
 	"slices"
 	"strings"
 	"time"
@@ -119,7 +120,7 @@ func or(a, b string) string {
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
 	if a == nil {
-		return b
+		return maps.Clone(b) // Later unions with the result shouldn't alter b
 	}
 
 	union := a
-- 
2.43.0


From df9d0c75e3fa0bb8873346dc891ab172b8845b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 36/60] fix: find mailmap with relative path from
 subdirectories

---
 internal/git/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..29a4959 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -95,6 +95,12 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		// Git takes a relative path to be relative to the root of the working
+		// tree, no matter what directory it is run from
+		if !filepath.IsAbs(mailmapPath) {
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From 8ae7824985debad467ac9d195bb8caafa95c2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 37/60] fix: handle working directories whose names aren't
 valid UTF-8

---
 internal/git/pathspec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index cce3bc2..c40009f 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -115,11 +115,11 @@ func PathspecMatch(pathspec string, p string) bool {
 // directory under the root.
 func rootPathspecs(pathspecs []string, prefix string) []string {
 	var escaped strings.Builder
-	for _, r := range prefix {
-		if strings.ContainsRune(`:*?[]{}\`, r) {
-			escaped.WriteRune('\\')
+	for i := range len(prefix) {
+		if strings.IndexByte(`:*?[]{}\`, prefix[i]) >= 0 {
+			escaped.WriteByte('\\')
 		}
-		escaped.WriteRune(r)
+		escaped.WriteByte(prefix[i])
 	}
 
 	rooted := []string{}
-- 
2.43.0


From 0d557a4324f7ed95c329ad9d882938ee3df39bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 38/60] fix: don't expand braces in pathspecs

---
 internal/git/pathspec.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index c40009f..bb20da8 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -69,6 +69,7 @@ func PathspecMatch(pathspec string, p string) bool {
 		return true
 	}
 
+	pathspec = escapeBraces(pathspec)
 	if !doublestar.ValidatePattern(pathspec) {
 		return false // Git only matches malformed patterns literally
 	}
@@ -110,6 +111,23 @@ func PathspecMatch(pathspec string, p string) bool {
 	return false
 }
 
+// Git doesn't give a special meaning to braces, unlike doublestar.
+func escapeBraces(pathspec string) string {
+	var b strings.Builder
+
+	isEscaped := false
+	for i := range len(pathspec) {
+		c := pathspec[i]
+		if (c == '{' || c == '}') && !isEscaped {
+			b.WriteByte('\\')
+		}
+		b.WriteByte(c)
+		isEscaped = c == '\\' && !isEscaped
+	}
+
+	return b.String()
+}
+
 // Makes pathspecs, which Git takes to be relative to the working directory,
 // relative to the root of the repository, given the path of the working
 // directory under the root.
-- 
2.43.0


From 053ffe3ba5b8c0fe7426efec6e4548cc1fe709f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 39/60] fix: count changes to paths that start with a colon

---
 internal/git/pathspec.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index bb20da8..48dd25f 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -62,6 +62,8 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	pathspec = strings.TrimPrefix(pathspec, "./")
+
 	// Git first tries to match the pathspec as is. Someone might have a path
 	// containing characters that would otherwise be special.
 	literal := strings.TrimSuffix(pathspec, "/")
@@ -156,7 +158,12 @@ func rootPathspecs(pathspecs []string, prefix string) []string {
 			p = path.Join("**", p) // Matches in any directory below this one
 		}
 
-		rooted = append(rooted, magic+path.Join(escaped.String(), p))
+		p = path.Join(escaped.String(), p)
+		if magic == "" && p[0] == ':' {
+			p = "./" + p // Not magic; just a path that starts with a colon
+		}
+
+		rooted = append(rooted, magic+p)
 	}
 
 	return rooted
-- 
2.43.0


From 69786bac664bc890c9ed958643647bf1d6407157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 40/60] fix: don't match everything under directories that
 match a pattern

---
 internal/git/pathspec.go | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 48dd25f..27aa45c 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -76,31 +76,33 @@ func PathspecMatch(pathspec string, p string) bool {
 		return false // Git only matches malformed patterns literally
 	}
 
-	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
-	didMatch, err := doublestar.Match(pathspec, p)
-	if err != nil {
-		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+	if pathspec == "." {
+		return true // The root of the repository
 	}
 
-	if didMatch {
-		return true
+	patterns := []string{pathspec}
+	if pathspec[0] == '*' {
+		patterns = append(patterns, path.Join("**/", pathspec))
 	}
 
-	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
-	// gitglossary(3).
-	subdirPathspec := path.Join(pathspec, "**")
-	didMatch, err = doublestar.Match(subdirPathspec, p)
-	if err != nil {
-		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-	}
+	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
+	for _, pattern := range patterns {
+		didMatch, err := doublestar.Match(pattern, p)
+		if err != nil {
+			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+		}
 
-	if didMatch {
-		return true
-	}
+		if didMatch {
+			return true
+		}
 
-	if pathspec[0] == '*' {
-		toplevelPathspec := path.Join("**/", pathspec)
-		didMatch, err = doublestar.Match(toplevelPathspec, p)
+		// A "*" at the end also matches slashes, so everything in a matching
+		// directory. A pattern that ends otherwise doesn't, unlike a path.
+		if !endsWithWildcard(pattern) {
+			continue
+		}
+
+		didMatch, err = doublestar.Match(path.Join(pattern, "**"), p)
 		if err != nil {
 			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
 		}
@@ -113,6 +115,13 @@ func PathspecMatch(pathspec string, p string) bool {
 	return false
 }
 
+// Returns true if the pattern ends with a "*" that isn't escaped.
+func endsWithWildcard(pattern string) bool {
+	rest, isWildcard := strings.CutSuffix(pattern, "*")
+	escapes := len(rest) - len(strings.TrimRight(rest, `\`))
+	return isWildcard && escapes%2 == 0
+}
+
 // Git doesn't give a special meaning to braces, unlike doublestar.
 func escapeBraces(pathspec string) string {
 	var b strings.Builder
-- 
2.43.0


From 5cb1917e18cb1b86e770c4e08d957e3c2830dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:25 +0000
Subject: [PATCH 41/60] fix: match paths literally in directories with special
 characters

---
 internal/git/pathspec.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 27aa45c..ced3b47 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -139,17 +139,25 @@ func escapeBraces(pathspec string) string {
 	return b.String()
 }
 
+// Escapes characters that would otherwise be special in a pathspec.
+func escapeSpecial(p string) string {
+	var b strings.Builder
+
+	for i := range len(p) {
+		if strings.IndexByte(`:*?[]{}\`, p[i]) >= 0 {
+			b.WriteByte('\\')
+		}
+		b.WriteByte(p[i])
+	}
+
+	return b.String()
+}
+
 // Makes pathspecs, which Git takes to be relative to the working directory,
 // relative to the root of the repository, given the path of the working
 // directory under the root.
 func rootPathspecs(pathspecs []string, prefix string) []string {
-	var escaped strings.Builder
-	for i := range len(prefix) {
-		if strings.IndexByte(`:*?[]{}\`, prefix[i]) >= 0 {
-			escaped.WriteByte('\\')
-		}
-		escaped.WriteByte(prefix[i])
-	}
+	escapedPrefix := escapeSpecial(prefix)
 
 	rooted := []string{}
 	for _, p := range pathspecs {
@@ -163,11 +171,22 @@ func rootPathspecs(pathspecs []string, prefix string) []string {
 			p = path.Join(".", excludeStripRegexp.ReplaceAllString(p, ""))
 		}
 
+		if escapedPrefix != prefix {
+			// The result won't match paths as is because of the escapes, so
+			// we have to add patterns that do.
+			literal := escapeSpecial(path.Join(prefix, p))
+			rooted = append(
+				rooted,
+				magic+literal,
+				magic+path.Join(literal, "**"),
+			)
+		}
+
 		if len(prefix) > 0 && p[0] == '*' {
 			p = path.Join("**", p) // Matches in any directory below this one
 		}
 
-		p = path.Join(escaped.String(), p)
+		p = path.Join(escapedPrefix, p)
 		if magic == "" && p[0] == ':' {
 			p = "./" + p // Not magic; just a path that starts with a colon
 		}
-- 
2.43.0


From 765cc4e92826073651ed403875adbfae141eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:43 +0000
Subject: [PATCH 42/60] fix: match pathspecs byte by byte

---
 internal/git/pathspec.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index ced3b47..58f3c31 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -87,7 +87,7 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	for _, pattern := range patterns {
-		didMatch, err := doublestar.Match(pattern, p)
+		didMatch, err := doublestar.Match(bytewise(pattern), bytewise(p))
 		if err != nil {
 			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
 		}
@@ -102,7 +102,8 @@ func PathspecMatch(pathspec string, p string) bool {
 			continue
 		}
 
-		didMatch, err = doublestar.Match(path.Join(pattern, "**"), p)
+		pattern = path.Join(pattern, "**")
+		didMatch, err = doublestar.Match(bytewise(pattern), bytewise(p))
 		if err != nil {
 			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
 		}
@@ -122,6 +123,17 @@ func endsWithWildcard(pattern string) bool {
 	return isWildcard && escapes%2 == 0
 }
 
+// Git matches bytes whereas doublestar matches UTF-8-encoded characters. Turns
+// each byte into a character of its own.
+func bytewise(s string) string {
+	runes := make([]rune, len(s))
+	for i := range len(s) {
+		runes[i] = rune(s[i])
+	}
+
+	return string(runes)
+}
+
 // Git doesn't give a special meaning to braces, unlike doublestar.
 func escapeBraces(pathspec string) string {
 	var b strings.Builder
-- 
2.43.0


From 6eecafa149d3fe5c1657f3aabda76ca33745fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 43/60] fix: don't confuse a file with commits without changes

---
 internal/tally/tally.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index a004260..5e75513 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -24,7 +24,8 @@ const (
 	FirstModifiedMode
 )
 
-const NoDiffPathname = ".git-who-no-diff-commits"
+// Contains a NUL so that it can't collide with the path of any file
+const NoDiffPathname = "\x00git-who-no-diff-commits"
 
 type TallyOpts struct {
 	Mode        TallyMode
@@ -303,7 +304,7 @@ func TallyCommitsByPath(
 			// first parent. Have also seen this happen with an SVN-imported
 			// commit.
 			//
-			// We count these commits under a special pathname we hope never
+			// We count these commits under a special pathname that never
 			// collides.
 			tally, ok := pathTallies[NoDiffPathname]
 			if !ok {
-- 
2.43.0


From bad47db9c7e9afdbd1ee5bbb7d4aae925ab73ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 44/60] fix: don't take a file with a hash of another length
 for a revision

---
 internal/git/args.go    | 15 ++++++++++++++-
 internal/git/cmd/cmd.go |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 2198861..903fbb2 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
@@ -28,8 +29,20 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 
 	pastRevs := false
 	pastTerminator := false
+	hashLength := 0
 	for line := range lines {
-		if !pastRevs && rev.IsFullHash(line) {
+		if hashLength == 0 {
+			hashLength = 40
+			if line == "sha256" {
+				hashLength = 64
+			}
+			continue
+		}
+
+		// A file could have a name that looks like a hash of the other length
+		isHash := rev.IsFullHash(line) &&
+			len(strings.TrimPrefix(line, "^")) == hashLength
+		if !pastRevs && isHash {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 47d5740..df5c0c5 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -130,10 +130,12 @@ func RunStdinLog(
 }
 
 // Runs git rev-parse
+// The first line of the output names the hash algorithm of the repository.
 func RunRevParse(ctx context.Context, args []string) (*Subprocess, error) {
 	var baseArgs = []string{
 		"rev-parse",
 		"--no-flags",
+		"--show-object-format",
 	}
 
 	needStdin := false
-- 
2.43.0


From fe755a4097c10ee26fb3f06849356c61e212cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 45/60] fix: tell values of flags and files named ^-- from the
 -- separator

---
 internal/git/cmd/filters.go |  8 +++---
 main.go                     | 49 ++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index 2624bb0..6f7811b 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -17,18 +17,18 @@ func (f LogFilters) ToArgs() []string {
 	args := []string{}
 
 	if f.Since != "" {
-		args = append(args, "--since", f.Since)
+		args = append(args, "--since="+f.Since)
 	}
 
 	if f.Until != "" {
-		args = append(args, "--until", f.Until)
+		args = append(args, "--until="+f.Until)
 	}
 
 	// Git selects commits matching any --author pattern. So when we also have
 	// authors to exclude, we need one pattern that takes care of both.
 	if len(f.Nauthors) == 0 {
 		for _, author := range f.Authors {
-			args = append(args, "--author", author)
+			args = append(args, "--author="+author)
 		}
 	}
 
@@ -49,7 +49,7 @@ func (f LogFilters) ToArgs() []string {
 			regex += fmt.Sprintf(`(?=.*(?:%s))`, strings.Join(f.Authors, "|"))
 		}
 
-		args = append(args, "--author", regex)
+		args = append(args, "--author="+regex)
 	}
 
 	return args
diff --git a/main.go b/main.go
index ad0ba62..391f4f4 100644
--- a/main.go
+++ b/main.go
@@ -104,11 +104,9 @@ loop:
 		}
 	}
 
-	args = escapeTerminator(args)
-
-	cmd.flagSet.Parse(args)
-	subargs := cmd.flagSet.Args()
-	subargs = unescapeTerminator(subargs)
+	numFlagArgs := countFlagArgs(cmd.flagSet, args)
+	cmd.flagSet.Parse(args[:numFlagArgs])
+	subargs := args[numFlagArgs:]
 
 	if err := cmd.run(subargs); err != nil {
 		fmt.Fprintf(os.Stderr, "%s\n", err)
@@ -464,35 +462,36 @@ Exclude commits by these authors. Can be specified multiple times
 }
 
 /*
+* Returns the number of leading args that are flags or values of flags.
+*
 * The "flag" package treats `--` as a terminator and doesn't return it as an
 * arg. We aren't really using it as a terminator though; we want to use it like
-* Git does, to separate revisions from paths. So we escape it so the "flag"
-* package treats it like any other arg.
+* Git does, to separate revisions from paths. So the "flag" package only gets to
+* see the args in front of it.
  */
-func escapeTerminator(args []string) []string {
-	newArgs := []string{}
-	for _, arg := range args {
-		if arg == "--" {
-			newArgs = append(newArgs, "^--") // Seems unlikely to be used?
-		} else {
-			newArgs = append(newArgs, arg)
+func countFlagArgs(set *flag.FlagSet, args []string) int {
+	i := 0
+	for i < len(args) {
+		arg := args[i]
+		if len(arg) < 2 || arg[0] != '-' || arg == "--" {
+			break
 		}
-	}
 
-	return newArgs
-}
+		i += 1
+
+		name := strings.TrimPrefix(strings.TrimPrefix(arg, "-"), "-")
+		f := set.Lookup(name)
+		if f == nil {
+			continue // Has form -flag=value (or isn't a valid flag)
+		}
 
-func unescapeTerminator(args []string) []string {
-	newArgs := []string{}
-	for _, arg := range args {
-		if arg == "^--" {
-			newArgs = append(newArgs, "--")
-		} else {
-			newArgs = append(newArgs, arg)
+		boolFlag, ok := f.Value.(interface{ IsBoolFlag() bool })
+		if !ok || !boolFlag.IsBoolFlag() {
+			i += 1 // Next arg is value
 		}
 	}
 
-	return newArgs
+	return min(i, len(args))
 }
 
 func checkPathspecs(pathspecs []string) error {
-- 
2.43.0


From 2f537c676171c43eec37c91ca8cd0df500d4186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 46/60] fix: don't use commits cached under other attributes,
 replacements or boundaries

---
 internal/cache/cache.go      |  12 ++-
 internal/git/cmd/cmd.go      |  46 +++++++++
 internal/git/config/state.go | 181 +++++++++++++++++++++++++++++++++++
 3 files changed, 237 insertions(+), 2 deletions(-)
 create mode 100644 internal/git/config/state.go

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index a2b9fdf..366efa1 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -176,13 +176,21 @@ func cacheStorageDir(name string) (_ string, err error) {
 }
 
 // Hash of all the state in the repo that affects the validity of our cache
-func repoStateHash(sf config.SupplementalFiles) (string, error) {
+func repoStateHash(
+	gitRootPath string,
+	sf config.SupplementalFiles,
+) (string, error) {
 	h := fnv.New32()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
 	}
 
+	err = config.RepoStateHash(gitRootPath, h)
+	if err != nil {
+		return "", err
+	}
+
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
@@ -214,7 +222,7 @@ func GetCache(gitRootPath string, configFiles config.SupplementalFiles) Cache {
 		return warnFail(fallback, err)
 	}
 
-	stateHash, err := repoStateHash(configFiles)
+	stateHash, err := repoStateHash(gitRootPath, configFiles)
 	if err != nil {
 		return warnFail(fallback, err)
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index df5c0c5..81a09f6 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -171,6 +171,52 @@ func RunRevParseShowPrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// Prints the location of files in the Git directory.
+func RunRevParseGitPaths(
+	ctx context.Context,
+	names []string,
+) (*Subprocess, error) {
+	var args = []string{"rev-parse"}
+	for _, name := range names {
+		args = append(args, "--git-path", name)
+	}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
+func RunRevParseVerify(ctx context.Context, rev string) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--quiet", "--verify", rev}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
+func RunForEachRef(
+	ctx context.Context,
+	patterns []string,
+) (*Subprocess, error) {
+	baseArgs := []string{"for-each-ref", "--format=%(refname) %(objectname)"}
+
+	needStdin := false
+	subprocess, err := run(ctx, slices.Concat(baseArgs, patterns), needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git for-each-ref: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists revisions. We use git log here because git rev-list doesn't support
 // applying the mailmap before filtering by author.
 func RunRevList(
diff --git a/internal/git/config/state.go b/internal/git/config/state.go
new file mode 100644
index 0000000..873da88
--- /dev/null
+++ b/internal/git/config/state.go
@@ -0,0 +1,181 @@
+package config
+
+import (
+	"context"
+	"errors"
+	"fmt"
+	"hash"
+	"io"
+	"io/fs"
+	"os"
+	"path/filepath"
+
+	"github.com/sinclairtarget/git-who/internal/git/cmd"
+)
+
+// Hashes everything other than mailmap files that affects what Git tells us
+// about a given commit: the boundary of a shallow clone, replacement objects,
+// attributes of files, and a mailmap that is stored in the repository.
+//
+// Nothing is added to the hash in a repository that has none of these.
+func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("error hashing state of repository: %w", err)
+		}
+	}()
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	// Replacement objects
+	refsProcess, err := cmd.RunForEachRef(ctx, []string{"refs/replace/"})
+	if err != nil {
+		return err
+	}
+
+	refs, err := readLines(refsProcess)
+	if err != nil {
+		return err
+	}
+
+	for _, ref := range refs {
+		fmt.Fprintf(h, "\x00replace %s\n", ref)
+	}
+
+	// Shallow boundary, attributes
+	pathsProcess, err := cmd.RunRevParseGitPaths(
+		ctx,
+		[]string{"shallow", "info/attributes"},
+	)
+	if err != nil {
+		return err
+	}
+
+	paths, err := readLines(pathsProcess)
+	if err != nil {
+		return err
+	}
+
+	paths = append(paths, filepath.Join(gitRootPath, ".gitattributes"))
+
+	filesProcess, err := cmd.RunLsFiles(
+		ctx,
+		[]string{":(top,glob)*/**/.gitattributes"},
+	)
+	if err != nil {
+		return err
+	}
+
+	files, finish := filesProcess.StdoutNullDelimitedLines()
+	for file := range files {
+		if len(file) > 0 {
+			paths = append(paths, file)
+		}
+	}
+
+	err = finish()
+	if err != nil {
+		return err
+	}
+
+	err = filesProcess.Wait()
+	if err != nil {
+		return err
+	}
+
+	for _, p := range paths {
+		// Some are relative to the current directory
+		p, err = filepath.Abs(p)
+		if err != nil {
+			return err
+		}
+
+		err = hashFile(p, h)
+		if err != nil {
+			return err
+		}
+	}
+
+	// Mailmap stored in repository
+	blob, err := mailmapBlob(ctx)
+	if err != nil {
+		return err
+	}
+
+	if len(blob) > 0 {
+		fmt.Fprintf(h, "\x00mailmap %s\n", blob)
+	}
+
+	return nil
+}
+
+func readLines(subprocess *cmd.Subprocess) ([]string, error) {
+	lines, finish := subprocess.StdoutLines()
+
+	res := []string{}
+	for line := range lines {
+		res = append(res, line)
+	}
+
+	err := finish()
+	if err != nil {
+		return nil, err
+	}
+
+	return res, subprocess.Wait()
+}
+
+func hashFile(p string, h hash.Hash32) error {
+	f, err := os.Open(p)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	defer f.Close()
+
+	fmt.Fprintf(h, "\x00file %s\n", p)
+	_, err = io.Copy(h, f)
+	return err
+}
+
+// Returns the hash of the blob that the mailmap.blob setting refers to. Returns
+// an empty string if there is no such setting or no such blob.
+func mailmapBlob(ctx context.Context) (string, error) {
+	subprocess, err := cmd.RunConfigGet(ctx, []string{"mailmap.blob"})
+	if err != nil {
+		return "", err
+	}
+
+	name, err := outputOrNothing(subprocess)
+	if err != nil || len(name) == 0 {
+		return "", err
+	}
+
+	subprocess, err = cmd.RunRevParseVerify(ctx, name)
+	if err != nil {
+		return "", err
+	}
+
+	return outputOrNothing(subprocess)
+}
+
+// Like StdoutText(), but a failing subprocess means there is no output.
+func outputOrNothing(subprocess *cmd.Subprocess) (string, error) {
+	text, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+
+	var subprocessErr *cmd.SubprocessErr
+	if errors.As(err, &subprocessErr) {
+		return "", nil
+	} else if err != nil {
+		return "", err
+	}
+
+	return text, nil
+}
-- 
2.43.0


From 2ca2abd04e36f0639300d3524caf73350a366a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 47/60] fix: don't use commits cached under other diff settings

---
 internal/git/cmd/cmd.go      | 24 +++++++++++++++++
 internal/git/config/state.go | 51 +++++++++++++++++++++++++++++++++---
 2 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 81a09f6..5485699 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -291,3 +291,27 @@ func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 
 	return subprocess, nil
 }
+
+func RunConfigGetRegexp(ctx context.Context, pattern string) (*Subprocess, error) {
+	args := []string{"config", "--null", "--get-regexp", pattern}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git config --get-regexp: %w", err)
+	}
+
+	return subprocess, nil
+}
+
+func RunVar(ctx context.Context, name string) (*Subprocess, error) {
+	args := []string{"var", name}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git var: %w", err)
+	}
+
+	return subprocess, nil
+}
diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index 873da88..646d6ed 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -13,9 +13,14 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 )
 
+// Settings that might affect the changes that Git finds in a commit.
+const diffSettingsPattern = `^(diff\.|submodule\..*\.ignore$|attr\.tree$` +
+	`|core\.(bigfilethreshold|usereplacerefs)$)`
+
 // Hashes everything other than mailmap files that affects what Git tells us
 // about a given commit: the boundary of a shallow clone, replacement objects,
-// attributes of files, and a mailmap that is stored in the repository.
+// attributes of files, settings for diffs, and a mailmap that is stored in the
+// repository.
 //
 // Nothing is added to the hash in a repository that has none of these.
 func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
@@ -57,7 +62,29 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 		return err
 	}
 
-	paths = append(paths, filepath.Join(gitRootPath, ".gitattributes"))
+	paths = append(
+		paths,
+		filepath.Join(gitRootPath, ".gitattributes"),
+		filepath.Join(gitRootPath, ".gitmodules"),
+	)
+
+	// Attributes of the user and the system
+	for _, name := range []string{"GIT_ATTR_GLOBAL", "GIT_ATTR_SYSTEM"} {
+		varProcess, err := cmd.RunVar(ctx, name)
+		if err != nil {
+			return err
+		}
+
+		// Older versions of Git don't know these
+		p, err := outputOrNothing(varProcess)
+		if err != nil {
+			return err
+		}
+
+		if len(p) > 0 {
+			paths = append(paths, p)
+		}
+	}
 
 	filesProcess, err := cmd.RunLsFiles(
 		ctx,
@@ -97,6 +124,21 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 		}
 	}
 
+	// Settings
+	settingsProcess, err := cmd.RunConfigGetRegexp(ctx, diffSettingsPattern)
+	if err != nil {
+		return err
+	}
+
+	settings, err := outputOrNothing(settingsProcess)
+	if err != nil {
+		return err
+	}
+
+	if len(settings) > 0 {
+		fmt.Fprintf(h, "\x00settings %s\n", settings)
+	}
+
 	// Mailmap stored in repository
 	blob, err := mailmapBlob(ctx)
 	if err != nil {
@@ -161,7 +203,8 @@ func mailmapBlob(ctx context.Context) (string, error) {
 	return outputOrNothing(subprocess)
 }
 
-// Like StdoutText(), but a failing subprocess means there is no output.
+// Like StdoutText(), but a failing subprocess means there is no output. (Unless
+// it was killed.)
 func outputOrNothing(subprocess *cmd.Subprocess) (string, error) {
 	text, err := subprocess.StdoutText()
 	if err != nil {
@@ -171,7 +214,7 @@ func outputOrNothing(subprocess *cmd.Subprocess) (string, error) {
 	err = subprocess.Wait()
 
 	var subprocessErr *cmd.SubprocessErr
-	if errors.As(err, &subprocessErr) {
+	if errors.As(err, &subprocessErr) && subprocessErr.ExitCode > 0 {
 		return "", nil
 	} else if err != nil {
 		return "", err
-- 
2.43.0


From 88bb8673da77f4b38b8c5df28287c614647ffe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:00 +0000
Subject: [PATCH 48/60] fix: don't panic in hist when the date changes while it
 runs

---
 internal/tally/bucket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 715d69f..bac510c 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -330,6 +330,11 @@ func Rebucket(
 		return buckets
 	}
 
+	// A commit might have been made only after we determined the end
+	if last := buckets[len(buckets)-1].Time; last.After(end) {
+		end = last
+	}
+
 	rebuckets := []TimeBucket{}
 
 	// Re-bucket using new resolution
-- 
2.43.0


From e1980c1a81bbcfbb6e26f62ed1cdbd7899f8f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 49/60] fix: don't start hist before the first commit if the
 date changes while it runs

---
 internal/tally/bucket.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index bac510c..dea56b2 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -222,7 +222,7 @@ func TallyCommitsByDate(
 	}
 
 	var (
-		minTime time.Time = time.Now()
+		minTime time.Time
 		maxTime time.Time
 	)
 
@@ -232,7 +232,7 @@ func TallyCommitsByDate(
 	// Tally
 	for commit := range commits {
 		bucketedCommitTime := resolution.apply(commit.Date)
-		if bucketedCommitTime.Before(minTime) {
+		if minTime.IsZero() || bucketedCommitTime.Before(minTime) {
 			minTime = bucketedCommitTime
 		}
 		if bucketedCommitTime.After(maxTime) {
@@ -275,6 +275,10 @@ func TallyCommitsByDate(
 		}
 	}
 
+	if minTime.IsZero() {
+		return nil, nil // No commits
+	}
+
 	// Turn into slice representing *dense* timeseries
 	t := minTime
 	bucketSlice := []TimeBucket{}
-- 
2.43.0


From 4d0d4728a8f9d48b5fa57cc31cac695c5235e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 50/60] fix: report errors when writing output fails

---
 internal/subcommands/hist.go  | 20 ++++++++++----
 internal/subcommands/parse.go | 10 +++++--
 internal/subcommands/table.go | 51 ++++++++++++++++++++++++++---------
 internal/subcommands/tree.go  | 22 ++++++++++-----
 4 files changed, 77 insertions(+), 26 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index a010dac..6d55b3e 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"math"
@@ -152,8 +153,7 @@ func Hist(
 		}
 	}
 
-	drawPlot(buckets, maxVal, mode, showEmail)
-	return nil
+	return drawPlot(buckets, maxVal, mode, showEmail)
 }
 
 func drawPlot(
@@ -161,7 +161,9 @@ func drawPlot(
 	maxVal int,
 	mode tally.TallyMode,
 	showEmail bool,
-) {
+) error {
+	w := bufio.NewWriter(os.Stdout)
+
 	var lastAuthor string
 	for _, bucket := range buckets {
 		value := bucket.Value(mode)
@@ -184,7 +186,8 @@ func drawPlot(
 				showEmail,
 				bucket.Tally.AuthorName == lastAuthor,
 			)
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s ┤ %s%s%-*s%s  %s\n",
 				bucket.Name,
 				valueBar,
@@ -197,9 +200,16 @@ func drawPlot(
 
 			lastAuthor = bucket.Tally.AuthorName
 		} else {
-			fmt.Printf("%s ┤ \n", bucket.Name)
+			fmt.Fprintf(w, "%s ┤ \n", bucket.Name)
 		}
 	}
+
+	err := w.Flush()
+	if err != nil {
+		return fmt.Errorf("error writing timeline to stdout: %w", err)
+	}
+
+	return nil
 }
 
 func fmtHistTally(
diff --git a/internal/subcommands/parse.go b/internal/subcommands/parse.go
index 606274b..f0caec6 100644
--- a/internal/subcommands/parse.go
+++ b/internal/subcommands/parse.go
@@ -92,14 +92,20 @@ func Parse(
 		numCommits += 1
 	}
 
-	w.Flush()
+	err = w.Flush()
+	if err != nil {
+		return err
+	}
 
 	err = finish()
 	if err != nil {
 		return err
 	}
 
-	fmt.Printf("Parsed %d commits.\n", numCommits)
+	_, err = fmt.Printf("Parsed %d commits.\n", numCommits)
+	if err != nil {
+		return err
+	}
 
 	elapsed := time.Now().Sub(start)
 	logger().Debug("finished parse", "duration_ms", elapsed.Milliseconds())
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 3fbe81e..4fbef9e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"encoding/csv"
 	"fmt"
@@ -166,7 +167,16 @@ func Table(
 		}
 	} else {
 		colwidth := pickWidth(mode, showEmail)
-		writeTable(rankedTallies, colwidth, showEmail, mode, numFilteredOut)
+		err := writeTable(
+			rankedTallies,
+			colwidth,
+			showEmail,
+			mode,
+			numFilteredOut,
+		)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -270,11 +280,13 @@ func writeTable(
 	showEmail bool,
 	mode tally.TallyMode,
 	numFilteredOut int,
-) {
+) error {
 	if len(tallies) == 0 {
-		return
+		return nil
 	}
 
+	w := bufio.NewWriter(os.Stdout)
+
 	var build strings.Builder
 	for _ = range colwidth - 2 {
 		build.WriteRune('─')
@@ -282,10 +294,11 @@ func writeTable(
 	rule := build.String()
 
 	// -- Write header --
-	fmt.Printf("┌%s┐\n", rule)
+	fmt.Fprintf(w, "┌%s┐\n", rule)
 
 	if mode == tally.LinesMode || mode == tally.FilesMode {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s %7s  %17s│\n",
 			colwidth-36-13,
 			"Author",
@@ -295,7 +308,8 @@ func writeTable(
 			"Lines (+/-)",
 		)
 	} else if mode == tally.FirstModifiedMode {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s│\n",
 			colwidth-22,
 			"Author",
@@ -303,7 +317,8 @@ func writeTable(
 			"Commits",
 		)
 	} else {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s│\n",
 			colwidth-22,
 			"Author",
@@ -311,7 +326,7 @@ func writeTable(
 			"Commits",
 		)
 	}
-	fmt.Printf("├%s┤\n", rule)
+	fmt.Fprintf(w, "├%s┤\n", rule)
 
 	// -- Write table rows --
 	totalRows := len(tallies)
@@ -332,7 +347,8 @@ func writeTable(
 		)
 
 		if mode == tally.LinesMode || mode == tally.FilesMode {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s %7s  %17s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-36-13),
@@ -343,7 +359,8 @@ func writeTable(
 				pretty.Reset,
 			)
 		} else if mode == tally.FirstModifiedMode {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-22),
@@ -352,7 +369,8 @@ func writeTable(
 				pretty.Reset,
 			)
 		} else {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-22),
@@ -365,8 +383,15 @@ func writeTable(
 
 	if numFilteredOut > 0 {
 		msg := fmt.Sprintf("...%s more...", format.Number(numFilteredOut))
-		fmt.Printf("│%-*s│\n", colwidth-2, msg)
+		fmt.Fprintf(w, "│%-*s│\n", colwidth-2, msg)
 	}
 
-	fmt.Printf("└%s┘\n", rule)
+	fmt.Fprintf(w, "└%s┘\n", rule)
+
+	err := w.Flush()
+	if err != nil {
+		return fmt.Errorf("error writing table to stdout: %w", err)
+	}
+
+	return nil
 }
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index a533bd8..0083c0c 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"maps"
@@ -195,8 +196,7 @@ func Tree(
 	}
 
 	lines := toLines(root, ".", 0, "", []bool{}, opts, []treeOutputLine{})
-	printTree(lines, showEmail)
-	return nil
+	return printTree(lines, showEmail)
 }
 
 // Recursively descend tree, turning tree nodes into output lines.
@@ -347,7 +347,7 @@ func fmtTallyMetric(t tally.FinalTally, opts printTreeOpts) string {
 	}
 }
 
-func printTree(lines []treeOutputLine, showEmail bool) {
+func printTree(lines []treeOutputLine, showEmail bool) error {
 	longest := 0
 	for _, line := range lines {
 		indentLen := utf8.RuneCountInString(line.indent)
@@ -359,6 +359,7 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 
 	tallyStart := longest + 4 // Use at least 4 "." to separate path from tally
 
+	w := bufio.NewWriter(os.Stdout)
 	for _, line := range lines {
 		if !line.showLine {
 			continue
@@ -372,7 +373,7 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 		}
 
 		if !line.showTally {
-			fmt.Printf("%s%s\n", line.indent, path)
+			fmt.Fprintf(w, "%s%s\n", line.indent, path)
 			continue
 		}
 
@@ -388,7 +389,8 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 		separator := strings.Repeat(".", tallyStart-indentLen-pathLen)
 
 		if line.dimTally {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s%s%s%s%s%s %s\n",
 				line.indent,
 				path,
@@ -399,7 +401,8 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 				line.metric,
 			)
 		} else {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s%s%s%s%s %s%s\n",
 				line.indent,
 				path,
@@ -411,4 +414,11 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 			)
 		}
 	}
+
+	err := w.Flush()
+	if err != nil {
+		return fmt.Errorf("error writing tree to stdout: %w", err)
+	}
+
+	return nil
 }
-- 
2.43.0


From ea325aec5c4b6ded41046107321e79bfe3a6d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:36 +0000
Subject: [PATCH 51/60] fix: heed Git's settings for all pathspecs in the
 environment

Git's global options --literal-pathspecs, --noglob-pathspecs,
--glob-pathspecs and --icase-pathspecs are passed on as environment
variables. Git heeded them when selecting commits, but limiting the diffs
of those commits didn't. Now pathspecs are taken literally if asked to, and
settings that can't be heeded are an error, as unsupported magic is.
---
 internal/git/pathspec.go | 44 +++++++++++++++++++++++++++++++++++++++-
 main.go                  |  5 +++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 58f3c31..e1d498d 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -1,9 +1,12 @@
 package git
 
 import (
+	"errors"
 	"fmt"
+	"os"
 	"path"
 	"regexp"
+	"strconv"
 	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
@@ -32,6 +35,39 @@ func IsSupportedPathspec(pathspec string) bool {
 	return true
 }
 
+// Git's own options for how all pathspecs are treated (e.g.
+// --icase-pathspecs) reach us via the environment. Returns an error if we can't
+// treat the pathspec that way ourselves.
+func CheckPathspecSettings(pathspec string) error {
+	if isEnvTrue("GIT_ICASE_PATHSPECS") {
+		return errors.New("GIT_ICASE_PATHSPECS is not supported")
+	}
+
+	if isEnvTrue("GIT_GLOB_PATHSPECS") && strings.ContainsAny(pathspec, `*?[\`) {
+		return errors.New("GIT_GLOB_PATHSPECS is not supported")
+	}
+
+	if isEnvTrue("GIT_LITERAL_PATHSPECS") && strings.HasPrefix(pathspec, ":") {
+		return fmt.Errorf(
+			"literal pathspec can't start with a colon: \"%s\"",
+			pathspec,
+		)
+	}
+
+	return nil
+}
+
+// Whether Git takes an environment variable to be true.
+func isEnvTrue(name string) bool {
+	switch value := strings.ToLower(os.Getenv(name)); value {
+	case "", "false", "no", "off":
+		return false
+	default:
+		n, err := strconv.Atoi(value)
+		return err != nil || n != 0
+	}
+}
+
 /*
 * Splits the include pathspecs from the exclude pathspecs.
 *
@@ -169,6 +205,8 @@ func escapeSpecial(p string) string {
 // relative to the root of the repository, given the path of the working
 // directory under the root.
 func rootPathspecs(pathspecs []string, prefix string) []string {
+	isLiteral := isEnvTrue("GIT_LITERAL_PATHSPECS") ||
+		isEnvTrue("GIT_NOGLOB_PATHSPECS")
 	escapedPrefix := escapeSpecial(prefix)
 
 	rooted := []string{}
@@ -183,7 +221,7 @@ func rootPathspecs(pathspecs []string, prefix string) []string {
 			p = path.Join(".", excludeStripRegexp.ReplaceAllString(p, ""))
 		}
 
-		if escapedPrefix != prefix {
+		if isLiteral || escapedPrefix != prefix {
 			// The result won't match paths as is because of the escapes, so
 			// we have to add patterns that do.
 			literal := escapeSpecial(path.Join(prefix, p))
@@ -194,6 +232,10 @@ func rootPathspecs(pathspecs []string, prefix string) []string {
 			)
 		}
 
+		if isLiteral {
+			continue
+		}
+
 		if len(prefix) > 0 && p[0] == '*' {
 			p = path.Join("**", p) // Matches in any directory below this one
 		}
diff --git a/main.go b/main.go
index 391f4f4..1fe446a 100644
--- a/main.go
+++ b/main.go
@@ -503,6 +503,11 @@ func checkPathspecs(pathspecs []string) error {
 				p,
 			)
 		}
+
+		err := git.CheckPathspecSettings(p)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7c0244d0f13bcbffff9c84f217dbebc259e0e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:31 +0000
Subject: [PATCH 52/60] fix: show tree in a directory reached via a symlink

The working directory might be given with symlinks in it, but Git gives the
root of the repository without, so that no path seemed to be under the
working directory and the tree was empty.
---
 internal/tally/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..cd724c2 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -123,6 +123,13 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	// Git reports the root without any symlinks. We might have been run in a
+	// directory that was reached via one.
+	wd, err = filepath.EvalSymlinks(wd)
+	if err != nil {
+		return root, err
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From 5c536ca5b396bc1be54eade65c0735d3c813970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 53/60] fix: read lines of any length from Git

---
 internal/git/cmd/subprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 107d22a..97936d5 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"iter"
+	"math"
 	"os/exec"
 	"strings"
 )
@@ -63,6 +64,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt) // Lines can be of any length
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
@@ -94,6 +96,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt) // Lines can be of any length
 
 		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
 			null_i := bytes.IndexByte(data, '\x00')
-- 
2.43.0


From b30599f3786943c93fa4b238928ca0dbe4b42339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 54/60] fix: read ignore revs files with lines of any length

---
 internal/git/config/files.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index cb05e0b..0e15fe7 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -7,6 +7,7 @@ import (
 	"hash"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"strings"
 
@@ -83,6 +84,7 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt) // Lines can be of any length
 	for scanner.Scan() {
 		// Comments starting with "#" are allowed in the ignore revs file
 		line, _, _ := strings.Cut(scanner.Text(), "#")
-- 
2.43.0


From ed628d2dbef9fea463d543b35f7ac0ae4b4b0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:24 +0000
Subject: [PATCH 55/60] fix: notice grafts when looking for cached commits

---
 internal/git/config/state.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index 646d6ed..d353b03 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -18,9 +18,9 @@ const diffSettingsPattern = `^(diff\.|submodule\..*\.ignore$|attr\.tree$` +
 	`|core\.(bigfilethreshold|usereplacerefs)$)`
 
 // Hashes everything other than mailmap files that affects what Git tells us
-// about a given commit: the boundary of a shallow clone, replacement objects,
-// attributes of files, settings for diffs, and a mailmap that is stored in the
-// repository.
+// about a given commit: the boundary of a shallow clone, grafts, replacement
+// objects, attributes of files, settings for diffs, and a mailmap that is stored
+// in the repository.
 //
 // Nothing is added to the hash in a repository that has none of these.
 func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
@@ -48,10 +48,10 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 		fmt.Fprintf(h, "\x00replace %s\n", ref)
 	}
 
-	// Shallow boundary, attributes
+	// Shallow boundary, grafts, attributes
 	pathsProcess, err := cmd.RunRevParseGitPaths(
 		ctx,
-		[]string{"shallow", "info/attributes"},
+		[]string{"shallow", "info/grafts", "info/attributes"},
 	)
 	if err != nil {
 		return err
-- 
2.43.0


From c8742579efa69d5208fda7a00a18c1f22a1ae9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:24 +0000
Subject: [PATCH 56/60] fix: notice Git's settings for replacements when
 looking for cached commits

---
 internal/git/config/state.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index d353b03..4feff85 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -34,7 +34,16 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 	defer cancel()
 
 	// Replacement objects
-	refsProcess, err := cmd.RunForEachRef(ctx, []string{"refs/replace/"})
+	replaceBase := "refs/replace/"
+	if base := os.Getenv("GIT_REPLACE_REF_BASE"); len(base) > 0 {
+		replaceBase = base
+	}
+
+	if _, isSet := os.LookupEnv("GIT_NO_REPLACE_OBJECTS"); isSet {
+		fmt.Fprint(h, "\x00no replace\n")
+	}
+
+	refsProcess, err := cmd.RunForEachRef(ctx, []string{replaceBase})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 825339f989d730cbc5f012b4d960600ffe97863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:26 +0000
Subject: [PATCH 57/60] fix: notice changes to the tree with attributes when
 looking for cached commits

---
 internal/git/config/state.go | 41 ++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index 4feff85..58291e7 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -9,6 +9,7 @@ import (
 	"io/fs"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 )
@@ -148,6 +149,16 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 		fmt.Fprintf(h, "\x00settings %s\n", settings)
 	}
 
+	// Attributes stored in a tree
+	tree, err := attributesTree(ctx, settings)
+	if err != nil {
+		return err
+	}
+
+	if len(tree) > 0 {
+		fmt.Fprintf(h, "\x00attributes %s\n", tree)
+	}
+
 	// Mailmap stored in repository
 	blob, err := mailmapBlob(ctx)
 	if err != nil {
@@ -212,6 +223,36 @@ func mailmapBlob(ctx context.Context) (string, error) {
 	return outputOrNothing(subprocess)
 }
 
+// Returns the hash of the tree (or of a commit with the tree) that Git reads
+// attributes from instead of the working tree. Returns an empty string if there
+// is no such tree.
+func attributesTree(ctx context.Context, settings string) (string, error) {
+	name := os.Getenv("GIT_ATTR_SOURCE")
+
+	if len(name) == 0 && strings.Contains(settings, "attr.tree\n") {
+		subprocess, err := cmd.RunConfigGet(ctx, []string{"attr.tree"})
+		if err != nil {
+			return "", err
+		}
+
+		name, err = outputOrNothing(subprocess)
+		if err != nil {
+			return "", err
+		}
+	}
+
+	if len(name) == 0 {
+		return "", nil
+	}
+
+	subprocess, err := cmd.RunRevParseVerify(ctx, name)
+	if err != nil {
+		return "", err
+	}
+
+	return outputOrNothing(subprocess)
+}
+
 // Like StdoutText(), but a failing subprocess means there is no output. (Unless
 // it was killed.)
 func outputOrNothing(subprocess *cmd.Subprocess) (string, error) {
-- 
2.43.0


From 6e3a6c4a2017a02d6873f9110ce3a67cf160101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:32 +0000
Subject: [PATCH 58/60] fix: notice untracked .gitattributes files when looking
 for cached commits

---
 internal/git/cmd/cmd.go      | 16 ++++++++++++++++
 internal/git/config/state.go |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 5485699..7052e0b 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -280,6 +280,22 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// Like RunLsFiles(), but includes files that are untracked or ignored.
+func RunLsAllFiles(
+	ctx context.Context,
+	pathspecs []string,
+) (*Subprocess, error) {
+	baseArgs := []string{"ls-files", "--cached", "--others", "-z", "--"}
+
+	needStdin := false
+	subprocess, err := run(ctx, slices.Concat(baseArgs, pathspecs), needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git ls-files: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 	baseArgs := []string{"config", "--get"}
 
diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index 58291e7..520e994 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -96,7 +96,8 @@ func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
 		}
 	}
 
-	filesProcess, err := cmd.RunLsFiles(
+	// Git heeds attributes that are in the working tree, tracked or not
+	filesProcess, err := cmd.RunLsAllFiles(
 		ctx,
 		[]string{":(top,glob)*/**/.gitattributes"},
 	)
-- 
2.43.0


From b19ee601baa3cef7cfae85a3836a045a7be03f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:02 +0000
Subject: [PATCH 59/60] fix: don't allocate memory for data that is not in the
 cache

---
 internal/cache/backends/gob.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 51214c3..9f68284 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -165,14 +165,15 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			// -- Decode next gob --
 			var commits []git.Commit
 
-			data := make([]byte, size)
-			_, err = io.ReadFull(f, data)
+			// Size might be nonsense, so don't allocate before there is data
+			var data bytes.Buffer
+			_, err = io.CopyN(&data, f, int64(size))
 			if err != nil {
 				iterErr = fmt.Errorf("truncated cache entry: %w", err)
 				return
 			}
 
-			dec := gob.NewDecoder(bytes.NewReader(data))
+			dec := gob.NewDecoder(&data)
 			err = dec.Decode(&commits)
 			if err != nil {
 				iterErr = err
-- 
2.43.0


From 744ac89092073ece2498ef09f052f2559882cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:16 +0000
Subject: [PATCH 60/60] fix: don't mistake one mailmap for another that has the
 same short hash

---
 internal/cache/cache.go      | 4 ++--
 internal/git/config/files.go | 3 ++-
 internal/git/config/state.go | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index 366efa1..9aaaaf3 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -2,9 +2,9 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"iter"
 	"os"
 	"os/user"
@@ -180,7 +180,7 @@ func repoStateHash(
 	gitRootPath string,
 	sf config.SupplementalFiles,
 ) (string, error) {
-	h := fnv.New32()
+	h := sha256.New()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 0e15fe7..7e077e5 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -29,7 +29,7 @@ func (sf SupplementalFiles) HasIgnoreRevs() bool {
 	return len(sf.IgnoreRevsPath) > 0
 }
 
-func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
+func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 	if len(sf.RepoMailmapPath) > 0 {
 		f, err := os.Open(sf.RepoMailmapPath)
 		if !errors.Is(err, fs.ErrNotExist) {
@@ -42,6 +42,7 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 			if err != nil {
 				return fmt.Errorf("error hashing repo mailmap file: %v", err)
 			}
+			fmt.Fprint(h, "\x00") // Where one file ends and the next begins matters
 		}
 	}
 
diff --git a/internal/git/config/state.go b/internal/git/config/state.go
index 520e994..e3f05ee 100644
--- a/internal/git/config/state.go
+++ b/internal/git/config/state.go
@@ -24,7 +24,7 @@ const diffSettingsPattern = `^(diff\.|submodule\..*\.ignore$|attr\.tree$` +
 // in the repository.
 //
 // Nothing is added to the hash in a repository that has none of these.
-func RepoStateHash(gitRootPath string, h hash.Hash32) (err error) {
+func RepoStateHash(gitRootPath string, h hash.Hash) (err error) {
 	defer func() {
 		if err != nil {
 			err = fmt.Errorf("error hashing state of repository: %w", err)
@@ -189,7 +189,7 @@ func readLines(subprocess *cmd.Subprocess) ([]string, error) {
 	return res, subprocess.Wait()
 }
 
-func hashFile(p string, h hash.Hash32) error {
+func hashFile(p string, h hash.Hash) error {
 	f, err := os.Open(p)
 	if errors.Is(err, fs.ErrNotExist) {
 		return nil
-- 
2.43.0

