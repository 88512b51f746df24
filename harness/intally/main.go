// Tallies every split of every short history and combines the parts in every
// order and grouping.  Built into /repo/internal through an overlay, since it
// calls the exported functions of package tally.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"iter"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/tally"
)

type in struct {
	Levels []level
	Show   []int // one history only: its letters
	ShowL  int
	Plan   string
	Secs   float64
}

// All histories of N commits over the first letters of the alphabet.
type level struct{ N, Letters int }

type out struct {
	Histories, Combinations, Comparisons int64
	Bad                                  []bad
	Done                                 bool
}

type bad struct {
	What    string
	Level   int
	Letters []int
	Plan    string
}

var base = time.Date(2024, 1, 30, 10, 0, 0, 0, time.UTC)

// The order puts the letters that differ most first.
func alphabet() []git.Commit {
	who := [][2]string{{"Ann", "a@x"}, {"Bob", "b@x"}, {"Ann", "b@x"}, {"", "a@x"}, {"Cy", ""}}
	diffs := [][]git.FileDiff{
		{{Path: "x", LinesAdded: 2, LinesRemoved: 1}},
		{{Path: "x", LinesAdded: 1}, {Path: "d/y", LinesAdded: 3}},
		nil,
		{{Path: "d/y"}, {Path: "d/e/z", LinesRemoved: 4}},
	}
	days := []int{0, 3, 1, 0}
	var r []git.Commit
	mk := func(w, d, t int, merge bool) {
		c := git.Commit{AuthorName: who[w][0], AuthorEmail: who[w][1], IsMerge: merge, Date: base.AddDate(0, 0, days[t])}
		if t == 3 {
			c.Date = c.Date.Add(-3 * time.Hour)
		}
		if !merge {
			c.FileDiffs = diffs[d]
		}
		r = append(r, c)
	}
	mk(0, 0, 0, false)
	mk(1, 1, 1, false)
	mk(2, 3, 0, false)
	mk(0, 2, 3, true)
	mk(3, 1, 2, false)
	mk(1, 2, 0, false)
	mk(0, 1, 2, false)
	mk(4, 0, 1, false)
	mk(2, 0, 3, true)
	for w := range who {
		for d := range diffs {
			for t := range days {
				mk(w, d, t, false)
			}
		}
		mk(w, 0, 1, true)
	}
	return r
}

// ------------------------------------------------------------------ reference
type ref struct {
	name, email string
	commits     map[string]bool
	add, rem    int
	files       map[string]bool
	first, last time.Time
}

func (r *ref) see(c git.Commit, diffs []git.FileDiff) {
	if r.commits == nil {
		r.commits, r.files = map[string]bool{}, map[string]bool{}
		r.first, r.last = c.Date, c.Date
	}
	if c.AuthorName != "" && (r.name == "" || c.AuthorName < r.name) {
		r.name = c.AuthorName
	}
	if c.AuthorEmail != "" && (r.email == "" || c.AuthorEmail < r.email) {
		r.email = c.AuthorEmail
	}
	r.commits[c.Hash] = true
	if c.Date.Before(r.first) {
		r.first = c.Date
	}
	if c.Date.After(r.last) {
		r.last = c.Date
	}
	for _, d := range diffs {
		r.add += d.LinesAdded
		r.rem += d.LinesRemoved
		r.files[d.Path] = true
	}
}

// What is compared; parts that do not count are left zero.
type sum struct {
	name, email              string
	commits, add, rem, files int
	first, last              int64
}

func (r *ref) str(times bool, files bool) sum {
	s := sum{name: r.name, email: r.email, commits: len(r.commits), add: r.add, rem: r.rem}
	if files {
		s.files = len(r.files)
	}
	if times {
		s.first, s.last = r.first.Unix(), r.last.Unix()
	}
	return s
}

func str(t tally.FinalTally, times bool, files bool) sum {
	s := sum{name: t.AuthorName, email: t.AuthorEmail, commits: t.Commits, add: t.LinesAdded, rem: t.LinesRemoved}
	if files {
		s.files = t.FileCount
	}
	if times {
		s.first, s.last = t.FirstCommitTime.Unix(), t.LastCommitTime.Unix()
	}
	return s
}

func sortKey(r *ref, mode tally.TallyMode) int64 {
	switch mode {
	case tally.CommitMode:
		return int64(len(r.commits))
	case tally.FilesMode:
		return int64(len(r.files))
	case tally.LinesMode:
		return int64(r.add + r.rem)
	case tally.FirstModifiedMode:
		return -r.first.Unix()
	}
	return r.last.Unix()
}

func ranked(m map[string]*ref, mode tally.TallyMode, times bool) []*ref {
	var l []*ref
	for _, r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if x, y := sortKey(a, mode), sortKey(b, mode); x != y {
			return x > y
		}
		if times && !a.last.Equal(b.last) {
			return a.last.After(b.last)
		}
		if a.name != b.name {
			return a.name < b.name
		}
		return a.email < b.email
	})
	return l
}

func (h *hist) ranked(what string, m map[string]*ref, mode tally.TallyMode, times, files bool) []sum {
	k := memo{what, mode, times}
	r, ok := h.memo[k]
	if !ok {
		for _, x := range ranked(m, mode, times) {
			r = append(r, x.str(times, files))
		}
		if h.memo == nil {
			h.memo = map[memo][]sum{}
		}
		h.memo[k] = r
	}
	return r
}

// ---------------------------------------------------------------- one history
type hist struct {
	cs   []git.Commit
	opts tally.TallyOpts
	key  string
	// what is to come out
	byPath  map[string]map[string]*ref
	authors map[string]*ref
	days    map[int64]map[string]*ref
	months  map[string]map[string]*ref
	tree    map[string]map[string]*ref // directory or file -> author
	cmp     int64
	memo    map[memo][]sum
	noDiffs map[string]*ref
}

type memo struct {
	what  string
	mode  tally.TallyMode
	times bool
}

func (h *hist) prepare() {
	get := func(m map[string]*ref, k string) *ref {
		if m[k] == nil {
			m[k] = &ref{}
		}
		return m[k]
	}
	h.byPath, h.authors, h.days, h.months, h.tree = map[string]map[string]*ref{}, map[string]*ref{}, map[int64]map[string]*ref{}, map[string]map[string]*ref{}, map[string]map[string]*ref{}
	for _, c := range h.cs {
		if c.IsMerge && !h.opts.CountMerges {
			continue
		}
		k := h.opts.Key(c)
		get(h.authors, k).see(c, c.FileDiffs)
		if h.byPath[k] == nil {
			h.byPath[k] = map[string]*ref{}
		}
		ds := c.FileDiffs
		if len(ds) == 0 {
			ds = []git.FileDiff{{Path: tally.NoDiffPathname}}
		}
		dirs := map[string][]git.FileDiff{}
		for _, d := range ds {
			none := d.Path == tally.NoDiffPathname
			l := []git.FileDiff{d}
			if none {
				l = nil
			}
			get(h.byPath[k], d.Path).see(c, l)
			p := d.Path
			for {
				dirs[p] = append(dirs[p], l...)
				if p == "" {
					break
				}
				i := strings.LastIndexByte(p, '/')
				p = p[:max(i, 0)]
			}
		}
		for p, l := range dirs {
			if h.tree[p] == nil {
				h.tree[p] = map[string]*ref{}
			}
			get(h.tree[p], k).see(c, l)
		}
		d := c.Date.Truncate(24 * time.Hour).Unix()
		if h.days[d] == nil {
			h.days[d] = map[string]*ref{}
		}
		get(h.days[d], k).see(c, c.FileDiffs)
		m := c.Date.Format("Jan 2006")
		if h.months[m] == nil {
			h.months[m] = map[string]*ref{}
		}
		get(h.months[m], k).see(c, c.FileDiffs)
	}
}

func check[T comparable](h *hist, what string, got, want T) error {
	h.cmp++
	if got != want {
		return fmt.Errorf("%s (%s): got %+v, should be %+v", what, h.key, got, want)
	}
	return nil
}

var modes = []tally.TallyMode{tally.CommitMode, tally.LinesMode, tally.FilesMode, tally.LastModifiedMode, tally.FirstModifiedMode}

func (h *hist) ranks(what string, got map[string]tally.Tally, want map[string]*ref, times, files bool) error {
	for round := 0; round < 2; round++ { // ranking changes nothing
		for _, mode := range modes {
			if !times && (mode == tally.LastModifiedMode || mode == tally.FirstModifiedMode) || !files && mode == tally.FilesMode {
				continue
			}
			g := tally.Rank(got, mode)
			w := h.ranked(what, want, mode, times, files)
			h.cmp++
			if len(g) != len(w) {
				return fmt.Errorf("%s (%s): %d authors, should be %d", what, h.key, len(g), len(w))
			}
			for i := range g {
				if a, b := str(g[i], times, files), w[i]; a != b {
					return fmt.Errorf("%s (%s), mode %d, rank %d, round %d: got %+v, should be %+v", what, h.key, mode, i, round, a, b)
				}
			}
		}
	}
	return nil
}

// The parts of a history and the ways to put them together again.
type combinable[T any] interface{ Combine(T) T }

func parts[T any](h *hist, blocks [][]int, f func(iter.Seq[git.Commit], tally.TallyOpts) (T, error)) []T {
	r := make([]T, len(blocks))
	for i, b := range blocks {
		var l []git.Commit
		for _, j := range b {
			c := h.cs[j]
			c.FileDiffs = slices.Clone(c.FileDiffs)
			l = append(l, c)
		}
		t, err := f(slices.Values(l), h.opts)
		if err != nil {
			panic(err)
		}
		r[i] = t
	}
	return r
}

type step struct{ a, b int } // combine a with b, put the result in a's place, remove b

func plans(k int, f func([]step) bool) {
	var rec func(n int, s []step) bool
	rec = func(n int, s []step) bool {
		if n == 1 {
			return f(s)
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if a != b && !rec(n-1, append(s, step{a, b})) {
					return false
				}
			}
		}
		return true
	}
	rec(k, nil)
}

func follow[T combinable[T]](ps []T, plan []step) T {
	ps = slices.Clone(ps)
	for _, s := range plan {
		ps[s.a] = ps[s.a].Combine(ps[s.b])
		ps = slices.Delete(ps, s.b, s.b+1)
	}
	return ps[0]
}

func partitions(n int, f func([][]int) bool) {
	var rec func(i int, bl [][]int) bool
	rec = func(i int, bl [][]int) bool {
		if i == n {
			return f(bl)
		}
		for j := range bl {
			c := slices.Clone(bl)
			c[j] = append(slices.Clone(bl[j]), i)
			if !rec(i+1, c) {
				return false
			}
		}
		return rec(i+1, append(slices.Clone(bl), []int{i}))
	}
	rec(0, nil)
}

func (h *hist) one(blocks [][]int, plan []step) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	// ---- by path, and by author
	bp := follow(parts(h, blocks, tally.TallyCommitsByPath), plan)
	for k, ps := range bp {
		for p, t := range ps {
			w := h.byPath[k][p]
			if w == nil {
				return fmt.Errorf("by path: %q %q should not be there", k, p)
			}
			if err := check(h, p, str(t.Final(), true, p != tally.NoDiffPathname), w.str(true, p != tally.NoDiffPathname)); err != nil {
				return err
			}
		}
		if len(ps) != len(h.byPath[k]) {
			return fmt.Errorf("by path: %q has %d paths, should be %d", k, len(ps), len(h.byPath[k]))
		}
	}
	if len(bp) != len(h.byPath) {
		return fmt.Errorf("by path: %d authors, should be %d", len(bp), len(h.byPath))
	}
	for range 2 { // reducing changes nothing
		if err := h.ranks("authors", bp.Reduce(), h.authors, true, true); err != nil {
			return err
		}
	}
	// ---- tree
	root, err := tally.TallyCommitsTreeFromPaths(bp, map[string]bool{"x": true, "d/y": true}, "")
	if errors.Is(err, tally.EmptyTreeErr) {
		if len(h.byPath) > 0 {
			return fmt.Errorf("tree is empty")
		}
	} else if err != nil {
		return err
	} else {
		mode := modes[len(plan)%len(modes)]
		root = root.Rank(mode)
		n := 0
		var walk func(p string, t *tally.TreeNode) error
		walk = func(p string, t *tally.TreeNode) error {
			n++
			w := h.tree[p]
			if w == nil {
				return fmt.Errorf("tree: %q should not be there", p)
			}
			files := p != tally.NoDiffPathname
			if err := check(h, p, str(t.Tally, true, files), h.ranked("tree "+p, w, mode, true, files)[0]); err != nil {
				return err
			}
			for c, ch := range t.Children {
				q := c
				if p != "" {
					q = p + "/" + c
				}
				if err := walk(q, ch); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk("", root); err != nil {
			return err
		}
		if n != len(h.tree) {
			return fmt.Errorf("tree has %d nodes, should be %d", n, len(h.tree))
		}
	}
	// ---- by author without diffs
	o := h.opts
	h.opts.Mode = tally.CommitMode
	ms := parts(h, blocks, tally.TallyCommits)
	h.opts = o
	cs := make([]authors, len(ms))
	for i := range ms {
		cs[i] = ms[i]
	}
	if err := h.ranks("commits", follow(cs, plan), h.authors2(), true, false); err != nil {
		return err
	}
	// ---- days, then months
	ts := follow(parts(h, blocks, func(c iter.Seq[git.Commit], o tally.TallyOpts) (tally.TimeSeries, error) {
		return tally.TallyCommitsByDate(c, o)
	}), plan)
	seen := 0
	for i, b := range ts {
		if i > 0 && !ts[i-1].Time.Before(b.Time) {
			return fmt.Errorf("days out of order: %v, %v", ts[i-1].Time, b.Time)
		}
	}
	for _, mode := range modes[:3] {
		for round := 0; round < 2; round++ {
			seen = 0
			for _, b := range ts {
				w := h.days[b.Time.Unix()]
				if w != nil {
					seen++
				}
				if err := h.bucket("day "+b.Name, b.Rank(mode), w, mode); err != nil {
					return err
				}
			}
			if seen != len(h.days) {
				return fmt.Errorf("%d days with commits, should be %d", seen, len(h.days))
			}
		}
	}
	if len(ts) > 0 {
		end := base.AddDate(0, 4, 0)
		re := tally.Rebucket(ts, tally.CalcResolution(base, end), end)
		for _, mode := range modes[:3] {
			seen = 0
			for _, b := range re {
				w := h.months[b.Name]
				if w != nil {
					seen++
				}
				if err := h.bucket("month "+b.Name, b.Rank(mode), w, mode); err != nil {
					return err
				}
			}
			if seen != len(h.months) {
				return fmt.Errorf("%d months with commits, should be %d", seen, len(h.months))
			}
		}
	}
	return nil
}

func (h *hist) bucket(what string, b tally.TimeBucket, w map[string]*ref, mode tally.TallyMode) error {
	if len(w) == 0 {
		if b.Value(mode) != 0 || b.TotalValue(mode) != 0 {
			return fmt.Errorf("%s: should be empty", what)
		}
		return nil
	}
	win := h.ranked(what, w, mode, false, true)[0]
	if err := check(h, what, str(b.Tally, false, true), win); err != nil {
		return err
	}
	k := memo{"total " + what, mode, false}
	tot, ok := h.memo[k]
	if !ok {
		all := &ref{commits: map[string]bool{}, files: map[string]bool{}}
		for _, r := range w {
			for c := range r.commits {
				all.commits[c] = true
			}
			for f := range r.files {
				all.files[f] = true
			}
			all.add += r.add
			all.rem += r.rem
		}
		tot = []sum{all.str(false, true)}
		h.memo[k] = tot
	}
	if err := check(h, what+" total", b.TotalValue(mode), tot[0].value(mode)); err != nil {
		return err
	}
	return check(h, what+" value", b.Value(mode), win.value(mode))
}

func (s sum) value(mode tally.TallyMode) int {
	switch mode {
	case tally.CommitMode:
		return s.commits
	case tally.FilesMode:
		return s.files
	}
	return s.add + s.rem
}

type authors map[string]tally.Tally

func (a authors) Combine(b authors) authors {
	for k, t := range b {
		if l, ok := a[k]; ok {
			a[k] = l.Combine(t)
		} else {
			a[k] = t
		}
	}
	return a
}

// Without diffs there are no lines.
func (h *hist) authors2() map[string]*ref {
	if h.noDiffs != nil {
		return h.noDiffs
	}
	r := map[string]*ref{}
	for k, a := range h.authors {
		c := *a
		c.add, c.rem, c.files = 0, 0, nil
		r[k] = &c
	}
	h.noDiffs = r
	return r
}

func (h *hist) all(o *out) (string, error) {
	h.prepare()
	var err error
	var where string
	partitions(len(h.cs), func(bl [][]int) bool {
		for empty := 0; empty < 2; empty++ { // with a part that has no commits at all
			if empty == 1 {
				if len(bl) > 2 {
					continue
				}
				bl = append(slices.Clone(bl), nil)
			}
			plans(len(bl), func(p []step) bool {
				o.Combinations++
				err = h.one(bl, p)
				if err != nil {
					where = fmt.Sprintf("parts %v combined as %v", bl, p)
				}
				return err == nil
			})
			if err != nil {
				return false
			}
		}
		return true
	})
	o.Comparisons += h.cmp
	return where, err
}

func run(letters []int, al []git.Commit, o *out) (string, error) {
	for v := 0; v < 4; v++ {
		h := &hist{}
		h.opts = tally.TallyOpts{Mode: tally.LinesMode, CountMerges: v&1 > 0, Key: func(c git.Commit) string { return c.AuthorName }}
		h.key = "by name"
		if v&2 > 0 {
			h.opts.Key = func(c git.Commit) string { return c.AuthorEmail }
			h.key = "by email"
		}
		if h.opts.CountMerges {
			h.key += ", with merges"
		}
		for i, l := range letters {
			c := al[l]
			c.Hash = fmt.Sprintf("%040d", i+1)
			c.ShortHash = fmt.Sprintf("%07d", i+1)
			c.Date = c.Date.Add(time.Duration(i) * time.Second)
			h.cs = append(h.cs, c)
		}
		if where, err := h.all(o); err != nil {
			return h.key + ": " + where, err
		}
	}
	return "", nil
}

func main() {
	time.Local = time.UTC
	debug.SetGCPercent(800)
	var cfg in
	if err := json.NewDecoder(os.Stdin).Decode(&cfg); err != nil {
		panic(err)
	}
	al := alphabet()
	res := out{Done: true}
	end := time.Now().Add(time.Duration(cfg.Secs * float64(time.Second)))
	if cfg.Show != nil {
		where, err := run(cfg.Show, al, &res)
		if err != nil {
			fmt.Println(where)
			fmt.Println(err)
			os.Exit(1)
		}
		return
	}
	for li, l := range cfg.Levels {
		total := 1
		for range l.N {
			total *= l.Letters
		}
		var mu sync.Mutex
		next := 0
		var wg sync.WaitGroup
		for range runtime.NumCPU() {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var o out
				for {
					mu.Lock()
					n := next
					next++
					stop := n >= total || len(res.Bad) >= 5
					if !stop && time.Now().After(end) {
						stop = true
						res.Done = false
					}
					mu.Unlock()
					if stop {
						break
					}
					letters := make([]int, l.N)
					for i, m := 0, n; i < l.N; i++ {
						letters[i] = m % l.Letters
						m /= l.Letters
					}
					where, err := run(letters, al, &o)
					o.Histories++
					if err != nil {
						mu.Lock()
						var d []string
						for _, x := range letters {
							c := al[x]
							d = append(d, fmt.Sprintf("%s <%s> %s merge:%v %v", c.AuthorName, c.AuthorEmail, c.Date.Format("01-02"), c.IsMerge, c.FileDiffs))
						}
						res.Bad = append(res.Bad, bad{fmt.Sprintf("%s: %v\nhistory: %s", where, err, strings.Join(d, "; ")), li, letters, where})
						mu.Unlock()
					}
				}
				mu.Lock()
				res.Histories += o.Histories
				res.Combinations += o.Combinations
				res.Comparisons += o.Comparisons
				mu.Unlock()
			}()
		}
		wg.Wait()
		if len(res.Bad) > 0 {
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
