package main

// Explicit-state exploration of what the cache can contain: states are contents
// of the cache directory, transitions are complete runs of the real program,
// runs killed at a file operation, damage to files, and overlapping runs.

import (
	"bytes"
	"compress/gzip"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Proc struct {
	Argv   []string `json:"argv"`
	Cwd    string   `json:"cwd"`
	Env    []string `json:"env"`
	Memo   string   `json:"memo"`
	Ncpu   int      `json:"ncpu"`
	Expect string   `json:"expect"`
}

// One transition.
type Step struct {
	Kind   string   `json:"kind"` // run, crash, damage, pair
	Cmd    int      `json:"cmd"`
	Policy int      `json:"policy"`
	Op     int      `json:"op"`
	Cut    int      `json:"cut"`
	Damage []string `json:"damage,omitempty"`
	At     [][2]int `json:"at,omitempty"`
}

const (
	fsLog   = 16
	fsToken = 8
	fsCrash = 32
	fsBase  = dec + decMax
	fsMax   = 1 << 15
	fsWrite = 5
)

func mutates(op uint32) bool { return op != 1 && op != 4 && op != 9 }

type tree map[string]string // directories have the content "\x00dir"

const isDir = "\x00dir"

func load(d string) tree {
	t := tree{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == d {
			return nil
		}
		r, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			t[r] = isDir
		} else {
			b, err := os.ReadFile(p)
			check(err)
			t[r] = string(b)
		}
		return nil
	})
	return t
}

func (t tree) paths() []string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func (t tree) hash() string {
	h := sha1.New()
	for _, p := range t.paths() {
		fmt.Fprintf(h, "%s\x00%d\x00%s\x00", p, len(t[p]), t[p])
	}
	return hex.EncodeToString(h.Sum(nil)[:10])
}

func (t tree) clone() tree {
	c := tree{}
	for p, b := range t {
		c[p] = b
	}
	return c
}

func (w *worker) put(t tree) {
	check(os.RemoveAll(w.cache))
	check(os.MkdirAll(w.cache, 0755))
	for _, p := range t.paths() {
		f := filepath.Join(w.cache, p)
		if t[p] == isDir {
			check(os.MkdirAll(f, 0755))
		} else {
			check(os.WriteFile(f, []byte(t[p]), 0644))
		}
	}
}

type state struct {
	t       tree
	crashes int
	after   int // runs since the last thing that went wrong
	steps   []Step
	wide    bool // crash runs that start here are explored
}

// A finite set of states and work, explored by all workers.
type search struct {
	s       *jobState
	j       *Job
	mu      sync.Mutex
	cond    *sync.Cond
	seen    map[string]int
	queue   []func(w *worker)
	busy    int
	cut     bool
	collect func(state)
	worlds  map[*worker]*world
}

func (x *search) push(f func(w *worker)) {
	x.mu.Lock()
	x.queue = append(x.queue, f)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *search) loop(w *worker) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		for len(x.queue) == 0 && x.busy > 0 {
			x.cond.Wait()
		}
		if len(x.queue) == 0 {
			x.cond.Broadcast()
			return
		}
		f := x.queue[0]
		x.queue = x.queue[1:]
		if x.cut || time.Now().After(deadline) || stop() {
			x.cut = true
			x.queue = nil
			x.cond.Broadcast()
			continue
		}
		x.busy++
		x.mu.Unlock()
		f(w)
		x.mu.Lock()
		x.busy--
		x.cond.Broadcast()
	}
}

func (x *search) violate(kind, detail string, steps []Step, e *exe, expect string, argv []string) {
	x.mu.Lock()
	key := kind + detail
	x.s.violated[key]++
	first := x.s.violated[key] == 1 && len(x.s.violated) < 6
	x.s.res.Outcomes[kind]++
	x.mu.Unlock()
	if !first {
		return
	}
	violMu.Lock()
	result.Violations = append(result.Violations, Violation{Job: x.j.Name, Kind: kind, Detail: detail, Forced: [][2]int{}, Stdout: clip(e.stdout), Stderr: clip(e.stderr),
		Expect: clip(expect), Follow: argv, Steps: steps})
	violMu.Unlock()
}

func steps(a []Step, b ...Step) []Step { return append(append([]Step{}, a...), b...) }

// Judges a complete run that nothing disturbs.
func soundRun(e *exe, expect string) (kind, detail string) {
	switch {
	case e.timeout:
		return "hang", "does not finish"
	case e.status == 3 || e.status == 4:
		return "livelock", "does not finish"
	case crashed(e.stderr) || e.code < 0:
		return "crash", "panic or fatal error"
	case e.code != 0:
		return "fails", fmt.Sprintf("exit status %d", e.code)
	case e.stdout != expect:
		return "wrong", "wrong answer"
	}
	return "", ""
}

// All follow-up commands from a state that was not seen before.
func (x *search) add(st state) {
	if x.collect != nil {
		x.collect(st)
		return
	}
	h := st.t.hash()
	x.mu.Lock()
	if best, ok := x.seen[h]; ok && best <= st.after {
		x.mu.Unlock()
		return
	}
	x.seen[h] = st.after
	x.s.res.CacheStates = len(x.seen)
	x.mu.Unlock()
	if st.after < x.j.After {
		for c := range x.j.Follow {
			x.push(func(w *worker) { x.follow(w, st, c) })
		}
	}
	if st.wide && st.crashes < x.j.Crashes {
		x.push(func(w *worker) { x.crash(w, st) })
	}
}

func (x *search) follow(w *worker, st state, c int) {
	f := x.j.Follow[c]
	w.put(st.t)
	e := w.run(x.j, f.Argv, f.Env, 0, 0, x.j.Horizon*4, nil, 60*time.Second)
	kind, detail := soundRun(&e, f.Expect)
	for k := 0; kind != "" && k < 2; k++ {
		w.put(st.t)
		e = w.run(x.j, f.Argv, f.Env, 0, 0, 1000000, nil, 60*time.Second)
		k2, d2 := soundRun(&e, f.Expect)
		if k2 == "" {
			x.mu.Lock()
			x.s.res.Unconfirmed++
			x.mu.Unlock()
		}
		kind, detail = k2, d2
	}
	x.mu.Lock()
	x.s.res.FollowRuns++
	x.s.res.Transitions++
	x.s.res.Points += int64(e.points)
	x.mu.Unlock()
	all := steps(st.steps, Step{Kind: "run", Cmd: c})
	if kind != "" {
		x.violate("later "+kind, fmt.Sprintf("after %s: 'git who %s': %s", describe(st.steps), strings.Join(f.Argv, " "), detail), all, &e, f.Expect, f.Argv)
		return
	}
	x.add(state{t: load(w.cache), crashes: st.crashes, after: st.after + 1, steps: all})
}

func describe(ss []Step) string {
	var r []string
	for _, s := range ss {
		switch s.Kind {
		case "run":
			r = append(r, fmt.Sprintf("run of command %d", s.Cmd))
		case "crash":
			r = append(r, fmt.Sprintf("command %d killed at file operation %d, byte %d (policy %d)", s.Cmd, s.Op, s.Cut, s.Policy))
		case "damage":
			r = append(r, "damage "+strings.Join(s.Damage, " "))
		case "pair":
			r = append(r, fmt.Sprintf("overlapping runs %v", s.At))
		}
	}
	if len(r) == 0 {
		return "nothing"
	}
	return strings.Join(r, ", then ")
}

// Every way in which a run from this state can be killed.
func (x *search) crash(w *worker, st state) {
	j := x.j
	x.mu.Lock()
	x.s.res.Sources++
	x.mu.Unlock()
	for c, cmd := range j.Crashed {
		pol := j.Policies
		if st.crashes > 0 {
			pol = pol[:1]
		}
		for _, p := range pol {
			w.put(st.t)
			e := w.run(j, cmd.Argv, cmd.Env, p, fsLog, j.Horizon, nil, 60*time.Second)
			n := int(min(w.word(out+3), fsMax))
			ops := make([]uint32, n)
			for i := range ops {
				ops[i] = w.word(fsBase + i)
			}
			if k, d := soundRun(&e, cmd.Expect); k != "" {
				// judged by the checks of the undisturbed program, unless something went wrong before
				if st.crashes > 0 {
					x.violate("later "+k, fmt.Sprintf("after %s: 'git who %s': %s", describe(st.steps), strings.Join(cmd.Argv, " "), d), steps(st.steps, Step{Kind: "whole", Cmd: c, Policy: p}), &e, cmd.Expect, cmd.Argv)
				}
				continue
			}
			for i, o := range ops {
				if !mutates(o >> 24) {
					continue
				}
				size := int(o & 0xffffff)
				cuts := []int{0}
				if o>>24 == fsWrite && size > 1 {
					if st.crashes == 0 && size <= 4096 {
						for k := 1; k < size; k++ {
							cuts = append(cuts, k)
						}
					} else {
						cuts = append(cuts, size/2, size-1)
					}
				}
				for _, k := range cuts {
					wide := k == 0 || k == size/2
					x.push(func(w *worker) {
						w.put(st.t)
						w.prepare(j, p, fsCrash, j.Horizon, nil)
						w.set(6, uint32(i))
						w.set(7, uint32(k))
						e := w.launch(w.command(j, cmd.Argv, cmd.Env), 60*time.Second)
						x.mu.Lock()
						x.s.res.Executions++
						x.s.res.Transitions++
						x.s.res.Points += int64(e.points)
						ok := e.code == -1 && !e.timeout && !crashed(e.stderr)
						if ok {
							x.s.res.Outcomes["killed"]++
						} else {
							x.s.res.Outcomes["not killed"]++
							x.s.res.Diverged++
						}
						x.mu.Unlock()
						x.add(state{t: load(w.cache), crashes: st.crashes + 1, steps: steps(st.steps, Step{Kind: "crash", Cmd: c, Policy: p, Op: i, Cut: k}), wide: wide})
					})
				}
			}
		}
	}
}

// ---------------------------------------------------------------- damage

func zip(s string) string {
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	z.Write([]byte(s))
	z.Close()
	return b.String()
}

func unzip(s string) (string, bool) {
	z, err := gzip.NewReader(strings.NewReader(s))
	if err != nil {
		return "", false
	}
	b, err := io.ReadAll(z)
	return string(b), err == nil
}

// Calls f with every way in which one content can be damaged.
func damaged(s string, kinds map[string]bool, f func(name, content string)) {
	n := len(s)
	if kinds["cut"] {
		for i := 0; i < n; i++ {
			f(fmt.Sprintf("truncated to %d", i), s[:i])
		}
	}
	if kinds["zero"] {
		for i := 0; i < n; i++ {
			f(fmt.Sprintf("zeroed from %d", i), s[:i]+strings.Repeat("\x00", n-i))
		}
		for i := 1; i <= n; i++ {
			f(fmt.Sprintf("zeroed up to %d", i), strings.Repeat("\x00", i)+s[i:])
		}
	}
	set := func(i int, c byte) {
		if s[i] != c {
			f(fmt.Sprintf("byte %d set to %d", i, c), s[:i]+string([]byte{c})+s[i+1:])
		}
	}
	if kinds["byte"] {
		for i := 0; i < n; i++ {
			set(i, 0)
			set(i, s[i]^255)
			set(i, s[i]^1)
		}
	}
	if kinds["bits"] {
		for i := 0; i < n; i++ {
			for b := 1; b < 7; b++ {
				set(i, s[i]^byte(1<<b))
			}
			set(i, s[i]^128)
			set(i, 255)
			set(i, ' ')
		}
	}
	if kinds["swap"] {
		for i := 0; i+8 <= n; i += 4 {
			f(fmt.Sprintf("words at %d swapped", i), s[:i]+s[i+4:i+8]+s[i:i+4]+s[i+8:])
		}
		for i := 0; i < n; i++ {
			f(fmt.Sprintf("byte %d missing", i), s[:i]+s[i+1:])
		}
		for i := 0; i <= n; i++ {
			f(fmt.Sprintf("extra byte at %d", i), s[:i]+"\x00"+s[i:])
		}
	}
	if kinds["replace"] {
		in, ok := unzip(s)
		for k, v := range map[string]string{"empty": "", "a zero": "\x00", "four zeros": "\x00\x00\x00\x00", "text": "this is not a cache\n", "ones": strings.Repeat("\xff", 64),
			"zeros": strings.Repeat("\x00", 300), "zipped nothing": zip(""), "zipped text": zip("this is not a cache\n"), "zipped zeros": zip(strings.Repeat("\x00", 300)),
			"zipped ones": zip(strings.Repeat("\xff", 300)), "zipped zip": zip(s), "twice": s + s, "with text": s + "x", "with zeros": s + "\x00\x00\x00", "large size": "\xff\xff\xff\x7fabc", "zipped large size": zip("\xff\xff\xff\x7fabc"), "{": "{\"a\":1}\n"} {
			f(k, v)
		}
		f("directory", isDir)
		if ok {
			f("unzipped", in)
			f("zipped twice the content", zip(in+in))
			f("content with text", zip(in+"xyz"))
			f("content with zeros", zip(in+"\x00\x00\x00\x00\x00"))
			for i := 0; i < len(in); i++ {
				f(fmt.Sprintf("content truncated to %d", i), zip(in[:i]))
			}
		}
	}
}

var anyRepo = regexp.MustCompile("-[0-9a-f]{1,8}(/|$)")

func (x *search) damage(st state) {
	kinds := map[string]bool{}
	for _, k := range x.j.Damage {
		kinds[k] = true
	}
	n := 0
	emit := func(t tree, d ...string) {
		n++
		d[0] = anyRepo.ReplaceAllString(d[0], "-*$1")
		x.add(state{t: t, crashes: 1, steps: steps(st.steps, Step{Kind: "damage", Damage: d})})
	}
	var files, dirs []string
	for _, p := range st.t.paths() {
		if st.t[p] == isDir {
			dirs = append(dirs, p)
		} else {
			files = append(files, p)
		}
	}
	for _, p := range files {
		damaged(st.t[p], kinds, func(name, content string) {
			t := st.t.clone()
			t[p] = content
			emit(t, p, name)
		})
		t := st.t.clone()
		delete(t, p)
		emit(t, p, "removed")
		// what an interrupted run may have left beside it
		if in, ok := unzip(st.t[p]); ok && strings.HasSuffix(p, ".gz") {
			q := strings.TrimSuffix(p, ".gz")
			left := func(name, content string) {
				for _, gone := range []bool{false, true} {
					t := st.t.clone()
					if gone {
						delete(t, p)
					}
					t[q] = content
					emit(t, q, "left behind:", name, fmt.Sprint(gone))
				}
			}
			left("complete", in)
			damaged(in, map[string]bool{"cut": kinds["cut"], "zero": kinds["zero"]}, left)
			left("twice", in+in)
			left("directory", isDir)
			left("text", "this is not a cache\n")
		}
		if kinds["replace"] {
			for _, o := range []string{"other.gobs", "other.gobs.gz", "x", "dir/y", ".hidden"} {
				t := st.t.clone()
				d := filepath.Dir(p)
				if strings.Contains(o, "/") {
					t[filepath.Join(d, "dir")] = isDir
				}
				t[filepath.Join(d, o)] = st.t[p]
				emit(t, o, "beside it")
			}
		}
	}
	for _, d := range dirs {
		for _, v := range []string{"", "this is a file\n"} {
			t := tree{}
			for p, b := range st.t {
				if p != d && !strings.HasPrefix(p, d+"/") {
					t[p] = b
				}
			}
			t[d] = v
			emit(t, d, "replaced with a file")
			delete(t, d)
			emit(t.clone(), d, "removed")
		}
	}
	x.mu.Lock()
	x.s.res.Executions += n
	x.s.res.Outcomes["damaged"] += n
	x.mu.Unlock()
}

// ---------------------------------------------------------------- overlapping runs

type pairNode struct {
	at      [][2]int // at the n-th grant, let process c go (or kill it: c+16)
	preempt int
	kills   int
}

type grant struct {
	cur   int
	alive []int
	kind  byte
}

type live struct {
	c     *exec.Cmd
	ops   *os.File
	grant *os.File
	op    byte
	ended bool
	kill  bool
	e     exe
	w     *worker
}

func (x *search) overlap(w *worker, n pairNode) ([]grant, []*live) {
	j := x.j
	for len(w.subs) < len(j.Procs) {
		s := newWorker(w.id + "p" + fmt.Sprint(len(w.subs)))
		s.cache = w.cache
		w.subs = append(w.subs, s)
	}
	w.restore(j.CacheTpl)
	var ps []*live
	for i, p := range j.Procs {
		s := w.subs[i]
		pj := &Job{Bin: j.Bin, Cwd: p.Cwd, Env: append(append([]string{}, j.Env...), p.Env...), Memo: p.Memo, Ncpu: p.Ncpu}
		pol := 0
		if len(j.Policies) > 0 {
			pol = j.Policies[i%len(j.Policies)]
		}
		s.prepare(pj, pol, fsToken, j.Horizon, nil)
		c := s.command(pj, p.Argv, nil)
		or, ow, err := os.Pipe()
		check(err)
		gr, gw, err := os.Pipe()
		check(err)
		c.ExtraFiles = []*os.File{ow, gr}
		check(c.Start())
		limitMemory(c)
		ow.Close()
		gr.Close()
		ps = append(ps, &live{c: c, ops: or, grant: gw, w: s})
	}
	end := func(p *live, hung bool) {
		if hung {
			syscall.Kill(-p.c.Process.Pid, syscall.SIGKILL)
		}
		p.c.Wait()
		p.e = p.w.collect(p.c, hung)
		p.ended = true
		p.ops.Close()
		p.grant.Close()
	}
	await := func(p *live) {
		var b [1]byte
		p.ops.SetReadDeadline(time.Now().Add(60 * time.Second))
		k, err := p.ops.Read(b[:])
		if k == 1 {
			p.op = b[0]
			return
		}
		end(p, os.IsTimeout(err))
	}
	for _, p := range ps {
		await(p)
	}
	var gs []grant
	cur := -1
	next := 0
	for {
		var alive []int
		for i, p := range ps {
			if !p.ended {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			return gs, ps
		}
		g := grant{cur: cur, alive: alive}
		if cur < 0 || ps[cur].ended {
			g.cur = -1
			cur = alive[0]
		}
		c := cur
		if next < len(n.at) && n.at[next][0] == len(gs) {
			c = n.at[next][1]
			next++
		}
		if c >= 16 {
			p := ps[c-16]
			if p.ended {
				return nil, ps
			}
			g.kind = p.op
			gs = append(gs, g)
			p.kill = true
			syscall.Kill(-p.c.Process.Pid, syscall.SIGKILL)
			end(p, false)
			continue
		}
		if ps[c].ended {
			for _, p := range ps {
				if !p.ended {
					end(p, true)
				}
			}
			return nil, ps
		}
		cur = c
		g.kind = ps[c].op
		gs = append(gs, g)
		ps[c].grant.Write([]byte{'g'})
		await(ps[c])
	}
}

func (x *search) pair(w *worker, n pairNode) {
	j := x.j
	gs, ps := x.overlap(w, n)
	if gs == nil {
		x.mu.Lock()
		x.s.res.Diverged++
		x.mu.Unlock()
		return
	}
	bad, kind, detail := x.judgePair(ps)
	for k := 0; kind != "" && k < 2; k++ {
		gs, ps = x.overlap(w, n)
		if bad, kind, detail = x.judgePair(ps); kind == "" {
			x.mu.Lock()
			x.s.res.Unconfirmed++
			x.mu.Unlock()
		}
	}
	x.mu.Lock()
	r := x.s.res
	r.Executions++
	r.Transitions += len(gs)
	r.Points += int64(len(gs))
	r.MaxDec = max(r.MaxDec, len(gs))
	for _, p := range ps {
		switch {
		case p.kill:
			r.Outcomes["killed"]++
		case p.e.code == 0:
			r.Outcomes["right answer"]++
		default:
			r.Outcomes["clean error"]++
		}
	}
	x.mu.Unlock()
	me := Step{Kind: "pair", At: n.at}
	if kind != "" {
		x.violate(kind, fmt.Sprintf("process %d: %s", bad, detail), []Step{me}, &ps[bad].e, j.Procs[bad].Expect, j.Procs[bad].Argv)
		return
	}
	x.add(state{t: load(w.cache), crashes: 1, steps: []Step{me}})
	from := 0
	if len(n.at) > 0 {
		from = n.at[len(n.at)-1][0] + 1
	}
	for i := from; i < len(gs); i++ {
		g := gs[i]
		for _, a := range g.alive {
			pre := n.preempt
			if g.cur >= 0 {
				pre++
			}
			def := g.cur
			if g.cur < 0 {
				def = g.alive[0]
			}
			if a != def && pre <= j.Preempt {
				x.push2(pairNode{at: append(append([][2]int{}, n.at...), [2]int{i, a}), preempt: pre, kills: n.kills})
			}
			if n.kills < j.Kills && a == def {
				x.push2(pairNode{at: append(append([][2]int{}, n.at...), [2]int{i, a + 16}), preempt: n.preempt, kills: n.kills + 1})
			}
		}
	}
}

func (x *search) push2(n pairNode) { x.push(func(w *worker) { x.pair(w, n) }) }

func (x *search) judgePair(ps []*live) (int, string, string) {
	for i, p := range ps {
		e := &p.e
		switch {
		case p.kill:
		case e.timeout:
			return i, "hang", "does not finish"
		case e.status == 3 || e.status == 4:
			return i, "livelock", "does not finish"
		case crashed(e.stderr) || e.code < 0 || e.code == 95:
			return i, "crash", "panic or fatal error"
		case e.code == 0 && e.stdout != x.j.Procs[i].Expect:
			return i, "wrong", "wrong answer"
		case e.code != 0 && e.stdout != "":
			return i, "partial", "prints an answer although it fails"
		case e.code != 0 && strings.TrimSpace(e.stderr) == "":
			return i, "silent", "fails without a message"
		}
	}
	return 0, "", ""
}

// ----------------------------------------------------------------

func exploreStates(s *jobState, ws []*worker) bool {
	j := s.job
	x := &search{s: s, j: j, seen: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	w := ws[0]
	w.restore(j.CacheTpl)
	start := state{t: load(w.cache), wide: true}
	// fill the memory of processes
	for _, cs := range [][]Cmd{j.Crashed, j.Follow} {
		for _, c := range cs {
			for k := 0; k < 2; k++ {
				w.put(start.t)
				w.run(j, c.Argv, c.Env, 0, 0, j.Horizon*4, nil, 120*time.Second)
			}
		}
	}
	if j.Mode == "pair" {
		for k := 0; k < 2; k++ {
			_, ps := x.overlap(w, pairNode{})
			for _, p := range ps {
				if !p.ended {
					syscall.Kill(-p.c.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}
	if j.Mode == "graph" {
		x.prepareWorlds(ws)
	}
	if len(j.Steps) > 0 {
		replaySteps(x, w, start)
		return true
	}
	switch j.Mode {
	case "crash":
		x.add(start)
	case "damage":
		x.push(func(w *worker) { x.damage(start) })
	case "pair":
		x.push2(pairNode{})
	case "graph":
		x.addGraph(state{t: tree{}})
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.loop(w)
		}()
	}
	wg.Wait()
	if !x.cut {
		s.res.LevelsDone = s.res.Wanted
	}
	return !x.cut && s.res.Diverged == 0
}

func replaySteps(x *search, w *worker, st state) {
	j := x.j
	t := st.t
	for _, s := range j.Steps {
		var e exe
		switch s.Kind {
		case "run", "whole":
			c := j.Follow[0]
			if s.Kind == "run" {
				c = j.Follow[s.Cmd]
			} else {
				c = j.Crashed[s.Cmd]
			}
			w.put(t)
			e = w.run(j, c.Argv, c.Env, s.Policy, 0, 1000000, nil, 60*time.Second)
			k, d := soundRun(&e, c.Expect)
			fmt.Fprintf(os.Stderr, "run 'git who %s': %s %s\n", strings.Join(c.Argv, " "), k, d)
			if k != "" {
				x.violate("later "+k, d, j.Steps, &e, c.Expect, c.Argv)
			}
		case "crash":
			c := j.Crashed[s.Cmd]
			w.put(t)
			w.prepare(j, s.Policy, fsCrash, j.Horizon, nil)
			w.set(6, uint32(s.Op))
			w.set(7, uint32(s.Cut))
			e = w.launch(w.command(j, c.Argv, c.Env), 60*time.Second)
			fmt.Fprintf(os.Stderr, "killed 'git who %s' at file operation %d, byte %d\n", strings.Join(c.Argv, " "), s.Op, s.Cut)
		case "damage":
			// found again by its name
			var hit tree
			y := &search{s: x.s, j: j, seen: map[string]int{}}
			y.cond = sync.NewCond(&y.mu)
			y.collect = func(st state) {
				if strings.Join(st.steps[len(st.steps)-1].Damage, " ") == strings.Join(s.Damage, " ") {
					hit = st.t
				}
			}
			y.damage(state{t: t})
			if hit == nil {
				fmt.Fprintln(os.Stderr, "cannot find the damage")
				return
			}
			w.put(hit)
			fmt.Fprintln(os.Stderr, "damage: "+strings.Join(s.Damage, " "))
		case "version":
			v := j.Versions[s.Op]
			c := v.Cmds[s.Cmd]
			e = x.graphRun(w, x.worlds[w], t, s.Op, s.Cmd, 0)
			k, d := soundRun(&e, c.Expect)
			fmt.Fprintf(os.Stderr, "[%s] git who %s: %s %s\n", v.Name, strings.Join(c.Argv, " "), k, d)
			if k != "" {
				x.violate(k, d, j.Steps, &e, c.Expect, c.Argv)
			}
			t = x.worlds[w].general(load(w.cache))
			fmt.Fprintf(os.Stderr, "%s%s", e.stdout, e.stderr)
			continue
		case "pair":
			_, ps := x.overlap(w, pairNode{at: s.At})
			bad, k, d := x.judgePair(ps)
			for i, p := range ps {
				fmt.Fprintf(os.Stderr, "process %d: exit status %d, stderr %s\n", i, p.e.code, clip(p.e.stderr))
			}
			if k != "" {
				x.violate(k, d, j.Steps, &ps[bad].e, j.Procs[bad].Expect, j.Procs[bad].Argv)
			}
		}
		if e.stdout != "" || e.stderr != "" {
			fmt.Fprintf(os.Stderr, "%s%s", e.stdout, e.stderr)
		}
		t = load(w.cache)
	}
}

// ---------------------------------------------------------------- runs in a changing repository

type GCmd struct {
	Argv   []string `json:"argv"`
	Cwd    string   `json:"cwd"`
	Env    []string `json:"env"`
	Expect string   `json:"expect"`
}

type Version struct {
	Name string   `json:"name"`
	Env  []string `json:"env"`
	Cmds []GCmd   `json:"cmds"`
}

// A world is a directory with cur (the repositories as they are now) and v0, v1, ...
// (as they are in the other versions); the version in place is moved to cur.
type world struct {
	dir string
	cur int
	own [][2]string // names of directories in the cache that differ between worlds
}

func (g *world) place(v int) {
	if g.cur == v {
		return
	}
	if g.cur >= 0 {
		check(os.Rename(filepath.Join(g.dir, "cur"), filepath.Join(g.dir, fmt.Sprintf("v%d", g.cur))))
	}
	check(os.Rename(filepath.Join(g.dir, fmt.Sprintf("v%d", v)), filepath.Join(g.dir, "cur")))
	g.cur = v
}

func (g *world) general(t tree) tree  { return g.rename(t, 0, 1) }
func (g *world) specific(t tree) tree { return g.rename(t, 1, 0) }

func (g *world) rename(t tree, a, b int) tree {
	r := tree{}
	for p, c := range t {
		for _, o := range g.own {
			if p == o[a] || strings.HasPrefix(p, o[a]+"/") {
				p = o[b] + p[len(o[a]):]
				break
			}
		}
		r[p] = c
	}
	return r
}

func (x *search) graphRun(w *worker, g *world, t tree, v, c int, flags int) exe {
	j := x.j
	g.place(v)
	cmd := j.Versions[v].Cmds[c]
	w.put(g.specific(t))
	memo := filepath.Join(g.dir, fmt.Sprintf("memo%d", v))
	k := &Job{Bin: j.Bin, Cwd: filepath.Join(g.dir, "cur", cmd.Cwd), Env: append(append(append([]string{}, j.Env...), j.Versions[v].Env...), cmd.Env...), Memo: memo, Ncpu: j.Ncpu}
	for i, e := range k.Env {
		k.Env[i] = strings.ReplaceAll(e, "{WORLD}", g.dir)
	}
	return w.run(k, cmd.Argv, nil, j.Policies[0], flags, 1000000, nil, 60*time.Second)
}

func (x *search) graphStep(w *worker, st state, v, c int) {
	g := x.worlds[w]
	cmd := x.j.Versions[v].Cmds[c]
	e := x.graphRun(w, g, st.t, v, c, 0)
	kind, detail := soundRun(&e, cmd.Expect)
	for k := 0; kind != "" && k < 2; k++ {
		e = x.graphRun(w, g, st.t, v, c, 0)
		if kind, detail = soundRun(&e, cmd.Expect); kind == "" {
			x.mu.Lock()
			x.s.res.Unconfirmed++
			x.mu.Unlock()
		}
	}
	x.mu.Lock()
	x.s.res.Executions++
	x.s.res.Transitions++
	x.s.res.Points += int64(e.points)
	x.mu.Unlock()
	all := steps(st.steps, Step{Kind: "version", Op: v, Cmd: c})
	if kind != "" {
		var h []string
		for _, s := range all {
			d := x.j.Versions[s.Op]
			h = append(h, fmt.Sprintf("[%s] git who %s", d.Name, strings.Join(d.Cmds[s.Cmd].Argv, " ")))
		}
		x.violate(kind, detail+" at the end of: "+strings.Join(h, ", then "), all, &e, cmd.Expect, cmd.Argv)
		return
	}
	x.addGraph(state{t: g.general(load(w.cache)), after: st.after + 1, steps: all})
}

func (x *search) addGraph(st state) {
	h := st.t.hash()
	x.mu.Lock()
	if best, ok := x.seen[h]; ok && best <= st.after {
		x.mu.Unlock()
		return
	}
	x.seen[h] = st.after
	x.s.res.CacheStates = len(x.seen)
	x.mu.Unlock()
	if st.after >= x.j.After {
		return
	}
	x.mu.Lock()
	x.s.res.Sources++
	x.mu.Unlock()
	for v := range x.j.Versions {
		for c := range x.j.Versions[v].Cmds {
			x.push(func(w *worker) { x.graphStep(w, st, v, c) })
		}
	}
}

func (x *search) prepareWorlds(ws []*worker) {
	x.worlds = map[*worker]*world{}
	for i, w := range ws {
		g := &world{dir: x.j.Worlds[i%len(x.j.Worlds)], cur: -1}
		x.worlds[w] = g
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := x.worlds[w]
			for n, p := range x.j.Probes {
				x.graphRun(w, g, tree{}, p[0], p[1], 0)
				t := load(w.cache)
				for _, f := range t.paths() {
					if t[f] != isDir {
						g.own = append(g.own, [2]string{filepath.Dir(f), fmt.Sprintf("REPO%d", n)})
						break
					}
				}
			}
		}()
	}
	wg.Wait()
}
