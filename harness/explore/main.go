// Explores schedules and faults of one program systematically.
//
// Every execution is a process whose choices (which goroutine runs next, which
// ready case a select takes, which process or file operation fails) follow a
// list of deviations from a base policy.  All lists with at most so many
// deviations are executed, level by level.
package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

const (
	words   = 1 << 18
	out     = 4096
	dec     = 4352
	decMax  = 1 << 17
	faultAt = 4104
	kPre    = 1
	kPick   = 2
	kSelect = 3
	kProc   = 4
	kFS     = 5
	kKill   = 6
	kDetail = 7 // what exactly a fault does
)

type Cmd struct {
	Argv   []string `json:"argv"`
	Expect string   `json:"expect"`
	Env    []string `json:"env"`
}

type Job struct {
	Name     string   `json:"name"`
	Bin      string   `json:"bin"`
	Cwd      string   `json:"cwd"`
	Argv     []string `json:"argv"`
	Env      []string `json:"env"`
	Memo     string   `json:"memo"`
	Ncpu     int      `json:"ncpu"`
	Policies []int    `json:"policies"`
	Flags    int      `json:"flags"`
	ReadSize int      `json:"readsize"`
	Sched    int      `json:"sched"` // most deviations of schedule and select choices
	Fault    int      `json:"fault"` // most faults
	Total    int      `json:"total"` // most deviations of both kinds together
	Horizon  int      `json:"horizon"`
	CacheTpl string   `json:"cachetpl"`
	Expect   string   `json:"expect"`
	WantErr  bool     `json:"wanterr"` // an error is the right answer
	Follow   []Cmd    `json:"follow"`
	Replay   [][2]int `json:"replay"`

	Monitor string `json:"monitor"` // the directory below the cache that may be written

	// Exploration of cache states (states.go)
	Mode     string    `json:"mode"`    // "", crash, damage, pair
	Procs    []Proc    `json:"procs"`   // pair: the processes that run at the same time
	Preempt  int       `json:"preempt"` // pair: most preemptions
	Kills    int       `json:"kills"`   // pair: most processes killed
	Crashes  int       `json:"crashes"` // crash: most crashes one after another
	Crashed  []Cmd     `json:"crashed"` // crash: the commands that are killed (argv of the job by default)
	Damage   []string  `json:"damage"`  // damage: kinds
	After    int       `json:"after"`   // runs afterwards, one after another
	Steps    []Step    `json:"steps"`   // replay
	Worlds   []string  `json:"worlds"`  // graph
	Versions []Version `json:"versions"`
	Probes   [][2]int  `json:"probes"` // version and command whose run shows the name of a cache directory
}

type Spec struct {
	Workers int      `json:"workers"`
	Seconds float64  `json:"seconds"`
	Scratch string   `json:"scratch"`
	Jobs    []Job    `json:"jobs"`
	MaxViol int      `json:"maxviol"`
	Verbose bool     `json:"verbose"`
	BaseEnv []string `json:"baseenv"`
}

type node struct {
	forced [][2]int
	sched  int
	fault  int
	last   uint32 // decision the last deviation was made at, as the parent saw it
}

type Violation struct {
	Job    string   `json:"job"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
	Policy int      `json:"policy"`
	Forced [][2]int `json:"forced"`
	Faults []string `json:"faults"`
	Stdout string   `json:"stdout"`
	Stderr string   `json:"stderr"`
	Expect string   `json:"expect"`
	Follow []string `json:"follow,omitempty"`
	Steps  []Step   `json:"steps,omitempty"`
}

type JobResult struct {
	Name        string         `json:"name"`
	Executions  int            `json:"executions"`
	Decisions   int64          `json:"decisions"`
	MaxDec      int            `json:"max_decisions"`
	Points      int64          `json:"points"`
	Levels      []int          `json:"executions_per_level"`
	LevelsDone  int            `json:"levels_completed"`
	Wanted      int            `json:"levels_wanted"`
	Outcomes    map[string]int `json:"outcomes"`
	CacheStates int            `json:"cache_states"`
	FollowRuns  int            `json:"follow_runs"`
	Diverged    int            `json:"diverged"`
	Overflow    int            `json:"overflow"`
	Unconfirmed int            `json:"unconfirmed"`
	Switches    int64          `json:"switches"`
	Transitions int            `json:"transitions"`
	Sources     int            `json:"sources"`
}

type Result struct {
	Jobs       []*JobResult `json:"jobs"`
	Violations []Violation  `json:"violations"`
	Complete   bool         `json:"complete"`
	Seconds    float64      `json:"seconds"`
	Errors     []string     `json:"errors"`
}

var spec Spec
var deadline time.Time

type worker struct {
	id    string
	ctl   []byte
	path  string
	cache string
	subs  []*worker // for processes that run at the same time
}

func (w *worker) word(i int) uint32   { return binary.LittleEndian.Uint32(w.ctl[4*i:]) }
func (w *worker) set(i int, v uint32) { binary.LittleEndian.PutUint32(w.ctl[4*i:], v) }

func newWorker(id string) *worker {
	w := &worker{id: id}
	d := filepath.Join(spec.Scratch, "w"+id)
	check(os.MkdirAll(d, 0755))
	w.path = filepath.Join(d, "ctl")
	w.cache = filepath.Join(d, "cache")
	f, err := os.OpenFile(w.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	check(err)
	check(f.Truncate(words * 4))
	w.ctl, err = syscall.Mmap(int(f.Fd()), 0, words*4, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
	f.Close()
	return w
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "explore:", err)
		os.Exit(3)
	}
}

func (w *worker) restore(tpl string) {
	check(os.RemoveAll(w.cache))
	check(os.MkdirAll(w.cache, 0755))
	if tpl != "" {
		check(copyTree(tpl, w.cache))
	}
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(from, p)
		t := filepath.Join(to, r)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0644)
	})
}

func hashTree(d string) string {
	h := sha1.New()
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(d, p)
		fmt.Fprintf(h, "%s\x00%v\x00", r, fi.IsDir())
		if !fi.IsDir() {
			b, _ := os.ReadFile(p)
			h.Write(b)
			h.Write([]byte{0})
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil)[:10])
}

type exe struct {
	outside        string // file operation where none is allowed
	code           int
	stdout, stderr string
	status         uint32
	nd             int
	points         int
	decs           []uint32
	faults         []string
	mustFail       bool
	injected       bool
	timeout        bool
	kills          bool
}

var faultNames = []string{"ok", "noStart", "failEmpty", "failComplete", "failHalf", "readError", "cutShort", "corrupt", "truncated"}
var supplyNames = []string{"other", "history", "revisions", "files", "arguments"}

func (w *worker) run(j *Job, argv []string, env []string, policy int, flags int, horizon int, forced [][2]int, limit time.Duration) exe {
	w.prepare(j, policy, flags, horizon, forced)
	c := w.command(j, argv, env)
	log := w.path + ".log"
	if j.Monitor != "" {
		check(os.WriteFile(log, nil, 0644))
		c.Env = append(c.Env, "GWV_FSLOG="+log)
	}
	e := w.launch(c, limit)
	if j.Monitor != "" {
		e.outside = w.outside(j, log)
	}
	return e
}

// The first logged file operation that is not one on the program's own cache.
func (w *worker) outside(j *Job, log string) string {
	b, err := os.ReadFile(log)
	check(err)
	own := filepath.Join(w.cache, j.Monitor)
	for _, l := range strings.Split(string(b), "\n") {
		if len(l) < 3 {
			continue
		}
		p := l[2:]
		switch {
		case p == own || strings.HasPrefix(p, own+"/"):
		case l[0] == 'g' && strings.HasPrefix(own, p):
		case strings.HasPrefix(p, "/dev/") || p[0] == '|' || strings.HasPrefix(p, j.Memo+"/"):
		default:
			return l
		}
	}
	return ""
}

func (w *worker) prepare(j *Job, policy int, flags int, horizon int, forced [][2]int) {
	for i := 0; i < 8; i++ {
		w.set(i, 0)
	}
	w.set(1, uint32(policy))
	w.set(2, uint32(j.Ncpu))
	w.set(3, uint32(horizon))
	w.set(4, uint32(len(forced)))
	w.set(5, uint32(flags))
	w.set(256, uint32(j.ReadSize))
	for k, f := range forced {
		w.set(8+2*k, uint32(f[0]))
		w.set(8+2*k+1, uint32(f[1]))
	}
	for i := out; i < dec; i++ {
		w.set(i, 0)
	}
}

func (w *worker) command(j *Job, argv []string, env []string) *exec.Cmd {
	c := exec.Command(j.Bin, argv...)
	c.Dir = j.Cwd
	c.Env = append(append(append([]string{}, spec.BaseEnv...), j.Env...), env...)
	c.Env = append(c.Env, "GWV_CTL="+w.path, "GWV_MEMO="+j.Memo, "GWV_FSROOT="+w.cache, "XDG_CACHE_HOME="+w.cache,
		"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Stdout, c.Stderr = &bytes.Buffer{}, &bytes.Buffer{}
	return c
}

// A program that eats memory fails instead of taking the machine down. (The race detector reserves a lot.)
func limitMemory(c *exec.Cmd) {
	if strings.Contains(filepath.Base(c.Path), "race") {
		return
	}
	l := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(c.Process.Pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

func (w *worker) launch(c *exec.Cmd, limit time.Duration) exe {
	check(c.Start())
	limitMemory(c)
	done := make(chan struct{})
	killed := false
	t := time.AfterFunc(limit, func() {
		select {
		case <-done:
		default:
			killed = true
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	})
	c.Wait()
	close(done)
	t.Stop()
	return w.collect(c, killed)
}

func (w *worker) collect(c *exec.Cmd, killed bool) exe {
	e := exe{code: c.ProcessState.ExitCode(), stdout: c.Stdout.(*bytes.Buffer).String(), stderr: c.Stderr.(*bytes.Buffer).String(), timeout: killed && c.ProcessState.ExitCode() == -1}
	e.status = w.word(out + 1)
	e.nd = min(int(w.word(out)), decMax)
	e.points = int(w.word(out + 2))
	e.decs = make([]uint32, e.nd)
	for i := range e.decs {
		e.decs[i] = w.word(dec + i)
		k, c := e.decs[i]>>8&255, e.decs[i]>>16&255
		if c != 0 && (k == kProc || k == kFS) {
			e.injected = true
			if k == kFS {
				e.faults = append(e.faults, "file operation")
			}
		}
		if k == kKill {
			e.kills = true
		}
	}
	for k := 0; k < int(min(w.word(faultAt), 16)); k++ {
		f, s := w.word(faultAt+1+2*k), w.word(faultAt+2+2*k)
		e.faults = append(e.faults, faultNames[f]+" of "+supplyNames[s])
		if s >= 1 && s <= 3 {
			e.mustFail = true
		}
	}
	return e
}

func crashed(s string) bool {
	return strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) ||
		strings.HasPrefix(s, "panic: ") || strings.HasPrefix(s, "fatal error: ")
}

// What is wrong with an execution; "" if nothing.  The outcome is for the statistics.
func verdict(j *Job, e *exe) (outcome, kind, detail string) {
	switch {
	case e.timeout:
		return "hang", "hang", "does not finish"
	case e.status == 2:
		return "diverged", "", ""
	case e.status == 3 || e.status == 4:
		return "horizon", "livelock", fmt.Sprintf("still running after %d scheduling points", e.points)
	case strings.Contains(e.stderr, "WARNING: DATA RACE"):
		return "race", "race", "unsynchronised accesses to shared memory"
	case crashed(e.stderr) || e.code < 0:
		if strings.Contains(e.stderr, "all goroutines are asleep") {
			return "deadlock", "deadlock", "all goroutines are asleep"
		}
		return "crash", "crash", "panic or fatal error"
	case e.outside != "":
		return "outside", "outside", "file operation outside the program's own cache directory: " + e.outside
	case e.code == 0 && e.mustFail:
		return "unreported", "unreported", "exit status 0 although Git failed: " + strings.Join(e.faults, ", ")
	case e.code == 0 && j.WantErr:
		return "wrong", "wrong", "exit status 0 where an error is expected"
	case e.code == 0 && e.stdout != j.Expect:
		return "wrong", "wrong", "wrong answer"
	case e.code == 0:
		return "right answer", "", ""
	case !e.injected && !j.WantErr:
		return "spurious", "spurious", fmt.Sprintf("exit status %d although nothing failed", e.code)
	case e.stdout != "":
		return "partial", "partial", "prints an answer although it fails"
	case strings.TrimSpace(e.stderr) == "":
		return "silent", "silent", fmt.Sprintf("exit status %d without a message", e.code)
	}
	return "clean error", "", ""
}

type jobState struct {
	job      *Job
	res      *JobResult
	mu       sync.Mutex
	follow   map[string]string // cache state -> "" or what is wrong
	violated map[string]int
}

var violMu sync.Mutex
var result Result

func stop() bool {
	violMu.Lock()
	defer violMu.Unlock()
	return len(result.Violations) >= spec.MaxViol
}

func (w *worker) execute(s *jobState, policy int, n node) (exe, bool) {
	j := s.job
	w.restore(j.CacheTpl)
	e := w.run(j, j.Argv, nil, policy, j.Flags, j.Horizon, n.forced, 20*time.Second)
	o, kind, detail := verdict(j, &e)
	if kind != "" {
		// Again, with more patience
		times := 0
		for k := 0; k < 3; k++ {
			w.restore(j.CacheTpl)
			h := j.Horizon
			if kind == "livelock" {
				h = 100000
			}
			e2 := w.run(j, j.Argv, nil, policy, j.Flags, h, n.forced, 60*time.Second)
			if _, k2, _ := verdict(j, &e2); k2 == kind {
				times++
			} else {
				o, e = "unconfirmed", e2
				break
			}
			if kind == "hang" {
				times = 3
				break
			}
		}
		if times < 3 {
			s.mu.Lock()
			s.res.Unconfirmed++
			s.mu.Unlock()
			if o2, k2, _ := verdict(j, &e); k2 == "" {
				o = o2
			}
			kind = ""
		}
	}
	var fol []string
	if kind == "" && len(j.Follow) > 0 && o != "diverged" {
		h := hashTree(w.cache)
		s.mu.Lock()
		v, seen := s.follow[h]
		s.mu.Unlock()
		if !seen {
			v = ""
			for _, f := range j.Follow {
				times := 0
				var e2 exe
				e2 = w.run(j, f.Argv, f.Env, 0, 0, j.Horizon*4, nil, 60*time.Second)
				times++
				if e2.code != 0 || e2.stdout != f.Expect {
					v = fmt.Sprintf("afterwards 'git who %s' prints (exit status %d):\n%s%s\nexpected:\n%s", strings.Join(f.Argv, " "), e2.code, e2.stdout, e2.stderr, f.Expect)
					fol = f.Argv
					break
				}
			}
			s.mu.Lock()
			s.res.FollowRuns += len(j.Follow)
			s.follow[h] = v
			s.res.CacheStates = len(s.follow)
			s.mu.Unlock()
		}
		if v != "" {
			kind, detail, o = "poison", v, "poison"
		}
	}
	s.mu.Lock()
	r := s.res
	r.Executions++
	r.Decisions += int64(e.nd)
	r.Points += int64(e.points)
	r.MaxDec = max(r.MaxDec, e.nd)
	r.Outcomes[o]++
	if e.status == 2 {
		r.Diverged++
	}
	if e.status == 4 {
		r.Overflow++
	}
	first := false
	if kind != "" {
		key := kind + strings.Join(e.faults, ",")
		s.violated[key]++
		first = s.violated[key] == 1
	}
	s.mu.Unlock()
	if first {
		violMu.Lock()
		result.Violations = append(result.Violations, Violation{Job: j.Name, Kind: kind, Detail: detail, Policy: policy, Forced: n.forced,
			Faults: e.faults, Stdout: clip(e.stdout), Stderr: clip(e.stderr), Expect: clip(j.Expect), Follow: fol})
		violMu.Unlock()
	}
	// The deviation must have met the decision its parent saw
	if len(n.forced) > 0 {
		i := n.forced[len(n.forced)-1][0]
		if i >= e.nd || e.decs[i]>>24 != n.last>>24 || e.decs[i]>>8&255 != n.last>>8&255 || e.decs[i]&255 != n.last&255 {
			s.mu.Lock()
			r.Diverged++
			s.mu.Unlock()
			return e, false
		}
	}
	return e, o != "diverged"
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

func children(j *Job, n node, e *exe, f func(node)) {
	if len(n.forced) >= 100 {
		return
	}
	start := 0
	if len(n.forced) > 0 {
		start = n.forced[len(n.forced)-1][0] + 1
	}
	for i := start; i < e.nd; i++ {
		d := e.decs[i]
		k := int(d >> 8 & 255)
		ns, nf := n.sched, n.fault
		if k == kProc || k == kFS {
			nf++
		} else if k != kDetail {
			ns++
		}
		if ns > j.Sched || nf > j.Fault || ns+nf > j.Total {
			continue
		}
		for c := 1; c < int(d>>24); c++ {
			fo := make([][2]int, len(n.forced)+1)
			copy(fo, n.forced)
			fo[len(n.forced)] = [2]int{i, c}
			f(node{forced: fo, sched: ns, fault: nf, last: d})
		}
	}
}

func main() {
	check(json.NewDecoder(os.Stdin).Decode(&spec))
	t0 := time.Now()
	deadline = t0.Add(time.Duration(spec.Seconds * float64(time.Second)))
	if spec.MaxViol == 0 {
		spec.MaxViol = 12
	}
	ws := make([]*worker, spec.Workers)
	for i := range ws {
		ws[i] = newWorker(fmt.Sprint(i))
	}
	type task struct {
		s      *jobState
		policy int
		front  []node
		alive  bool
	}
	var tasks []*task
	var states []*jobState
	for i := range spec.Jobs {
		j := &spec.Jobs[i]
		if j.Horizon == 0 {
			j.Horizon = 20000
		}
		if j.Total == 0 {
			j.Total = j.Sched + j.Fault
		}
		s := &jobState{job: j, res: &JobResult{Name: j.Name, Outcomes: map[string]int{}, Wanted: max(1, len(j.Policies))}, follow: map[string]string{}, violated: map[string]int{}}
		states = append(states, s)
		result.Jobs = append(result.Jobs, s.res)
		if j.Mode != "" {
			continue
		}
		if len(j.Replay) > 0 || spec.Verbose {
			w := ws[0]
			p := j.Policies[0]
			w.restore(j.CacheTpl)
			e := w.run(j, j.Argv, nil, p, j.Flags, j.Horizon, j.Replay, 60*time.Second)
			o, k, d := verdict(j, &e)
			fmt.Fprintf(os.Stderr, "%s: exit status %d, %s %s %s, %d decisions, faults %v\n%s%s", j.Name, e.code, o, k, d, e.nd, e.faults, e.stdout, e.stderr)
			if spec.Verbose {
				if e2, _ := w.execute(s, p, node{forced: j.Replay}); e2.nd >= 0 {
				}
			}
			continue
		}
		// Fill the memo: run once by itself until nothing changes
		w := ws[0]
		var prev []uint32
		for k := 0; k < 4; k++ {
			w.restore(j.CacheTpl)
			e := w.run(j, j.Argv, nil, j.Policies[0], j.Flags, j.Horizon, nil, 120*time.Second)
			if k > 0 && equal(prev, e.decs) {
				break
			}
			prev = e.decs
		}
		for _, p := range j.Policies {
			tasks = append(tasks, &task{s: s, policy: p, front: []node{{}}, alive: true})
		}
	}
	complete := true
	for _, s := range states {
		if s.job.Mode != "" && !exploreStates(s, ws) {
			complete = false
		}
	}
	for level, left := 0, true; left; level++ {
		left = false
		for _, t := range tasks {
			if !t.alive {
				continue
			}
			if len(t.front) == 0 {
				t.alive = false
				t.s.res.LevelsDone++
				continue
			}
			left = true
			if time.Now().After(deadline) || stop() {
				complete = false
				t.alive = false
				continue
			}
			var next []node
			var mu sync.Mutex
			pos := 0
			cut := false
			var wg sync.WaitGroup
			for _, w := range ws {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						mu.Lock()
						if pos >= len(t.front) || cut {
							mu.Unlock()
							return
						}
						n := t.front[pos]
						pos++
						if pos%64 == 0 && (time.Now().After(deadline) || stop()) {
							cut = true
						}
						mu.Unlock()
						e, ok := w.execute(t.s, t.policy, n)
						if !ok {
							continue
						}
						var kids []node
						children(t.s.job, n, &e, func(c node) { kids = append(kids, c) })
						if len(kids) > 0 {
							mu.Lock()
							next = append(next, kids...)
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			for len(t.s.res.Levels) <= level {
				t.s.res.Levels = append(t.s.res.Levels, 0)
			}
			t.s.res.Levels[level] += pos
			if cut {
				complete = false
				t.alive = false
			}
			sort.Slice(next, func(a, b int) bool { return less(next[a].forced, next[b].forced) })
			t.front = next
		}
	}
	for _, s := range states {
		if s.res.Diverged > 0 {
			complete = false
		}
	}
	result.Complete = complete
	result.Seconds = time.Since(t0).Seconds()
	json.NewEncoder(os.Stdout).Encode(result)
}

func equal(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func less(a, b [][2]int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i][0] < b[i][0] || a[i][0] == b[i][0] && a[i][1] < b[i][1]
		}
	}
	return false
}
