// Package exec stand-in: processes are functions of their arguments and standard
// input.  Their results are remembered in the directory GWV_MEMO; what is not
// there yet is found out by running the real program to completion.
package exec

import (
	"bytes"
	"context"
	"errors"
	"hash/fnv"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + strconv.Quote(e.Name) + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

var ErrDot = errors.New("cannot run executable found relative to current directory")
var ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")

type wrappedError struct {
	prefix string
	err    error
}

func (w wrappedError) Error() string { return w.prefix + ": " + w.err.Error() }
func (w wrappedError) Unwrap() error { return w.err }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx     context.Context
	in      bytes.Buffer
	inDone  chan struct{}
	inShut  bool
	inPipe  bool
	outPipe *pipe
	errPipe *pipe
	p       *proc
	waited  bool
}

// Fault kinds.
const (
	ok = iota
	noStart
	failEmpty    // exit 128 without output, dies before reading its input
	failComplete // exit 128 after all of the output
	failHalf     // exit 128 after half of the output
	readError    // reading the output fails half-way
	cutShort     // killed by a signal after an eighth of the output
	corrupt      // exit 0, one number of the output is not a number
	truncated    // exit 0, the output ends in the middle of a commit's header
	nFaults
)

type proc struct {
	c         *Cmd
	ready     bool
	out, err  []byte
	code, sig int
	fault     uint32
	broken    int // read fails at this offset, or -1
	decided   bool
	killed    bool
}

type pipe struct {
	c      *Cmd
	stderr bool
	off    int
	closed bool
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		c.Err = err
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return append(os.Environ(), c.Env...) }

func (c *Cmd) ctxErr() error {
	if c.ctx == nil {
		return nil
	}
	return c.ctx.Err()
}

type inPipe struct{ c *Cmd }

func (w inPipe) Write(b []byte) (int, error) {
	os.GwvPoint()
	c := w.c
	if c.inShut {
		return 0, os.ErrClosed
	}
	if c.p != nil && c.p.fault == failEmpty {
		return 0, syscall.EPIPE
	}
	return c.in.Write(b)
}

func (w inPipe) Close() error {
	os.GwvPoint()
	if w.c.inShut {
		return os.ErrClosed
	}
	w.c.inShut = true
	close(w.c.inDone)
	return nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.inPipe {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.p != nil {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	c.inPipe = true
	c.inDone = make(chan struct{})
	return inPipe{c}, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.outPipe != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.p != nil {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	c.outPipe = &pipe{c: c}
	return c.outPipe, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.errPipe != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	if c.p != nil {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	c.errPipe = &pipe{c: c, stderr: true}
	return c.errPipe, nil
}

func (c *Cmd) Start() error {
	os.GwvPoint()
	if c.Err != nil {
		return c.Err
	}
	if c.p != nil {
		return errors.New("exec: already started")
	}
	if err := c.ctxErr(); err != nil {
		return err
	}
	p := &proc{c: c, broken: -1}
	if os.GwvFlags()&4 != 0 {
		p.fault = os.GwvChoose(nFaults, 4)
	}
	if p.fault == noStart {
		report(c, noStart)
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
	}
	if c.Stdin != nil {
		io.Copy(&c.in, c.Stdin)
	}
	c.p = p
	c.Process = &os.Process{Pid: 4242}
	return nil
}

// Runs the process as far as possible once its input is complete.
func (p *proc) run() {
	c := p.c
	if c.inPipe && p.fault != failEmpty && !p.killed {
		if c.ctx != nil {
			select {
			case <-c.inDone:
			case <-c.ctx.Done():
			}
		} else {
			<-c.inDone
		}
	}
	if p.ready {
		return
	}
	p.ready = true
	if p.fault != failEmpty {
		p.out, p.err, p.code = lookup(c)
	}
	switch p.fault {
	case failEmpty:
		p.code, p.err = 128, []byte("fatal: injected failure\n")
	case failComplete:
		p.code, p.err = 128, []byte("fatal: injected failure\n")
	case failHalf:
		p.out = cutAnywhere(p.out)
		p.code, p.err = 128, []byte("fatal: injected failure\n")
	case cutShort:
		p.out = cutAnywhere(p.out)
		p.code, p.sig = 0, 9
	case readError:
		p.broken = len(p.out) / 2
	case corrupt:
		b := spoil(p.out)
		if bytes.Equal(b, p.out) {
			return
		}
		p.out = b
	case truncated:
		b := cutHeader(p.out)
		if len(b) == len(p.out) {
			return
		}
		p.out = b
	default:
		return
	}
	report(c, p.fault)
}

// Cuts output in half, or (as decided) after any of its records.
func cutAnywhere(b []byte) []byte {
	var ends []int
	for i, c := range b {
		if c == 0 || c == '\n' {
			ends = append(ends, i+1)
		}
	}
	n := min(len(ends), 60)
	if k := int(os.GwvChoose(uint32(n)+1, 7)); k > 0 {
		return b[:ends[(k-1)*len(ends)/n]]
	}
	return b[:len(b)/2]
}

// Notes a fault that took effect, for the driver.
func report(c *Cmd, fault uint32) {
	n := os.GwvWord(4104)
	if n < 16 {
		os.GwvSetWord(4105+2*n, fault)
		os.GwvSetWord(4105+2*n+1, supplies(c))
	}
	os.GwvSetWord(4104, n+1)
}

// What a process supplies: 1 history, 2 revisions, 3 file listing, 4 arguments, 0 anything else.
func supplies(c *Cmd) uint32 {
	for _, a := range c.Args[1:] {
		switch a {
		case "log":
			for _, b := range c.Args {
				if b == "--pretty=format:%H" {
					return 2
				}
			}
			return 1
		case "rev-list":
			return 2
		case "ls-files", "ls-tree":
			for _, b := range c.Args {
				if len(b) > 14 && b[len(b)-14:] == ".gitattributes" {
					return 0 // for the validity of the cache, not for the answer
				}
			}
			return 3
		case "rev-parse":
			return 4
		}
	}
	return 0
}

// Cuts output a few bytes after a commit hash in its middle.
func cutHeader(b []byte) []byte {
	for i := len(b) / 2; i < len(b); i++ {
		if b[i] == 0 && i >= 40 && (isHex(b[i-40:i]) && (i == 40 || b[i-41] == 0 || b[i-41] == '\n')) {
			return b[:min(len(b), i+5)]
		}
	}
	return b
}

func isHex(b []byte) bool {
	for _, c := range b {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

// Once the context is cancelled the process is killed, unless it has finished before.
func (p *proc) checkCancel() {
	if p.decided || p.c.ctxErr() == nil {
		return
	}
	p.decided = true
	if os.GwvChoose(2, 6) == 0 {
		p.killed = true
		p.ready = true
		p.out = p.out[:len(p.out)/2]
		p.code, p.sig = 0, 9
	}
}

// Turns the digits before the middle-most tab or NUL into something else.
func spoil(b []byte) []byte {
	b = append([]byte{}, b...)
	best := -1
	for i := 1; i < len(b); i++ {
		if (b[i] == 0 || b[i] == '\t') && b[i-1] >= '0' && b[i-1] <= '9' {
			j := i - 1
			for j > 0 && b[j-1] >= '0' && b[j-1] <= '9' {
				j--
			}
			if j == 0 || b[j-1] == 0 || b[j-1] == '\t' || b[j-1] == '\n' {
				if (i-j == 10 || i-j < 7) && (best < 0 || i < len(b)*2/3) {
					best = i - 1
				}
			}
		}
	}
	if best >= 0 {
		b[best] = 'x'
	}
	return b
}

func (r *pipe) Read(b []byte) (int, error) {
	os.GwvPoint()
	c := r.c
	if c.p == nil {
		return 0, os.ErrClosed
	}
	if r.closed {
		return 0, os.ErrClosed
	}
	c.p.checkCancel()
	c.p.run()
	c.p.checkCancel()
	d := c.p.out
	if r.stderr {
		d = c.p.err
	} else if c.p.broken >= 0 {
		d = d[:c.p.broken]
	}
	if r.off >= len(d) {
		if !r.stderr && c.p.broken >= 0 {
			return 0, &os.PathError{Op: "read", Path: "|0", Err: syscall.EIO}
		}
		return 0, io.EOF
	}
	// How much a read returns
	if m := int(os.GwvWord(1 << 8)); m > 0 && len(b) > m {
		b = b[:m]
	}
	n := copy(b, d[r.off:])
	r.off += n
	return n, nil
}

func (r *pipe) Close() error {
	if r.closed {
		return os.ErrClosed
	}
	r.closed = true
	return nil
}

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

func (c *Cmd) Wait() error {
	os.GwvPoint()
	if c.p == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	p := c.p
	p.checkCancel()
	p.run()
	p.checkCancel()
	// A process blocks for ever on a pipe nobody reads.
	if !p.killed {
		for _, r := range []*pipe{c.outPipe, c.errPipe} {
			if r != nil && !r.closed {
				d := p.out
				if r.stderr {
					d = p.err
				}
				if len(d)-r.off > 65536 {
					if c.ctx == nil {
						select {}
					}
					<-c.ctx.Done()
					p.killed, p.sig = true, 9
				}
			}
		}
	}
	if c.Stdout != nil {
		c.Stdout.Write(p.out)
	}
	if c.Stderr != nil {
		c.Stderr.Write(p.err)
	}
	for _, r := range []*pipe{c.outPipe, c.errPipe} {
		if r != nil {
			r.closed = true
		}
	}
	if c.inPipe && !c.inShut {
		c.inShut = true
		close(c.inDone)
	}
	c.ProcessState = os.GwvState(p.code, p.sig)
	if p.killed {
		if err := c.ctxErr(); err != nil {
			return err
		}
	}
	if p.code != 0 || p.sig != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var out, errb bytes.Buffer
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	if ee, is := err.(*ExitError); is && capture {
		ee.Stderr = errb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

// ---------------------------------------------------------------- real processes

func lookup(c *Cmd) (out, errb []byte, code int) {
	h := fnv.New128a()
	wd := c.Dir
	if wd == "" {
		wd, _ = os.Getwd()
	}
	io.WriteString(h, strings.Join(c.Args, "\x00")+"\x00\x00"+wd+"\x00\x00"+strings.Join(c.Env, "\x00")+"\x00\x00")
	h.Write(c.in.Bytes())
	key := hex(h.Sum(nil))
	dir := os.Getenv("GWV_MEMO")
	name := dir + "/" + key
	if b, err := os.ReadFile(name); err == nil {
		return parse(b)
	}
	tmp := name + "." + strconv.Itoa(syscall.Getpid())
	os.WriteFile(tmp+".in", c.in.Bytes(), 0644)
	fi, _ := syscall.Open(tmp+".in", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	fo, _ := syscall.Open(tmp+".out", syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_CLOEXEC, 0644)
	fe, _ := syscall.Open(tmp+".err", syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_CLOEXEC, 0644)
	env := c.Env
	if env == nil {
		for _, e := range syscall.Environ() {
			if !strings.HasPrefix(e, "GWV_") && !strings.HasPrefix(e, "GOMAXPROCS=") {
				env = append(env, e)
			}
		}
	}
	pid, err := syscall.ForkExec(c.Path, c.Args, &syscall.ProcAttr{Dir: c.Dir, Env: env, Files: []uintptr{uintptr(fi), uintptr(fo), uintptr(fe)}})
	if err != nil {
		panic("gwv: cannot run " + c.Path + ": " + err.Error())
	}
	var ws syscall.WaitStatus
	for {
		_, err = syscall.Wait4(pid, &ws, 0, nil)
		if err != syscall.EINTR {
			break
		}
	}
	syscall.Close(fi)
	syscall.Close(fo)
	syscall.Close(fe)
	out, _ = os.ReadFile(tmp + ".out")
	errb, _ = os.ReadFile(tmp + ".err")
	b := []byte(strconv.Itoa(ws.ExitStatus()) + " " + strconv.Itoa(len(out)) + "\n")
	b = append(append(b, out...), errb...)
	os.WriteFile(tmp, b, 0644)
	syscall.Unlink(tmp + ".in")
	syscall.Unlink(tmp + ".out")
	syscall.Unlink(tmp + ".err")
	syscall.Rename(tmp, name)
	return out, errb, ws.ExitStatus()
}

func parse(b []byte) (out, errb []byte, code int) {
	i := bytes.IndexByte(b, '\n')
	f := strings.Fields(string(b[:i]))
	code, _ = strconv.Atoi(f[0])
	n, _ := strconv.Atoi(f[1])
	b = b[i+1:]
	return b[:n:n], b[n:], code
}

func hex(b []byte) string {
	const d = "0123456789abcdef"
	s := make([]byte, 0, 2*len(b))
	for _, x := range b {
		s = append(s, d[x>>4], d[x&15])
	}
	return string(s)
}
