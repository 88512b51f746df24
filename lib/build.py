"""Builds instrumented variants of git-who from /repo's current working tree.

Everything goes through `go build -overlay`: /repo and the toolchain are never
written to.  Variants differ in which standard-library files are overlaid.
"""
import json, multiprocessing, os, re, resource, shutil, subprocess, sys, tempfile, atexit, hashlib, signal

REPO = os.environ.get('GWV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOROOT = '/opt/veriftools/go1.27.3'
NCPU = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    pass


_scratch = None
_owner = None


def scratch():
    """Private scratch directory, removed at exit."""
    global _scratch, _owner
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and _free('/dev/shm') > 2 << 30 else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='gwv-', dir=base)
        _owner = os.getpid()

        def cleanup():
            if os.getpid() == _owner:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(cleanup)

        def killed(*a):
            # no exceptions from here: they would go off anywhere, also in library code that holds locks
            if os.getpid() == _owner:
                for c in multiprocessing.active_children():
                    c.kill()
                shutil.rmtree(_scratch, ignore_errors=True)
            os._exit(143)
        signal.signal(signal.SIGTERM, killed)
    return _scratch


MEMORY = 3 << 30


def limit_memory():
    """A program under test that eats memory fails instead of taking the machine down."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run_limited(argv, text, seconds):
    """None when it does not come to an end."""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    try:
        return subprocess.run(argv, input=text, capture_output=True, text=True, timeout=seconds, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None


def finish_inproc(ck):
    if getattr(ck, 'failed', None) and not ck.violations:
        raise HarnessError(ck.failed)


class Pool:
    """Worker processes that are never killed while they work: Pool.__exit__ would."""

    def __init__(self, n=None):
        scratch()
        self.p = multiprocessing.Pool(n or NCPU, limit_memory)

    def __enter__(self):
        return self.p

    def __exit__(self, *a):
        self.p.close()
        self.p.join()


def _free(p):
    st = os.statvfs(p)
    return st.f_bavail * st.f_frsize


def goenv():
    e = dict(os.environ)
    e['PATH'] = GOROOT + '/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('GOWORK', 'GOOS', 'GOARCH', 'GOROOT', 'GODEBUG', 'GOGC', 'GOMAXPROCS', 'GOEXPERIMENT'):
        e.pop(k, None)
    e.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', CGO_ENABLED='0')
    e['GOCACHE'] = os.environ.get('GWV_GOCACHE') or os.path.join(scratch(), 'gocache')
    return e


def patch(text, pairs, name=''):
    for a, b in pairs:
        if text.count(a) < 1:
            raise HarnessError('cannot find anchor in %s: %r' % (name, a))
        text = text.replace(a, b, 1)
    return text


class Overlay:
    def __init__(self, name):
        self.dir = os.path.join(scratch(), 'ov-' + name)
        os.makedirs(self.dir, exist_ok=True)
        self.map = {}
        self.n = 0

    def put(self, target, content):
        self.n += 1
        p = os.path.join(self.dir, '%03d_%s' % (self.n, os.path.basename(target)))
        with open(p, 'w') as f:
            f.write(content)
        self.map[target] = p

    def current(self, target):
        with open(self.map.get(target, target)) as f:
            return f.read()

    def patch(self, target, pairs):
        self.put(target, patch(self.current(target), pairs, target))

    def json(self):
        p = os.path.join(self.dir, 'overlay.json')
        with open(p, 'w') as f:
            json.dump({'Replace': self.map}, f)
        return p


STD = GOROOT + '/src/'


def std_clock(ov):
    """time.Now honours GWV_NOW (unix seconds): clock starts there and then runs normally."""
    ov.patch(STD + 'time/time.go', [('''	sec, nsec, mono := runtimeNow()
	if mono == 0 {''', '''	sec, nsec, mono := runtimeNow()
	sec += gwvClockOffset
	if nsec -= gwvStartNsec; nsec < 0 {
		nsec += 1e9
		sec--
	}
	if gwvTickAt > 0 {
		sec = gwvClockSec + gwvTick()
	}
	if mono == 0 {''')])
    ov.put(STD + 'time/zz_gwv.go', '''package time

import (
	"sync/atomic"
	"syscall"
)

var gwvClockOffset = gwvClockInit()
var gwvClockSec int64
var gwvStartNsec int32

// GWV_TICK=k,n: the clock stands still but for n seconds that pass just before it is read for the k-th time
var gwvTickAt, gwvTickBy int64
var gwvClockReads atomic.Int64

func gwvTick() int64 {
	if gwvClockReads.Add(1) >= gwvTickAt {
		return gwvTickBy
	}
	return 0
}

func gwvClockInit() int64 {
	s, ok := syscall.Getenv("GWV_NOW")
	if !ok || s == "" {
		return 0
	}
	var n int64
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	gwvClockSec = n
	k, _ := syscall.Getenv("GWV_TICK")
	for i := 0; i < len(k); i++ {
		if k[i] == ',' {
			gwvTickAt, gwvTickBy = gwvTickBy, 0
			continue
		}
		gwvTickBy = gwvTickBy*10 + int64(k[i]-'0')
	}
	sec, nsec, _ := runtimeNow()
	gwvStartNsec = nsec // a whole second passes before the next one
	return n - sec
}
''')


def std_reads(ov):
    """A read returns at most GWV_READCAP bytes, and none crosses the GWV_READAT-th byte of its stream."""
    u = STD + 'internal/poll/fd_unix.go'
    ov.patch(u, [('	Sysfd int\n', '	Sysfd int\n	gwvPos int\n'),
                 ('func (fd *FD) Read(p []byte) (int, error) {\n', '''func (fd *FD) Read(p []byte) (int, error) {
	if gwvReads {
		if gwvCap > 0 && len(p) > gwvCap {
			p = p[:gwvCap]
		}
		if n := gwvAt - fd.gwvPos; n > 0 && len(p) > n {
			p = p[:n]
		}
		n, err := fd.gwvRead(p)
		if n > 0 {
			fd.gwvPos += n
		}
		return n, err
	}
	return fd.gwvRead(p)
}

func (fd *FD) gwvRead(p []byte) (int, error) {
''')])
    ov.patch(u, [('ignoringEINTRIO(syscall.Write, fd.Sysfd, p[nn:max])', 'ignoringEINTRIO(gwvWrite, fd.Sysfd, p[nn:max])')])
    ov.put(STD + 'internal/poll/zz_gwv.go', '''package poll

import "syscall"

var gwvFull, gwvWritten = gwvNum("GWV_OUTFULL"), 1

// The device that standard output goes to is full after GWV_OUTFULL - 1 bytes.
func gwvWrite(fd int, p []byte) (int, error) {
	if fd == 1 && gwvFull > 0 {
		if gwvWritten >= gwvFull {
			return -1, syscall.ENOSPC
		}
		n, err := syscall.Write(fd, p[:min(len(p), gwvFull-gwvWritten)])
		gwvWritten += max(n, 0)
		return n, err
	}
	return syscall.Write(fd, p)
}

var gwvCap, gwvAt = gwvNum("GWV_READCAP"), gwvNum("GWV_READAT")
var gwvReads = gwvCap > 0 || gwvAt > 0

func gwvNum(k string) int {
	s, _ := syscall.Getenv(k)
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}
''')


def std_mapseed(ov):
    """Map iteration always starts at offset GWV_MAPSEED when that is set."""
    ov.patch(STD + 'internal/runtime/maps/table.go', [
        ('it.entryOffset = rand()', 'it.entryOffset = gwvRand()'),
        ('it.dirOffset = rand()', 'it.dirOffset = gwvRand()')])
    ov.put(STD + 'internal/runtime/maps/zz_gwv.go', '''package maps

var GwvSeedSet bool
var GwvSeed uint64

func gwvRand() uint64 {
	if GwvSeedSet {
		return GwvSeed
	}
	return rand()
}
''')
    ov.patch(STD + 'runtime/proc.go', [('''	goenvs()
''', '''	goenvs()
	gwvMapSeedInit()
''')])
    ov.put(STD + 'runtime/zz_gwv_mapseed.go', '''package runtime

import "internal/runtime/maps"

func gwvMapSeedInit() {
	s := gogetenv("GWV_MAPSEED")
	if s == "" {
		return
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	maps.GwvSeed = n
	maps.GwvSeedSet = true
}
''')


HARNESS = os.path.join(VERIF, 'harness')


def hfile(name):
    with open(os.path.join(HARNESS, name)) as f:
        return f.read()


def std_sched(ov):
    """Controlled scheduler, processes replaced by remembered results, file operations as decision points."""
    rt = STD + 'runtime/'
    ov.put(rt + 'zz_gwv_sched.go', hfile('sched/runtime_gwv.go'))
    ov.patch(rt + 'runtime2.go', [('	fipsOnlyBypass  bool', '	gwv             bool\n	gwvid           uint32\n	gwvlast         uint16\n	gwvspin         bool\n	fipsOnlyBypass  bool')])
    ov.patch(rt + 'proc.go', [
        ('	runqput(mp.p.ptr(), gp, next)\n	wakep()', '	if gp.gwv {\n		gwvPush(gp)\n	} else {\n		runqput(mp.p.ptr(), gp, next)\n	}\n	wakep()'),
        ('''	// local runq
	if gp, inheritTime := runqget(pp); gp != nil {
		return gp, inheritTime, false
	}
''', '''	// local runq
	if gp, inheritTime := runqget(pp); gp != nil {
		return gp, inheritTime, false
	}
	if gwvOn && sched.runq.empty() {
		if gp := gwvNext(); gp != nil {
			return gp, false, false
		}
	}
'''),
        ('''		runqput(pp, gp, true)
	} else {
		lock(&sched.lock)
		globrunqput(gp)''', '''		runqput(pp, gp, true)
	} else if gp.gwv {
		gwvPush(gp)
	} else {
		lock(&sched.lock)
		globrunqput(gp)'''),
        ('''	dropg()
	runqput(pp, gp, false)
	schedule()''', '''	dropg()
	if gp.gwv {
		gwvPush(gp)
	} else {
		runqput(pp, gp, false)
	}
	schedule()'''),
        ('''		pp := getg().m.p.ptr()
		runqput(pp, newg, true)
''', '''		pp := getg().m.p.ptr()
		newg.gwv = false
		if gwvOn && gp.gwv && !isSystemGoroutine(newg, false) {
			newg.gwv = true
			gwvIds++
			newg.gwvid = gwvIds
			gwvPush(newg)
		} else {
			runqput(pp, newg, true)
		}
'''),
        ('''func retake(now int64) uint32 {
''', '''func retake(now int64) uint32 {
	if gwvCtl != nil {
		return 0
	}
'''),
        ('''	fn := main_main // make an indirect call, as the linker doesn't know the address of the main package when laying down the runtime
	fn()
''', '''	fn := main_main // make an indirect call, as the linker doesn't know the address of the main package when laying down the runtime
	gwvStart()
	fn()
	gwvStop()
'''),
        ('''	goenvs()
''', '''	goenvs()
	gwvInit()
'''),
    ])
    ov.patch(rt + 'rand.go', [('	globalRand.state.Init(*seed)\n', '	for i := range seed {\n		seed[i] = 7\n	}\n	globalRand.state.Init(*seed)\n')])
    ov.patch(rt + 'debug.go', [
        ('	if n <= 0 {\n		unlock(&sched.lock)\n		return ret', '	if n <= 0 || gwvNcpu != 0 {\n		unlock(&sched.lock)\n		if gwvNcpu != 0 {\n			ret = gwvNcpu\n		}\n		return ret'),
        ('	return int(numCPUStartup)\n', '	if gwvNcpu != 0 {\n		return gwvNcpu\n	}\n	return int(numCPUStartup)\n')])
    ov.patch(rt + 'chan.go', [
        ('func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n', 'func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	gwvPoint()\n'),
        ('func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n', 'func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	gwvPoint()\n'),
        ('func closechan(c *hchan) {\n', 'func closechan(c *hchan) {\n	gwvPoint()\n')])
    ov.patch(rt + 'select.go', [
        ('	gp := getg()\n	if debugSelect {', '	gwvPoint()\n	gp := getg()\n	if debugSelect {'),
        ('		j := cheaprandn(uint32(norder + 1))\n', '		j := uint32(norder)\n		if !gwvOn {\n			j = cheaprandn(uint32(norder + 1))\n		}\n'),
        ('	// pass 1 - look for something already waiting\n', '	if gwvOn {\n		gwvSelectOrder(scases, pollorder, nsends)\n	}\n	// pass 1 - look for something already waiting\n')])
    ov.put(rt + 'zz_gwv_select.go', hfile('sched/select_gwv.go'))
    sy = STD + 'sync/'
    ov.put(sy + 'zz_gwv.go', 'package sync\n\nimport _ "unsafe"\n\nfunc gwvPoint()\n')
    ov.patch(sy + 'mutex.go', [('	m.mu.Lock()', '	gwvPoint()\n	m.mu.Lock()')])
    std_fs(ov)
    ex = STD + 'os/exec/'
    m = re.search(r'(?s)\nfunc validateLookPath\(.*?\n}\n', ov.current(ex + 'exec.go'))
    ov.put(ex + 'exec.go', hfile('sched/exec_gwv.go') + (m.group(0) if m else ''))
    ov.put(ex + 'exec_unix.go', 'package exec\n\nimport "internal/godebug"\n\nvar execerrdot = godebug.New("execerrdot")\n')


def std_fs(ov):
    o = STD + 'os/'
    ov.put(o + 'zz_gwv.go', hfile('sched/os_gwv.go'))
    pre = lambda decl, op, arg: (decl, decl + '	if err := gwvPath(%s, %s); err != nil {\n		return err\n	}\n' % (op, arg))
    ov.patch(o + 'file.go', [
        ('	testlog.Open(name)\n	f, err := openFileNolog', '	if err := gwvPath(gwvOpenOp(flag), name); err != nil {\n		return nil, err\n	}\n	testlog.Open(name)\n	f, err := openFileNolog'),
        pre('func Mkdir(name string, perm FileMode) error {\n', 'gwvMkdir', 'name'),
        ('func Rename(oldpath, newpath string) error {\n', 'func Rename(oldpath, newpath string) error {\n	if err := gwvPath(gwvRename, newpath); err != nil {\n		return err\n	}\n	if !gwvUnder(newpath) {\n		gwvPath(gwvRename, oldpath)\n	}\n'),
        ('func Chmod(name string, mode FileMode) error { return chmod(name, mode) }', 'func Chmod(name string, mode FileMode) error { gwvPath(gwvOther, name); return chmod(name, mode) }'),
    ])
    t = ov.current(o + 'file.go')
    t = re.sub(r'(func \(f \*File\) Write\(b \[\]byte\) \(n int, err error\) \{\n	if err := f.checkValid\("write"\); err != nil \{\n		return 0, err\n	\}\n)',
               r'\1	if cut, err := gwvFS(gwvWrite, f.name, len(b)); err != nil {\n		return 0, f.wrapErr("write", err)\n	} else if cut >= 0 {\n		f.write(b[:cut])\n		gwvCrash()\n	}\n', t)
    t = re.sub(r'(func \(f \*File\) WriteAt\(b \[\]byte, off int64\) \(n int, err error\) \{\n)', r'\1	if _, err := gwvFS(gwvWrite, f.name, len(b)); err != nil {\n		return 0, f.wrapErr("write", err)\n	}\n', t)
    t = re.sub(r'(func \(f \*File\) Read\(b \[\]byte\) \(n int, err error\) \{\n	if err := f.checkValid\("read"\); err != nil \{\n		return 0, err\n	\}\n)',
               r'\1	if _, err := gwvFS(gwvRead, f.name, 0); err != nil {\n		return 0, f.wrapErr("read", err)\n	}\n', t)
    t = re.sub(r'(func \(f \*File\) ReadFrom\(r io.Reader\) \(n int64, err error\) \{\n)', r'\1	if f != nil && gwvUnder(f.name) {\n		return genericReadFrom(f, r)\n	}\n', t)
    if t.count('gwvFS(') != 3 or t.count('gwvUnder(f.name)') != 1:
        raise HarnessError('cannot instrument os/file.go')
    ov.put(o + 'file.go', t)
    ov.patch(o + 'file_unix.go', [
        pre('func Remove(name string) error {\n', 'gwvRemove', 'name'),
        pre('func Truncate(name string, size int64) error {\n', 'gwvTrunc', 'name'),
        pre('func Link(oldname, newname string) error {\n', 'gwvOther', 'newname'),
        pre('func Symlink(oldname, newname string) error {\n', 'gwvOther', 'newname'),
    ])
    ov.patch(o + 'file_posix.go', [('func (f *File) Truncate(size int64) error {\n', 'func (f *File) Truncate(size int64) error {\n	if f != nil {\n		if err := gwvPath(gwvTrunc, f.name); err != nil {\n			return err\n		}\n	}\n')])
    ov.patch(o + 'dir.go', [('func ReadDir(name string) ([]DirEntry, error) {\n', 'func ReadDir(name string) ([]DirEntry, error) {\n	if err := gwvPath(gwvReaddir, name); err != nil {\n		return nil, err\n	}\n')])
    # inside RemoveAll names are relative to a directory descriptor
    ov.patch(o + 'removeall_at.go', [
        ('	err := removefileat(parentFd, base)\n', '	err := gwvPath(gwvRemove, gwvRemoveRoot+base)\n	if err == nil {\n		err = removefileat(parentFd, base)\n	}\n'),
        ('	unlinkError := removedirat(parentFd, base)\n', '	unlinkError := gwvPath(gwvRemove, gwvRemoveRoot+base)\n	if unlinkError == nil {\n		unlinkError = removedirat(parentFd, base)\n	}\n'),
        ('	parentDir, base := splitPath(path)\n', '	parentDir, base := splitPath(path)\n	gwvRemoveRoot = parentDir + "/"\n	if gwvUnder(path) {\n		gwvRemoveRoot = path + "//"\n	}\n'),
    ])
    ov.put(o + 'zz_gwv_rm.go', 'package os\n\nvar gwvRemoveRoot string\n')


def std_fslog(ov):
    """Only the log of file operations (GWV_FSLOG), and another password file (GWV_PASSWD)."""
    std_fs(ov)
    names = dict(gwvPoint='()', gwvChoose='(n, kind uint32) uint32', gwvFlags='() uint32', gwvWord='(i uint32) uint32', gwvSetWord='(i, v uint32)', gwvFsLog='(op, n uint32) uint32')
    t = 'package runtime\n\nimport _ "unsafe"\n'
    for n, sig in names.items():
        t += '\n//go:linkname os_%s os.%s\nfunc os_%s%s {%s}\n' % (n, n, n, sig, ' return 0 ' if sig.endswith(' uint32') and not sig.endswith(', v uint32') else '')
    ov.put(STD + 'runtime/zz_gwv_stub.go', t.replace('(i, v uint32) { return 0 }', '(i, v uint32) {}'))
    u = STD + 'os/user/lookup_unix.go'
    t = ov.current(u)
    if 'os.Open(userFile)' not in t:
        raise HarnessError('cannot instrument os/user')
    ov.put(u, t.replace('os.Open(userFile)', 'os.Open(gwvUserFile())') + """
func gwvUserFile() string {
	if s := os.Getenv("GWV_PASSWD"); s != "" {
		return s
	}
	return userFile
}
""")


def small_chunks(ov, n):
    """Rewrite the batch size constant.  Returns False if it cannot be found."""
    d = os.path.join(REPO, 'internal/concurrent')
    found = 0
    for name in (r'\w*[cC]hunk\w*', r'\w*[bB]atch\w*', r'\w+'):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.go') and not fn.endswith('_test.go'):
                p = os.path.join(d, fn)
                t = ov.current(p)
                t2, k = re.subn(r'(?m)^(\s*(?:const\s+|var\s+)?%s(?:\s+int)?\s*(?::?=)\s*)(?:1024|1_024|1\s*<<\s*10)\b(?=\s*(?://|$))' % name, r'\g<1>%d' % n, t)
                if k:
                    found += k
                    ov.put(p, t2)
        if found:
            break
    return found > 0


def go_build(ov, out, pkg='.', race=False, tags=None, extra=None):
    cmd = [GOROOT + '/bin/go', 'build', '-o', out]
    env = goenv()
    if race:
        cmd.append('-race')
        env['CGO_ENABLED'] = '1'
    if tags:
        cmd += ['-tags', tags]
    if ov is not None:
        cmd += ['-overlay', ov.json()]
    cmd += (extra or []) + [pkg]
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return out


_bins = {}


def binary(kind='e2e', chunk=None):
    """kind e2e: real program with a settable clock and map iteration offset.
    kind sched: also with controlled scheduling, remembered git processes and controlled file operations.
    kind race: like sched, with the race detector's happens-before monitor."""
    key = (kind, chunk)
    if key in _bins:
        return _bins[key]
    ov = Overlay('%s-%s' % (kind, chunk))
    std_clock(ov)
    std_mapseed(ov)
    if kind == 'e2e':
        std_reads(ov)
    if kind in ('sched', 'race'):
        std_sched(ov)
    if kind == 'fslog':
        std_fslog(ov)
    if chunk and not small_chunks(ov, chunk):
        _bins[key] = None
        return None
    out = os.path.join(scratch(), 'git-who-%s-%s' % (kind, chunk))
    _bins[key] = go_build(ov, out, race=kind == 'race')
    return _bins[key]


def inproc(name):
    """Program of /verif/harness/NAME built as part of /repo's module, so that it can call its internal packages.
    (reason, None) when it does not fit the packages any more."""
    ov = Overlay('in-' + name)
    std_clock(ov)
    ov.put(os.path.join(REPO, 'internal/zverif', name, 'main.go'), hfile(name + '/main.go'))
    out = os.path.join(scratch(), name)
    try:
        return go_build(ov, out, './internal/zverif/' + name)
    except HarnessError as e:
        binary()                    # (if nothing builds at all, say so)
        return str(e)[-600:], None


_fakegit = None


def fakegit():
    """Directory with a program named git that passes on what the real one does, in another rhythm."""
    global _fakegit
    if not _fakegit:
        d = os.path.join(scratch(), 'fakegit')
        os.makedirs(d, exist_ok=True)
        made = os.path.join(d, 'git.%d' % os.getpid())       # several workers might want it, and one must not write what another runs
        r = subprocess.run([GOROOT + '/bin/go', 'build', '-o', made, '.'], cwd=os.path.join(HARNESS, 'fakegit'), env=goenv(), capture_output=True, text=True)
        if r.returncode:
            raise HarnessError(r.stderr)
        os.rename(made, os.path.join(d, 'git'))
        _fakegit = d
    return _fakegit
