package os

import (
	"io"
	"syscall"
	_ "unsafe"
)

func gwvPoint()
func gwvChoose(n, kind uint32) uint32
func gwvFlags() uint32
func gwvWord(i uint32) uint32
func gwvFsLog(op, n uint32) uint32

func GwvPoint()                        { gwvPoint() }
func GwvChoose(n, kind uint32) uint32  { return gwvChoose(n, kind) }
func GwvFlags() uint32                 { return gwvFlags() }
func gwvSetWord(i, v uint32)
func GwvWord(i uint32) uint32          { return gwvWord(i) }
func GwvSetWord(i, v uint32)           { gwvSetWord(i, v) }
func GwvState(code, sig int) *ProcessState {
	return &ProcessState{pid: 4242, status: syscall.WaitStatus(code<<8 | sig)}
}

const (
	gwvFlagFsPoints = 1 // file operations under GWV_FSROOT are scheduling points
	gwvFlagFsFaults = 2 // and may fail
	gwvFlagProcFaults = 4
	gwvFlagFsToken  = 8 // wait for a byte on descriptor 4 before each operation
	gwvFlagFsLog    = 16
	gwvFlagFsCrash  = 32 // die at mutating operation word(6), after word(7) bytes of it
)

// Operations as logged.
const (
	gwvOpen = 1 + iota
	gwvCreate
	gwvTrunc
	gwvRead
	gwvWrite
	gwvRemove
	gwvMkdir
	gwvRename
	gwvReaddir
	gwvOther
)

var gwvRoot = func() string { s, _ := syscall.Getenv("GWV_FSROOT"); return s }()
var gwvLogFd = func() int {
	s, _ := syscall.Getenv("GWV_FSLOG")
	if s == "" {
		return -1
	}
	fd, err := syscall.Open(s, syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CREAT|syscall.O_CLOEXEC, 0644)
	if err != nil {
		return -1
	}
	return fd
}()

func gwvUnder(name string) bool {
	return gwvRoot != "" && len(name) >= len(gwvRoot) && name[:len(gwvRoot)] == gwvRoot
}

func gwvCrash() {
	syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
	for {
	}
}

func gwvMutates(op uint32) bool {
	return op != gwvOpen && op != gwvRead && op != gwvReaddir
}

// Called before a file operation.  cut >= 0: write only so many bytes, then die.
func gwvFS(op uint32, name string, n int) (cut int, err error) {
	cut = -1
	if gwvLogFd >= 0 && gwvMutates(op) && name != "/dev/null" {
		d := []byte(" ")
		d[0] = 'a' + byte(op) - 1
		d = append(d, ' ')
		d = append(d, name...)
		d = append(d, '\n')
		syscall.Write(gwvLogFd, d)
	}
	if !gwvUnder(name) {
		return
	}
	fl := gwvFlags()
	if fl == 0 {
		return
	}
	if fl&gwvFlagFsPoints != 0 {
		gwvPoint()
	}
	if fl&gwvFlagFsToken != 0 {
		var b [1]byte
		b[0] = byte(op)
		syscall.Write(3, b[:])
		for {
			k, e := syscall.Read(4, b[:])
			if e == syscall.EINTR {
				continue
			}
			if k != 1 {
				syscall.Exit(95)
			}
			break
		}
	}
	i := gwvFsLog(op, uint32(n))
	if fl&gwvFlagFsCrash != 0 && i == gwvWord(6) {
		k := int(gwvWord(7))
		if k == 0 || op != gwvWrite {
			gwvCrash()
		}
		return min(k, n), nil
	}
	if fl&gwvFlagFsFaults != 0 && op != gwvOther {
		if gwvChoose(2, 5) == 1 {
			if op == gwvWrite {
				return -1, syscall.ENOSPC
			}
			return -1, syscall.EIO
		}
	}
	return
}

func gwvPath(op uint32, name string) error {
	_, err := gwvFS(op, name, 0)
	if err != nil {
		return &PathError{Op: "gwv", Path: name, Err: err}
	}
	return nil
}

func gwvOpenOp(flag int) uint32 {
	if flag&O_TRUNC != 0 {
		return gwvTrunc
	}
	if flag&O_CREATE != 0 {
		return gwvCreate
	}
	return gwvOpen
}

type gwvReaderOnly struct{ io.Reader }
