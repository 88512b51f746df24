package runtime

import "unsafe"

// Controlled scheduler.  With GWV_CTL naming a control file, goroutines started
// (transitively) by main.main run one at a time; which of them runs next, and
// which ready case a select takes, is decided by the choices in that file.

const (
	gwvWords    = 1 << 18
	gwvOut      = 4096
	gwvDec      = 4352
	gwvDecMax   = 1 << 17
	gwvFsBase   = gwvDec + gwvDecMax
	gwvFsMax    = 1 << 15
	gwvPreempt  = 1
	gwvPick     = 2
	gwvSelect   = 3
	gwvQueueMax = 4096
)

var (
	gwvCtl     *[gwvWords]uint32
	gwvOn      bool
	gwvPolicy  uint32
	gwvHorizon uint32
	gwvForced  uint32
	gwvNextF   uint32
	gwvNcpu    int
	gwvIds     uint32
	gwvQ       [gwvQueueMax]guintptr
	gwvQn      int
	gwvForce   guintptr
	gwvPoints  uint32
)

func gwvInit() {
	s := gogetenv("GWV_NCPU")
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	gwvNcpu = n
	p := gogetenv("GWV_CTL")
	if p == "" {
		return
	}
	fd := open(unsafe.StringData(p), 2 /* O_RDWR */, 0)
	if fd < 0 {
		throw("gwv: cannot open control file")
	}
	m, e := mmap(nil, gwvWords*4, 3, 1 /* MAP_SHARED */, fd, 0)
	if e != 0 {
		throw("gwv: cannot map control file")
	}
	closefd(fd)
	gwvCtl = (*[gwvWords]uint32)(m)
	gwvPolicy = gwvCtl[1]
	if gwvCtl[2] != 0 {
		gwvNcpu = int(gwvCtl[2])
	}
	gwvHorizon = gwvCtl[3]
	gwvForced = gwvCtl[4]
}

// Called on the main goroutine right before main.main.
func gwvStart() {
	if gwvCtl == nil {
		return
	}
	getg().gwv = true
	gwvIds = 1
	getg().gwvid = 1
	gwvOn = true
}

func gwvStop() {
	if gwvCtl != nil && gwvOn {
		gwvCtl[gwvOut+1] = 1
	}
}

func gwvDie(status uint32, code int32) {
	gwvCtl[gwvOut+1] = status
	exit(code)
}

// Next choice among n > 1 alternatives.
func gwvDecide(n uint32, kind uint32) uint32 {
	i := gwvCtl[gwvOut]
	if i >= gwvDecMax {
		gwvDie(4, 96)
	}
	var c uint32
	if gwvNextF < gwvForced && gwvCtl[8+2*gwvNextF] == i {
		c = gwvCtl[8+2*gwvNextF+1]
		gwvNextF++
		if c >= n {
			gwvDie(2, 97)
		}
	}
	var id uint32
	if gp := getg().m.curg; gp != nil {
		id = gp.gwvid
	}
	gwvCtl[gwvDec+i] = (n&255)<<24 | (c&255)<<16 | kind<<8 | id&255
	gwvCtl[gwvOut] = i + 1
	return c
}

func gwvPush(gp *g) {
	if gwvQn >= gwvQueueMax {
		gwvDie(4, 96)
	}
	gwvQ[gwvQn].set(gp)
	gwvQn++
}

func gwvTake(i int) *g {
	gp := gwvQ[i].ptr()
	for ; i+1 < gwvQn; i++ {
		gwvQ[i] = gwvQ[i+1]
	}
	gwvQn--
	gwvQ[gwvQn] = 0
	return gp
}

// The k-th runnable goroutine in the order of the policy.
func gwvNth(k int) int {
	switch gwvPolicy {
	case 1: // most recently runnable first
		return gwvQn - 1 - k
	case 2, 3: // by identity
		for i := 0; i < gwvQn; i++ {
			r := 0
			for j := 0; j < gwvQn; j++ {
				a, b := gwvQ[i].ptr().gwvid, gwvQ[j].ptr().gwvid
				if gwvPolicy == 2 && b < a || gwvPolicy == 3 && b > a {
					r++
				}
			}
			if r == k {
				return i
			}
		}
	}
	return k // longest waiting first
}

// Called by the scheduler when nothing outside the model is runnable.
func gwvNext() *g {
	if gwvForce != 0 {
		f := gwvForce
		gwvForce = 0
		for i := 0; i < gwvQn; i++ {
			if gwvQ[i] == f {
				return gwvTake(i)
			}
		}
		throw("gwv: forced goroutine not runnable")
	}
	if gwvQn == 0 {
		return nil
	}
	k := 0
	if gwvQn > 1 {
		k = int(gwvDecide(uint32(gwvQn), gwvPick))
	}
	return gwvTake(gwvNth(k))
}

// A point where the running goroutine may lose the processor.
//
//go:nosplit
func gwvPoint() {
	if gwvOn {
		gwvPoint1()
	}
}

func gwvPoint1() {
	gp := getg()
	if !gp.gwv || gp.m.locks != 0 || gp == gp.m.g0 || gp.m.mallocing != 0 || gp.m.gsignal == gp || gp.m.preemptoff != "" {
		return
	}
	gwvPoints++
	gwvCtl[gwvOut+2] = gwvPoints
	if gwvPoints > gwvHorizon {
		gwvDie(3, 98)
	}
	if gwvQn == 0 {
		return
	}
	c := int(gwvDecide(uint32(gwvQn)+1, gwvPreempt))
	if gwvPolicy == 4 || gp.gwvspin { // switch unless told otherwise
		c = (c + 1) % (gwvQn + 1)
	}
	if c == 0 {
		return
	}
	gp.gwvspin = false
	gwvForce = gwvQ[gwvNth(c-1)]
	mcall(gosched_m)
}

// Which of n ready cases a select takes.
func gwvReadyCase(n int) int {
	if !gwvOn || n < 2 || !getg().gwv {
		return 0
	}
	return int(gwvDecide(uint32(n), gwvSelect))
}

//go:linkname os_gwvPoint os.gwvPoint
func os_gwvPoint() { gwvPoint() }

//go:linkname sync_gwvPoint sync.gwvPoint
func sync_gwvPoint() { gwvPoint() }

//go:linkname os_gwvChoose os.gwvChoose
func os_gwvChoose(n, kind uint32) uint32 {
	if !gwvOn || n < 2 || !getg().gwv {
		return 0
	}
	return gwvDecide(n, kind)
}

//go:linkname os_gwvFlags os.gwvFlags
func os_gwvFlags() uint32 {
	if gwvCtl == nil {
		return 0
	}
	return gwvCtl[5]
}

//go:linkname os_gwvWord os.gwvWord
func os_gwvWord(i uint32) uint32 {
	if gwvCtl == nil {
		return 0
	}
	return gwvCtl[i]
}

//go:linkname os_gwvSetWord os.gwvSetWord
func os_gwvSetWord(i, v uint32) {
	if gwvCtl != nil {
		gwvCtl[i] = v
	}
}

//go:linkname os_gwvFsLog os.gwvFsLog
func os_gwvFsLog(op, n uint32) uint32 {
	if gwvCtl == nil {
		return 0
	}
	i := gwvCtl[gwvOut+3]
	if i < gwvFsMax {
		gwvCtl[gwvFsBase+i] = op<<24 | n&0xffffff
	}
	gwvCtl[gwvOut+3] = i + 1
	return i
}
