package runtime

func gwvIsReady(c *hchan, send bool) bool {
	if send {
		return c.closed != 0 || gwvWaiter(&c.recvq) || c.qcount < c.dataqsiz
	}
	return gwvWaiter(&c.sendq) || c.qcount > 0 || c.closed != 0
}

// Somebody waits in the queue who has not been woken through another channel yet.
func gwvWaiter(q *waitq) bool {
	for s := q.first; s != nil; s = s.next {
		if !s.isSelect || s.g.selectDone.Load() == 0 {
			return true
		}
	}
	return false
}

// Moves the chosen one of the ready cases to the front.  The first alternative is
// the ready case next after the one taken last (so no ready case starves).
func gwvSelectOrder(scases []scase, order []uint16, nsends int) {
	gp := getg()
	if !gp.gwv {
		return
	}
	n := 0
	for _, i := range order {
		if gwvIsReady(scases[i].c, int(i) < nsends) {
			n++
		}
	}
	if n == 0 {
		return
	}
	k := gwvReadyCase(n)
	total := len(scases)
	for d := 1; d <= total; d++ {
		want := (int(gp.gwvlast) + d) % total
		for j, i := range order {
			if int(i) != want || !gwvIsReady(scases[i].c, int(i) < nsends) {
				continue
			}
			if k == 0 {
				order[0], order[j] = order[j], order[0]
				gp.gwvlast = i
				// taking nothing from a closed channel may be busy waiting
				gp.gwvspin = int(i) >= nsends && scases[i].c.closed != 0 && scases[i].c.qcount == 0
				return
			}
			k--
			break
		}
	}
}
