// Calls the exported functions of package format on every number, age and name
// of the ranges given below.  Built into /repo/internal through an overlay.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sinclairtarget/git-who/internal/format"
)

type in struct {
	MaxNumber int // every number up to this one
	MaxSecond int // every age up to this many seconds
	Length    int // every name of up to this many clusters
	Secs      float64
}

type out struct {
	Numbers, Ages, Names int64
	Bad                  []string
	Done                 bool
}

var (
	mu  sync.Mutex
	res = out{Done: true}
	end time.Time
)

func bad(f string, a ...any) {
	mu.Lock()
	if len(res.Bad) < 8 {
		res.Bad = append(res.Bad, fmt.Sprintf(f, a...))
	}
	mu.Unlock()
}

// Splits [0, n) over the processors.
func each(n int, f func(lo, hi int)) {
	const step = 1 << 16
	var wg sync.WaitGroup
	next := 0
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				lo := next
				next += step
				stop := lo >= n || len(res.Bad) >= 8
				if !stop && time.Now().After(end) {
					res.Done = false
					stop = true
				}
				mu.Unlock()
				if stop {
					return
				}
				f(lo, min(n, lo+step))
			}
		}()
	}
	wg.Wait()
}

func try(what string, f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			bad("%s: panic: %v", what, p)
		}
	}()
	return f()
}

// -------------------------------------------------------------------- numbers
func number(n int) {
	s := format.Number(n)
	if len(s) > 7 {
		bad("Number(%d) = %q: longer than 7 characters", n, s)
		return
	}
	switch {
	case n < 1000:
		if s != strconv.Itoa(n) {
			bad("Number(%d) = %q", n, s)
		}
	case n < 1_000_000:
		// d+,ddd
		i := len(s) - 4
		if i < 1 || s[i] != ',' {
			bad("Number(%d) = %q", n, s)
			return
		}
		v := 0
		for j := 0; j < len(s); j++ {
			if j == i {
				continue
			}
			if s[j] < '0' || s[j] > '9' {
				bad("Number(%d) = %q", n, s)
				return
			}
			v = v*10 + int(s[j]-'0')
		}
		if v != n || s[0] == '0' {
			bad("Number(%d) = %q", n, s)
		}
	case n <= 100_000_000:
		l := len(s)
		if l < 4 || s[l-1] != 'm' || s[l-3] != '.' || s[0] == '0' {
			bad("Number(%d) = %q", n, s)
			return
		}
		v := 0
		for j := 0; j < l-1; j++ {
			if j == l-3 {
				continue
			}
			if s[j] < '0' || s[j] > '9' {
				bad("Number(%d) = %q", n, s)
				return
			}
			v = v*10 + int(s[j]-'0')
		}
		// to the nearest tenth; either one when half way between (to a few units)
		if d := v*100_000 - n; d > 50_016 || d < -50_016 {
			bad("Number(%d) = %q", n, s)
		}
	default:
		if s != ">99m" {
			bad("Number(%d) = %q", n, s)
		}
	}
}

// ----------------------------------------------------------------------- ages
var units = []struct {
	one, many string
	secs      int64
	next      int64
}{
	{"min.", "min.", 60, 3600},
	{"hour", "hr.", 3600, 86400},
	{"day", "days", 86400, 7 * 86400},
	{"week", "weeks", 7 * 86400, 30 * 86400},
	{"month", "mon.", 30 * 86400, 365 * 86400},
	{"year", "yr.", 365 * 86400, 1 << 62},
}

var origin = time.Unix(1_700_000_000, 0)

func age(d time.Duration) {
	s := format.RelativeTime(origin, origin.Add(-d))
	want := ""
	secs := int64(d / time.Second)
	for _, u := range units {
		if secs < u.next {
			n := secs / u.secs
			name := u.many
			if n <= 1 {
				name = u.one
			}
			want = strconv.FormatInt(n, 10) + " " + name + " ago"
			if u.one == "year" && n > 99 {
				want = ">99 yr. ago"
			}
			break
		}
	}
	if s != want {
		bad("age of %v: %q, should be %q", d, s, want)
	}
	if len(s) > 11 {
		bad("age of %v: %q is longer than 11 characters", d, s)
	}
}

// ---------------------------------------------------------------------- names
type cluster struct {
	s string
	w int
}

var clusters = []cluster{{"a", 1}, {"é", 1}, {"漢", 2}, {"e\u0301", 1}, {"😀", 2}, {" ", 1}, {"z", 1}, {"ｱ", 1}}

func name(cs []cluster, w int) {
	var b strings.Builder
	total := 0
	for _, c := range cs {
		b.WriteString(c.s)
		total += c.w
	}
	s := b.String()
	want := s
	if total > w {
		left := w - 1
		b.Reset()
		for _, c := range cs {
			if c.w > left {
				break
			}
			left -= c.w
			b.WriteString(c.s)
		}
		want = b.String() + "…"
	}
	if got := try(fmt.Sprintf("Abbrev(%q, %d)", s, w), func() string { return format.Abbrev(s, w) }); got != want {
		bad("Abbrev(%q, %d) = %q, should be %q", s, w, got, want)
	}
}

func main() {
	var cfg in
	if err := json.NewDecoder(os.Stdin).Decode(&cfg); err != nil {
		panic(err)
	}
	end = time.Now().Add(time.Duration(cfg.Secs * float64(time.Second)))
	each(cfg.MaxNumber+1, func(lo, hi int) {
		try(fmt.Sprintf("Number(%d...)", lo), func() string {
			for n := lo; n < hi; n++ {
				number(n)
			}
			return ""
		})
		mu.Lock()
		res.Numbers += int64(hi - lo)
		mu.Unlock()
	})
	for e := 1; e <= 18; e++ { // around every power of ten above
		p := 1
		for range e {
			p *= 10
		}
		for _, m := range []int{1, 2, 5, 9} {
			for d := -3; d <= 3; d++ {
				if n := m*p + d; n > 0 {
					try(fmt.Sprintf("Number(%d)", n), func() string { number(n); return "" })
					res.Numbers++
				}
			}
		}
	}
	each(cfg.MaxSecond, func(lo, hi int) {
		for n := lo; n < hi; n++ {
			age(time.Duration(n) * time.Second)
		}
		mu.Lock()
		res.Ages += int64(hi - lo)
		mu.Unlock()
	})
	for _, u := range units { // around every multiple of every unit, up to 250 years
		for n := int64(0); n*u.secs < 250*365*86400 && n < 200_000; n++ {
			for _, d := range []time.Duration{-2 * time.Second, -time.Second, -1, 0, 1, time.Second, 2 * time.Second} {
				if t := time.Duration(n*u.secs)*time.Second + d; t >= 0 {
					age(t)
					res.Ages++
				}
			}
		}
	}
	for i := 0; i < 60; i++ { // a commit a little younger than the moment the program started
		if s := format.RelativeTime(origin, origin.Add(time.Duration(i)*time.Second)); s != "0 min. ago" {
			bad("age of -%ds: %q", i, s)
		}
	}
	for l := 0; l <= cfg.Length; l++ {
		total := 1
		for range l {
			total *= len(clusters)
		}
		each(total, func(lo, hi int) {
			cs := make([]cluster, l)
			for n := lo; n < hi; n++ {
				for i, m := 0, n; i < l; i++ {
					cs[i] = clusters[m%len(clusters)]
					m /= len(clusters)
				}
				for w := 1; w <= 2*l+1; w++ {
					name(cs, w)
				}
			}
			mu.Lock()
			res.Names += int64(hi-lo) * int64(2*l+1)
			mu.Unlock()
		})
	}
	// the widths of the columns, with wide characters at every place near the end
	for _, w := range []int{25, 31, 33, 58} {
		for n := w - 6; n <= w+2; n++ {
			for _, tail := range []string{"", "é", "漢", "漢漢", "a漢a", "e\u0301漢", "😀😀😀"} {
				var cs []cluster
				for range n {
					cs = append(cs, cluster{"a", 1})
				}
				for _, r := range tail {
					switch {
					case r == '\u0301':
						cs[len(cs)-1].s += string(r)
					case r > 0x2000:
						cs = append(cs, cluster{string(r), 2})
					default:
						cs = append(cs, cluster{string(r), 1})
					}
				}
				for rot := 0; rot < len(cs); rot += max(1, len(cs)/9) {
					name(append(append([]cluster{}, cs[rot:]...), cs[:rot]...), w)
					res.Names++
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
