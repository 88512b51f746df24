// Stands in for git: runs the real one, then passes its output on in a
// different rhythm and with a lot of output on standard error.
package main

import (
	"bytes"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
)

func main() {
	args := os.Args[1:]
	real := os.Getenv("FG_GIT")
	sub := ""
	for _, a := range args {
		if a == "log" || a == "rev-list" || a == "ls-files" || a == "rev-parse" || a == "config" {
			sub = a
			break
		}
	}
	if sub == "log" && !has(args, "--stdin") {
		sub = "revs"
		if has(args, "--numstat") {
			sub = "log"
		}
	}
	if want := os.Getenv("FG_SUB"); want != "all" && want != sub {
		syscall.Exec(real, append([]string{"git"}, args...), os.Environ())
		os.Exit(127)
	}
	num := func(k string) int { n, _ := strconv.Atoi(os.Getenv(k)); return n }
	before, mid, after, chunk, exit := num("FG_BEFORE"), num("FG_MID"), num("FG_AFTER"), num("FG_CHUNK"), num("FG_EXIT")
	noise(before)
	c := exec.Command(real, args...)
	c.Stdin = os.Stdin
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, os.Stderr
	err := c.Run()
	b := out.Bytes()
	if o, n, ok := strings.Cut(os.Getenv("FG_REPL"), "=>"); ok {
		b = bytes.ReplaceAll(b, []byte(o), []byte(n))
	}
	half := len(b) / 2
	emit(b[:half], chunk)
	noise(mid)
	emit(b[half:], chunk)
	if os.Getenv("FG_CLOSE") != "" {
		os.Stdout.Close()
	}
	noise(after)
	if err != nil {
		os.Exit(c.ProcessState.ExitCode())
	}
	os.Exit(exit)
}

func has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func emit(b []byte, chunk int) {
	if chunk <= 0 {
		os.Stdout.Write(b)
		return
	}
	for len(b) > 0 {
		n := min(chunk, len(b))
		os.Stdout.Write(b[:n])
		b = b[n:]
	}
}

func noise(n int) {
	if n > 0 {
		os.Stderr.Write([]byte(strings.Repeat("warning: noise\n", n/15+1)[:n]))
	}
}
