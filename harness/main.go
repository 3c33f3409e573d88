package main

import (
	"flag"
	"os"
	"time"
)

var cmds = map[string]func([]string){}

// Common flags of the drivers: cases lo..hi-1 of the run with this seed.
type Common struct {
	seed      uint64
	lo, hi    int
	tier, dir string
	outp, mk  string
	out       *Out
	mark      *Marker
}

func common(name string) (*flag.FlagSet, *Common) {
	fl := flag.NewFlagSet(name, flag.ExitOnError)
	c := &Common{}
	fl.Uint64Var(&c.seed, "seed", 1, "")
	fl.IntVar(&c.lo, "lo", 0, "")
	fl.IntVar(&c.hi, "hi", 1, "")
	fl.StringVar(&c.tier, "tier", "quick", "")
	fl.StringVar(&c.dir, "dir", "", "")
	fl.StringVar(&c.outp, "out", "", "")
	fl.StringVar(&c.mk, "mark", "", "")
	return fl, c
}

func (c *Common) open() {
	c.out = NewOut(c.outp)
	c.mark = NewMarker(c.mk)
}

// rand gives each case its own generator, the same whatever lo and hi are.
func (c *Common) rand(i int, tag uint64) *Rand {
	return NewRand(c.seed*1000003 + uint64(i)*7919 + tag*104729 + 17)
}

// attempt runs what must not fail; if it does the trace says so.
func (c *Common) attempt(d time.Duration, f func()) {
	watch(d, func() {
		out, msg := guard(func() error { f(); return nil })
		if out != "ok" {
			c.out.Put(M{"op": "failed", "how": out, "msg": msg})
		}
	})
}

func need(err error) {
	if err != nil {
		panic(err.Error())
	}
}

func main() {
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		die("unknown command")
	}
	cmds[os.Args[1]](os.Args[2:])
}
