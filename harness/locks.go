package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
)

// Calls of a policy's locks by several callers, one call at a time. Judged by
// spec/LocksTrace.tla.

type lockCall struct {
	op string
	g  int
	k  string
}

func doLock(p interfaces.AnnoyIndexBuildPolicy, k string) {
	switch k {
	case "nn":
		p.LockNNodes()
	case "ex":
		p.LockNodes()
	case "sh":
		p.LockSharedNodes()
	default:
		p.LockRoots()
	}
}
func doUnlock(p interfaces.AnnoyIndexBuildPolicy, k string) {
	switch k {
	case "nn":
		p.UnlockNNodes()
	case "ex":
		p.UnlockNodes()
	case "sh":
		p.UnlockSharedNodes()
	default:
		p.UnlockRoots()
	}
}

type lockRun struct {
	p       interfaces.AnnoyIndexBuildPolicy
	multi   bool
	put     func(M)
	cmd     map[int]chan lockCall
	ret     chan lockCall
	held    []heldT
	pending map[int]string
	stuck   bool // a lock that is free was not granted: no use going on
}

func (r *lockRun) caller(g int) chan lockCall {
	if r.cmd[g] == nil {
		ch := make(chan lockCall)
		r.cmd[g] = ch
		go func() {
			for c := range ch {
				if c.op == "lock" {
					doLock(r.p, c.k)
				} else {
					doUnlock(r.p, c.k)
				}
				r.ret <- c
			}
		}()
	}
	return r.cmd[g]
}

// due: something has to happen yet.
func (r *lockRun) due() bool {
	for g, k := range r.pending {
		ok := true
		for _, h := range r.held {
			if conflict(k, h.k) {
				ok = false
			}
		}
		if k == "sh" {
			for o, kk := range r.pending {
				if o != g && kk == "ex" {
					ok = false
				}
			}
		}
		if ok || !r.multi {
			return true
		}
	}
	return false
}

func (r *lockRun) took(c lockCall) {
	r.put(M{"op": "ret", "g": c.g})
	r.held = append(r.held, heldT{c.g, c.k})
	delete(r.pending, c.g)
}

func (r *lockRun) settle() {
	for {
		d := 400 * time.Microsecond
		if len(r.pending) == 0 {
			break
		}
		if r.due() {
			d = 10 * time.Second
		}
		select {
		case c := <-r.ret:
			r.took(c)
			continue
		case <-time.After(d):
			r.stuck = r.due()
		}
		break
	}
	r.put(M{"op": "quiet"})
}

func (r *lockRun) holds(g int, k string) int {
	for i, h := range r.held {
		if h.w == g && h.k == k {
			return i
		}
	}
	return -1
}

// do one call, if it makes sense. Returns false if the policy is stuck.
func (r *lockRun) do(c lockCall) bool {
	if r.pending[c.g] != "" {
		return true
	}
	at := r.holds(c.g, c.k)
	if c.op == "lock" {
		if at >= 0 || c.k == "sh" && r.holds(c.g, "ex") >= 0 || c.k == "ex" && r.holds(c.g, "sh") >= 0 {
			return true
		}
		r.pending[c.g] = c.k
		r.put(M{"op": "lock", "g": c.g, "k": c.k})
		r.caller(c.g) <- c
		r.settle()
		return !r.stuck
	}
	if at < 0 {
		return true
	}
	r.put(M{"op": "unlock", "g": c.g, "k": c.k})
	r.held = append(append([]heldT{}, r.held[:at]...), r.held[at+1:]...)
	r.caller(c.g) <- c
	for {
		select {
		case x := <-r.ret:
			if x.op == "unlock" {
				r.settle()
				return !r.stuck
			}
			r.took(x)
		case <-time.After(5 * time.Second):
			r.put(M{"op": "failed", "how": "unlocking blocks"})
			return false
		}
	}
}

// lockHistory returns false if the policy got stuck.
func lockHistory(p interfaces.AnnoyIndexBuildPolicy, multi bool, calls []lockCall, put func(M)) bool {
	r := &lockRun{p: p, multi: multi, put: put, cmd: map[int]chan lockCall{}, ret: make(chan lockCall, 16), pending: map[int]string{}}
	for _, c := range calls {
		if !r.do(c) {
			return false
		}
	}
	// everything is given back, so everybody gets what they wait for
	for n := 0; len(r.held) > 0 && n < 100; n++ {
		at := -1
		for i, h := range r.held {
			if r.pending[h.w] == "" {
				at = i
			}
		}
		if at < 0 {
			return true // they wait for each other
		}
		if !r.do(lockCall{"unlock", r.held[at].w, r.held[at].k}) {
			return false
		}
	}
	for g, ch := range r.cmd {
		if r.pending[g] == "" {
			close(ch)
		}
	}
	return true
}

// storm: callers that run freely. What the locks guard is not guarded otherwise,
// so the race detector sees when they fail.
func storm(multi bool, r *Rand, n, rounds int) M {
	p := newPolicy(multi)
	var bad, ended int32
	var cnt, roots int
	var sh, ex int32
	nodes := make([]int, 8)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		rr := r.Fork(uint64(g))
		go func(g int) {
			defer wg.Done()
			sum := 0
			for i := 0; i < rounds; i++ {
				switch rr.N(8) {
				case 0, 1:
					p.LockNNodes()
					x := cnt
					if rr.N(4) == 0 {
						runtime.Gosched()
					}
					cnt = x + 1
					if cnt != x+1 {
						atomic.AddInt32(&bad, 1)
					}
					if rr.N(3) == 0 { // as the build does
						p.LockNodes()
						for k := range nodes {
							nodes[k]++
						}
						p.UnlockNodes()
					}
					p.UnlockNNodes()
				case 2:
					p.LockNodes()
					if atomic.AddInt32(&ex, 1) != 1 || atomic.LoadInt32(&sh) != 0 {
						atomic.AddInt32(&bad, 1)
					}
					for k := range nodes {
						nodes[k]++
						if rr.N(8) == 0 {
							runtime.Gosched()
						}
					}
					atomic.AddInt32(&ex, -1)
					p.UnlockNodes()
				case 3, 4, 5, 6:
					p.LockSharedNodes()
					atomic.AddInt32(&sh, 1)
					if atomic.LoadInt32(&ex) != 0 {
						atomic.AddInt32(&bad, 1)
					}
					for k := range nodes {
						sum += nodes[k]
					}
					if rr.N(4) == 0 {
						runtime.Gosched()
					}
					atomic.AddInt32(&sh, -1)
					p.UnlockSharedNodes()
				case 7:
					p.LockRoots()
					x := roots
					if rr.N(4) == 0 {
						runtime.Gosched()
					}
					roots = x + 1
					p.UnlockRoots()
				}
			}
			atomic.AddInt32(&ended, int32(sum%2)) // keeps sum alive
		}(g)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	ok := true
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		ok = false
	}
	return M{"op": "storm", "bad": int(bad), "ended": ok}
}

func init() {
	cmds["locks"] = func(args []string) {
		fl, cm := common("locks")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		cm.out.FlushEach = true
		var hs [][]lockCall
		if *in != "" {
			f, err := os.Open(*in)
			must(err)
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var x [][]any
				must(json.Unmarshal(sc.Bytes(), &x))
				h := []lockCall{}
				for _, c := range x {
					h = append(h, lockCall{c[0].(string), int(c[1].(float64)), c[2].(string)})
				}
				hs = append(hs, h)
			}
		}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 13)
			var h []lockCall
			if hs != nil {
				h = hs[i]
			} else {
				n := 2 + r.N(5)
				for k := 10 + r.N(50); k > 0; k-- {
					h = append(h, lockCall{[]string{"lock", "lock", "unlock"}[r.N(3)], 1 + r.N(n), []string{"nn", "ex", "sh", "sh", "roots"}[r.N(5)]})
				}
			}
			cm.mark.Set(M{"case": i, "calls": h})
			for _, multi := range []bool{true, false} {
				cm.out.Put(M{"op": "cfg", "case": i, "multi": multi})
				ok := true
				cm.attempt(200*time.Second, func() {
					ok = lockHistory(newPolicy(multi), multi, h, func(m M) { cm.out.Put(m) })
				})
				if !ok {
					cm.out.Close()
					return
				}
			}
		}
		cm.out.Close()
	}
	cmds["storm"] = func(args []string) {
		fl, cm := common("storm")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 14)
			cm.mark.Set(M{"case": i})
			cm.out.Put(M{"op": "cfg", "case": i, "multi": true})
			cm.attempt(100*time.Second, func() { cm.out.Put(storm(true, r, 2+r.N(15), 500)) })
		}
		cm.out.Close()
	}
}
