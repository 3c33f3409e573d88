package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Builds with several workers whose interleaving is decided here, one lock call
// at a time. The policy given to the index is a wrapper around a real one that
// lets one worker run at once; the memory moves with every reallocation, old
// memory cannot be touched any more, nor can the current one by a worker that
// does not hold the node lock. Judged by spec/BuildTrace.tla.

type wk struct {
	id    int
	gid   int64
	ch    chan struct{}
	state string // ready, run, want, done
	want  string
	maps  int
	prio  int
}

type sched struct {
	mu      sync.Mutex
	real    interfaces.AnnoyIndexBuildPolicy
	byGid   map[int64]*wk
	ws      []*wk
	expect  int
	started bool
	running int
	loose   bool // two workers may be running: what they do cannot be told apart
	closed  bool
	picks   int
	held    []heldT
	rnd     *Rand
	mode    string // list, rand, pct, sticky
	list    []int
	change  map[int]bool
	last    *wk
	mapDice int
	put     func(M)
	mem     *arena
	abort   chan string
	steps   int
	active  bool
}

type heldT struct {
	w int
	k string
}

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	i := bytes.IndexByte(s, ' ')
	x, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return x
}

func conflict(a, b string) bool {
	switch a {
	case "sh":
		return b == "ex"
	case "ex":
		return b == "ex" || b == "sh"
	}
	return a == b
}

func (s *sched) admits(w *wk) bool {
	for _, h := range s.held {
		if conflict(w.want, h.k) {
			return false
		}
	}
	if w.want == "sh" { // who waits to move the nodes goes first
		for _, o := range s.ws {
			if o != w && o.state == "want" && o.want == "ex" {
				return false
			}
		}
	}
	return true
}

func (s *sched) holdsNode(w *wk) bool {
	for _, h := range s.held {
		if h.w == w.id && (h.k == "sh" || h.k == "ex") {
			return true
		}
	}
	return false
}

func (s *sched) runnable() []*wk {
	res := []*wk{}
	for _, w := range s.ws {
		if w.state == "ready" || w.state == "want" && s.admits(w) {
			res = append(res, w)
		}
	}
	return res
}

func (s *sched) choose(r []*wk) *wk {
	s.steps++
	switch s.mode {
	case "list":
		for len(s.list) > 0 {
			id := s.list[0]
			s.list = s.list[1:]
			for _, w := range r {
				if w.id == id {
					return w
				}
			}
		}
		return r[0]
	case "pct":
		if s.change[s.steps] && s.last != nil {
			s.last.prio = -s.steps
		}
		b := r[0]
		for _, w := range r {
			if w.prio > b.prio {
				b = w
			}
		}
		return b
	case "sticky":
		if s.rnd.N(4) != 0 {
			for _, w := range r {
				if w == s.last {
					return w
				}
			}
		}
	}
	return r[s.rnd.N(len(r))]
}

// dispatch lets the next worker run. With s.mu held.
func (s *sched) dispatch() {
	if s.closed || !s.started || s.running > 0 {
		return
	}
	r := s.runnable()
	if len(r) == 0 {
		waits := [][]any{}
		for _, w := range s.ws {
			if w.state == "want" {
				waits = append(waits, []any{w.id, w.want})
			}
		}
		if len(waits) > 0 {
			s.put(M{"op": "stuck", "waits": waits})
			s.end("stuck")
		}
		return
	}
	s.run(s.choose(r))
}

func (s *sched) run(w *wk) {
	if w.state == "want" {
		s.held = append(s.held, heldT{w.id, w.want})
		s.put(M{"op": "acq", "w": w.id, "k": w.want})
	}
	w.state = "run"
	s.running++
	s.picks++
	s.last = w
	s.mem.protect(s.loose || s.holdsNode(w))
	w.ch <- struct{}{}
}

func (s *sched) end(why string) {
	if s.closed {
		return
	}
	s.closed = true
	s.mem.protect(true)
	s.abort <- why
}

// segment notes what w did since it was let run. With s.mu held.
func (s *sched) segment(w *wk) {
	if s.loose {
		w.maps = 0
		return
	}
	wr := s.mem.changed()
	if w.maps > 0 || len(wr) > 0 {
		s.put(M{"op": "seg", "w": w.id, "maps": w.maps, "writes": wr})
	}
	w.maps = 0
}

// yield: w stops here until it is its turn (and has the lock that it wants).
func (s *sched) yield(w *wk, want string) {
	s.mu.Lock()
	s.segment(w)
	if want != "" {
		w.state, w.want = "want", want
	} else {
		w.state = "ready"
	}
	s.running--
	s.dispatch()
	s.mu.Unlock()
	<-w.ch
}

func (s *sched) me() *wk {
	g := gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.byGid[g]
}

func (s *sched) lock(k string, real func()) {
	if w := s.me(); w != nil {
		s.yield(w, k)
	}
	real()
}
func (s *sched) unlock(k string, real func()) {
	w := s.me()
	if w != nil {
		s.yield(w, "")
		s.mu.Lock()
		s.put(M{"op": "rel", "w": w.id, "k": k})
		for i, h := range s.held {
			if h.w == w.id && h.k == k {
				s.held = append(append([]heldT{}, s.held[:i]...), s.held[i+1:]...)
				break
			}
		}
		if !s.loose {
			s.mem.protect(s.holdsNode(w))
		}
		s.mu.Unlock()
	}
	real()
}

func (s *sched) LockNNodes()        { s.lock("nn", s.real.LockNNodes) }
func (s *sched) UnlockNNodes()      { s.unlock("nn", s.real.UnlockNNodes) }
func (s *sched) LockNodes()         { s.lock("ex", s.real.LockNodes) }
func (s *sched) UnlockNodes()       { s.unlock("ex", s.real.UnlockNodes) }
func (s *sched) LockSharedNodes()   { s.lock("sh", s.real.LockSharedNodes) }
func (s *sched) UnlockSharedNodes() { s.unlock("sh", s.real.UnlockSharedNodes) }
func (s *sched) LockRoots()         { s.lock("roots", s.real.LockRoots) }
func (s *sched) UnlockRoots()       { s.unlock("roots", s.real.UnlockRoots) }

type schedBuilder struct {
	s *sched
	b interfaces.AnnoyIndexBuilder
}

func (sb *schedBuilder) ThreadBuild(trees, worker int, _ interfaces.AnnoyIndexBuildPolicy) {
	s := sb.s
	w := &wk{id: worker, gid: gid(), ch: make(chan struct{}, 1), state: "ready"}
	s.mu.Lock()
	w.prio = s.rnd.N(1 << 20)
	s.byGid[w.gid] = w
	at := len(s.ws) // sorted by number
	for at > 0 && s.ws[at-1].id > w.id {
		at--
	}
	s.ws = append(s.ws[:at], append([]*wk{w}, s.ws[at:]...)...)
	if len(s.ws) >= s.expect {
		s.started = true
	}
	s.dispatch()
	s.mu.Unlock()
	<-w.ch
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		r := recover()
		s.mu.Lock()
		if r != nil {
			s.mem.protect(true)
			s.put(M{"op": "fault", "w": w.id, "loose": s.loose, "msg": fmt.Sprint(r)})
			s.end("fault")
		} else {
			s.segment(w)
			s.put(M{"op": "left", "w": w.id})
		}
		w.state = "done"
		delete(s.byGid, w.gid)
		s.running--
		s.dispatch()
		s.mu.Unlock()
	}()
	sb.b.ThreadBuild(trees, worker, s)
}

func (s *sched) Build(b interfaces.AnnoyIndexBuilder, q, w int) {
	s.mu.Lock()
	s.active = true
	s.mem.protect(true)
	s.mem.snapshot()
	s.mu.Unlock()
	stop := make(chan struct{})
	go func() { // someone waits for something that is not known here
		last, same := -1, 0
		for {
			select {
			case <-stop:
				return
			case <-time.After(250 * time.Millisecond):
			}
			s.mu.Lock()
			if s.picks == last {
				same++
			} else {
				last, same = s.picks, 0
			}
			if same >= 6 && !s.closed {
				s.loose = true
				s.mem.protect(true)
				if !s.started {
					s.started = true
					s.dispatch()
				} else if r := s.runnable(); len(r) > 0 {
					s.run(s.choose(r))
				}
				same = 0
			}
			s.mu.Unlock()
		}
	}()
	s.real.Build(&schedBuilder{s, b}, q, w)
	close(stop)
	s.mu.Lock()
	s.active = false
	s.mem.protect(true)
	s.mu.Unlock()
}

// ---------------------------------------------------------------- memory

// arena is a build allocator: each reallocation moves, and takes the old memory
// out of reach.
type arena struct {
	s        *sched
	cur      []byte
	old      [][]byte
	snap     []byte
	size     int
	nodeSize int
	open     bool
}

func (a *arena) Free() {
	for _, o := range append(a.old, a.cur) {
		if o != nil {
			syscall.Munmap(o)
		}
	}
	a.cur, a.old, a.snap, a.size = nil, nil, nil, 0
}

func (a *arena) Reallocate(byteSize int) unsafe.Pointer {
	var w *wk
	s := a.s
	if s != nil && s.active {
		if w = s.me(); w != nil && s.mode != "list" && s.rnd.Bool() {
			s.yield(w, "")
		}
	}
	if s != nil {
		s.mu.Lock()
		defer s.mu.Unlock()
		if w != nil {
			s.segment(w)
		}
	}
	if byteSize < a.size {
		byteSize = a.size
	}
	n := (byteSize + 4095) &^ 4095
	if n == 0 {
		n = 4096
	}
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	if a.cur != nil {
		a.protect(true)
		copy(m, a.cur[:a.size])
		must(syscall.Mprotect(a.cur, syscall.PROT_NONE))
		a.old = append(a.old, a.cur)
	}
	a.cur, a.size, a.open = m, byteSize, true
	if s != nil && s.active {
		a.snapshot()
		id := -1
		if w != nil {
			id = w.id
			a.protect(s.loose || s.holdsNode(w))
		}
		s.put(M{"op": "move", "w": id, "nodes": byteSize / a.nodeSize})
	}
	return unsafe.Pointer(unsafe.SliceData(m))
}

func (a *arena) protect(open bool) {
	if a == nil || a.cur == nil || a.open == open {
		return
	}
	p := syscall.PROT_NONE
	if open {
		p = syscall.PROT_READ | syscall.PROT_WRITE
	}
	must(syscall.Mprotect(a.cur, p))
	a.open = open
}

func (a *arena) snapshot() {
	if a != nil && a.cur != nil {
		a.snap = append(a.snap[:0], a.cur[:a.size]...)
	}
}

// changed gives the nodes that changed since the last time.
func (a *arena) changed() []int {
	res := []int{}
	if a == nil || !a.open || a.cur == nil || bytes.Equal(a.snap, a.cur[:a.size]) {
		return res
	}
	for x := 0; x*a.nodeSize < a.size; x++ {
		lo, hi := x*a.nodeSize, (x+1)*a.nodeSize
		if hi > a.size {
			hi = a.size
		}
		if !bytes.Equal(a.snap[lo:hi], a.cur[lo:hi]) {
			res = append(res, x)
		}
	}
	a.snapshot()
	return res
}

type anyDist[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	interfaces.Distance[TV, TIX]
}

// schedDist tells of the nodes that are looked up.
type schedDist[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	anyDist[TV, TIX]
	s *sched
}

func (d *schedDist[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, itemIndex TIX) interfaces.Node[TV, TIX] {
	s := d.s
	if s.active {
		a := s.mem
		p := uintptr(mem)
		if a.cur != nil && p == uintptr(unsafe.Pointer(unsafe.SliceData(a.cur))) {
			if w := s.me(); w != nil {
				s.mu.Lock()
				w.maps++
				dice := s.mapDice > 0 && s.rnd.N(s.mapDice) == 0
				s.mu.Unlock()
				if dice {
					s.yield(w, "")
				}
			}
		}
	}
	return d.anyDist.MapNodeToMemory(mem, itemIndex)
}

func wrapFor(c Cfg, s *sched) any {
	switch c.TV + c.TIX {
	case "f32u32":
		return func(d interfaces.Distance[float32, uint32]) interfaces.Distance[float32, uint32] {
			return &schedDist[float32, uint32]{d, s}
		}
	case "f64u32":
		return func(d interfaces.Distance[float64, uint32]) interfaces.Distance[float64, uint32] {
			return &schedDist[float64, uint32]{d, s}
		}
	case "f32u64":
		return func(d interfaces.Distance[float32, uint64]) interfaces.Distance[float32, uint64] {
			return &schedDist[float32, uint64]{d, s}
		}
	}
	return func(d interfaces.Distance[float64, uint64]) interfaces.Distance[float64, uint64] {
		return &schedDist[float64, uint64]{d, s}
	}
}

// schedBuild builds under s. It says whether the build came to its end.
func schedBuild(cm *Common, c Cfg, items map[int][]float64, order []int, q, w int, s *sched, path string) bool {
	s.real = newPolicy(c.Multi)
	s.byGid = map[int64]*wk{}
	s.abort = make(chan string, 4)
	s.expect = w
	if !c.Multi || w == 0 {
		s.expect = 1
	} else if w == -1 {
		s.expect = runtime.NumCPU()
	}
	l := layoutOf(c)
	s.mem = &arena{s: s, nodeSize: l.size}
	evs := []M{}
	s.put = func(m M) { evs = append(evs, m) }
	x := Make(c, &Shared{pol: s, alloc: s.mem, wrapD: wrapFor(c, s)})
	fill(x, items, order)
	span := spanOf(items)
	evs = append(evs, M{"op": "begin", "n": span, "nodes": s.mem.size / l.size, "workers": s.expect})
	done := make(chan struct{})
	go func() {
		x.Build(q, w)
		s.mu.Lock()
		if !s.closed {
			s.closed = true
			close(done)
		}
		s.mu.Unlock()
	}()
	ended := true
	select {
	case <-done:
	case <-s.abort:
		ended = false
	}
	s.mu.Lock()
	for _, e := range evs {
		cm.out.Put(e)
	}
	s.put = func(M) {}
	s.mu.Unlock()
	if !ended {
		return false // its goroutines are left where they are
	}
	cm.out.Put(M{"op": "built", "loose": s.loose})
	if err := x.Save(path); err != nil {
		if q != -1 || len(items) > 0 {
			panic("save failed: " + err.Error())
		}
	} else {
		f, err := readFile(c, path)
		need(err)
		ev := f.describe(items, span, q, len(items) <= 70)
		ev["w"] = s.expect
		cm.out.Put(ev)
	}
	x.Close()
	os.Remove(path)
	return true
}

type schedIn struct {
	Shape   string `json:"shape"`
	Workers int    `json:"workers"`
	Trees   int    `json:"trees"`
	W       []int  `json:"w"`
}

func init() {
	// sched -in FILE: schedules that TLC made; else random ones.
	cmds["sched"] = func(args []string) {
		fl, cm := common("sched")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var ins []schedIn
		if *in != "" {
			f, err := os.Open(*in)
			must(err)
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var x schedIn
				must(json.Unmarshal(sc.Bytes(), &x))
				ins = append(ins, x)
			}
		}
		// verbose builds print
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		must(err)
		os.Stdout = null
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 11)
			var c Cfg
			var items map[int][]float64
			var order []int
			var q, w int
			fam := "two clusters"
			s := &sched{rnd: r.Fork(3)}
			if ins != nil {
				x := ins[i]
				c = genCfg(r)
				c.Bld, c.Multi, c.Dist, c.TV, c.TIX, c.Dim, c.Hint = true, true, "ang", "f32", "u32", 2, 0
				c.Bld = false
				q, w = x.Trees*x.Workers, x.Workers
				n := 3
				if x.Shape == "split" {
					n = 6
				}
				items = map[int][]float64{}
				for k := 0; k < n; k++ {
					sign := float64(1 - 2*(k%2))
					items[k] = []float64{sign, float64(float32(0.01 * r.F()))}
					order = append(order, k)
				}
				s.mode, s.list = "list", x.W
			} else {
				c, items, order, q, w, fam = forestCase(r, i, cm.tier, "")
				if len(items) > 90 {
					order = order[:90]
					m := map[int][]float64{}
					for _, id := range order {
						m[id] = items[id]
					}
					items = m
				}
				c.Multi = r.N(12) != 0
				w = []int{2, 2, 3, 3, 4, 5, 8, 1, 0, -1}[r.N(10)]
				s.mode = []string{"rand", "pct", "pct", "sticky"}[r.N(4)]
				s.mapDice = []int{0, 0, 40, 7}[r.N(4)]
				if len(items) > 40 {
					s.mapDice *= 8
				}
				s.change = map[int]bool{}
				for k := r.N(6); k > 0; k-- {
					s.change[1+r.N(60*(q+3))] = true
				}
			}
			c.Verbose = i%8 == 5
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam, "mode": s.mode})
			cm.attempt(120*time.Second, func() {
				schedBuild(cm, c, items, order, q, w, s, filepath.Join(cm.dir, fmt.Sprintf("s%d.ann", i)))
			})
		}
		cm.out.Close()
	}
	// Builds with nobody in control: the race detector watches (-moving=false),
	// or the memory moves and vanishes.
	cmds["stress"] = func(args []string) {
		fl, cm := common("stress")
		moving := fl.Bool("moving", true, "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 12)
			c, items, order, q, w, fam := forestCase(r, i, cm.tier, "")
			c.Multi = true
			w = []int{2, 3, 4, 5, 8, 8, 16, -1}[r.N(8)]
			if q >= 0 && q < w {
				q = w + r.N(w)
			}
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam})
			cm.attempt(120*time.Second, func() {
				path := filepath.Join(cm.dir, fmt.Sprintf("t%d.ann", i))
				p := &shaker{in: policy.MultiWorker(), often: r.N(60)}
				sh := &Shared{pol: p}
				if *moving {
					sh.alloc = &arena{nodeSize: layoutOf(c).size}
				}
				x := Make(c, sh)
				fill(x, items, order)
				x.Build(q, w)
				if err := x.Save(path); err != nil {
					if q != -1 || len(items) > 0 {
						panic("save failed: " + err.Error())
					}
				} else {
					f, err := readFile(c, path)
					need(err)
					ev := f.describe(items, spanOf(items), q, len(items) <= 70)
					ev["w"] = w
					if w == -1 {
						ev["w"] = runtime.NumCPU()
					}
					cm.out.Put(ev)
				}
				x.Close()
				os.Remove(path)
			})
		}
		cm.out.Close()
	}
}

// shaker disturbs the schedule without synchronizing anyone (which would hide
// races): its dice are the clock.
type shaker struct {
	in    interfaces.AnnoyIndexBuildPolicy
	often int
}

func (p *shaker) shake() {
	x := uint64(time.Now().UnixNano())
	x ^= x >> 13
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	if int(x%100) < p.often {
		runtime.Gosched()
	} else if int(x>>20%1000) < p.often {
		time.Sleep(time.Duration(x>>40%80) * time.Microsecond)
	}
}

type shakenBuilder struct {
	p *shaker
	b interfaces.AnnoyIndexBuilder
}

func (b *shakenBuilder) ThreadBuild(trees, worker int, _ interfaces.AnnoyIndexBuildPolicy) {
	b.b.ThreadBuild(trees, worker, b.p)
}
func (p *shaker) Build(b interfaces.AnnoyIndexBuilder, q, w int) {
	p.in.Build(&shakenBuilder{p, b}, q, w)
}
func (p *shaker) LockNNodes()        { p.shake(); p.in.LockNNodes() }
func (p *shaker) UnlockNNodes()      { p.in.UnlockNNodes(); p.shake() }
func (p *shaker) LockNodes()         { p.shake(); p.in.LockNodes() }
func (p *shaker) UnlockNodes()       { p.in.UnlockNodes(); p.shake() }
func (p *shaker) LockSharedNodes()   { p.shake(); p.in.LockSharedNodes() }
func (p *shaker) UnlockSharedNodes() { p.in.UnlockSharedNodes(); p.shake() }
func (p *shaker) LockRoots()         { p.shake(); p.in.LockRoots() }
func (p *shaker) UnlockRoots()       { p.in.UnlockRoots(); p.shake() }
