package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Builds, saves, and reads the file back by its layout. Checked against
// spec/ForestTrace.tla.

// data makes a set of vectors of some family; generic: in general position.
func data(r *Rand, n, dim int, family string) [][]float64 {
	f32 := func(x float64) float64 { return float64(float32(x)) }
	res := make([][]float64, n)
	base := make([]float64, dim)
	for k := range base {
		base[k] = f32(r.Norm())
	}
	var pool [][]float64
	for i := range res {
		v := make([]float64, dim)
		for k := range v {
			v[k] = f32(r.Norm())
		}
		switch family {
		case "same":
			copy(v, base)
		case "zero":
			for k := range v {
				v[k] = 0
			}
		case "few":
			if len(pool) < 3 {
				pool = append(pool, v)
			}
			v = append([]float64{}, pool[r.N(len(pool))]...)
		case "collinear":
			s := f32(float64(i+1) / 4)
			if r.Bool() {
				s = -s
			}
			for k := range v {
				v[k] = f32(base[k] * s)
			}
		case "axis":
			a := r.N(dim)
			for k := range v {
				v[k] = 0
			}
			v[a] = float64(1 + r.N(4))
			if r.Bool() {
				v[a] = -v[a]
			}
		case "cluster":
			for k := range v {
				v[k] = f32(base[k] + v[k]*1e-3)
			}
		case "tight":
			for k := range v {
				v[k] = f32(base[k] + v[k]*3e-5)
			}
		case "somezero":
			if r.N(3) == 0 {
				for k := range v {
					v[k] = 0
				}
			}
		case "onehot": // all but one the same
			if i != n/2 {
				copy(v, base)
			}
		case "positive":
			for k := range v {
				v[k] = math.Abs(v[k])
			}
		case "scales":
			s := math.Pow(4, float64(r.N(9)-4))
			for k := range v {
				v[k] = f32(v[k] * s)
			}
		}
		res[i] = v
	}
	return res
}

var families = []string{"generic", "generic", "same", "zero", "few", "collinear", "axis", "cluster", "somezero", "onehot", "positive", "scales", "tight"}

// rescale makes all items longer or shorter, which is exact.
func rescale(r *Rand, items map[int][]float64) {
	s := []float64{1, 1, 1, 1, 1.0 / (1 << 18), 1 << 18}[r.N(6)]
	for _, v := range items {
		for k := range v {
			v[k] *= s
		}
	}
}

// spread gives n different ids.
func spread(r *Rand, n int, kind string) []int {
	ids := []int{}
	switch kind {
	case "dense":
		for i := 0; i < n; i++ {
			ids = append(ids, i)
		}
	case "reverse":
		for i := n - 1; i >= 0; i-- {
			ids = append(ids, i)
		}
	case "gaps":
		at := r.N(3)
		for i := 0; i < n; i++ {
			ids = append(ids, at)
			at += 1 + r.N(3)
		}
	case "far":
		at := []int{65530, 65536 - n/2, 70000, 1<<17 - 2}[r.N(4)]
		for i := 0; i < n; i++ {
			ids = append(ids, at)
			at += 1 + r.N(3)
		}
	case "sparse":
		at := r.N(40)
		for i := 0; i < n; i++ {
			ids = append(ids, at)
			at += 1 + r.N(30)
		}
	case "shuffle":
		for i := 0; i < n; i++ {
			ids = append(ids, i)
		}
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	return ids
}

var spreads = []string{"dense", "dense", "reverse", "gaps", "sparse", "shuffle"}

// probe is a policy around a real one that notes what the workers are asked to
// do, and disturbs their schedule.
type probe struct {
	in     interfaces.AnnoyIndexBuildPolicy
	jitter int
	mu     sync.Mutex
	calls  [][2]int
	active int32
	late   int32
	rnd    uint64
	slow   time.Duration
}

type probeBuilder struct {
	p *probe
	b interfaces.AnnoyIndexBuilder
}

func (pb *probeBuilder) ThreadBuild(trees, worker int, _ interfaces.AnnoyIndexBuildPolicy) {
	atomic.AddInt32(&pb.p.active, 1)
	pb.p.mu.Lock()
	pb.p.calls = append(pb.p.calls, [2]int{worker, trees})
	pb.p.mu.Unlock()
	if pb.b != nil {
		pb.b.ThreadBuild(trees, worker, pb.p)
	}
	if pb.p.slow > 0 {
		time.Sleep(pb.p.slow * time.Duration(1+worker%3))
	}
	atomic.AddInt32(&pb.p.active, -1)
}

func (p *probe) Build(b interfaces.AnnoyIndexBuilder, q, w int) {
	p.in.Build(&probeBuilder{p, b}, q, w)
	p.late = atomic.LoadInt32(&p.active)
}
func (p *probe) shake() {
	if p.jitter == 0 {
		return
	}
	x := atomic.AddUint64(&p.rnd, 0x9E3779B97F4A7C15)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	if int(x%100) < p.jitter {
		runtime.Gosched()
	} else if int(x>>20%1000) < p.jitter {
		time.Sleep(time.Duration(x>>40%50) * time.Microsecond)
	}
}
func (p *probe) LockNNodes()        { p.shake(); p.in.LockNNodes() }
func (p *probe) UnlockNNodes()      { p.in.UnlockNNodes(); p.shake() }
func (p *probe) LockNodes()         { p.shake(); p.in.LockNodes() }
func (p *probe) UnlockNodes()       { p.in.UnlockNodes(); p.shake() }
func (p *probe) LockSharedNodes()   { p.shake(); p.in.LockSharedNodes() }
func (p *probe) UnlockSharedNodes() { p.in.UnlockSharedNodes(); p.shake() }
func (p *probe) LockRoots()         { p.shake(); p.in.LockRoots() }
func (p *probe) UnlockRoots()       { p.in.UnlockRoots(); p.shake() }

func newProbe(multi bool, jitter int, seed uint64) *probe {
	p := &probe{jitter: jitter, rnd: seed}
	if multi {
		p.in = policy.MultiWorker()
	} else {
		p.in = policy.SingleWorker()
	}
	return p
}

// Built is one built and saved index.
type Built struct {
	c     Cfg
	items map[int][]float64
	order []int
	span  int
	q, w  int
	file  *File
	ix    Ix
	p     *probe
}

// fill adds the items in order. Some are added with another vector first, which
// must leave no trace.
func fill(x Ix, items map[int][]float64, order []int) {
	for k, id := range order {
		if (id*7+k+len(order))%4 == 0 {
			old := make([]float64, len(items[id]))
			for j, y := range items[id] {
				old[len(old)-1-j] = float64(float32(1 - 2.5*y))
				if math.IsInf(old[len(old)-1-j], 0) || y != y {
					old[len(old)-1-j] = 1
				}
			}
			x.Add(uint64(id), old)
		}
		x.Add(uint64(id), items[id])
	}
}

func spanOf(items map[int][]float64) int {
	s := 0
	for id := range items {
		if id+1 > s {
			s = id + 1
		}
	}
	return s
}

// forestCase chooses what to build in case i.
func forestCase(r *Rand, i int, tier, focus string) (c Cfg, items map[int][]float64, order []int, q, w int, fam string) {
	c = genCfg(r)
	c.Bld = false
	if focus == "C18" {
		c.Dist = "dot"
	}
	c.Dim = []int{1, 2, 2, 3, 3, 4, 8, 12, 20, 40}[r.N(10)]
	l := layoutOf(c)
	n := 0
	switch r.N(8) {
	case 0:
		n = r.N(4)
	case 1:
		n = l.K
	case 2:
		n = l.K + 1
	case 3:
		n = l.K - 1 + r.N(4)
	case 4:
		n = 2*l.K + r.N(5)
	case 5, 6:
		n = 5 + r.N(60)
	case 7:
		n = 60 + r.N(160)
	}
	if n < 0 {
		n = 0
	}
	fam = families[r.N(len(families))]
	sp := spreads[r.N(len(spreads))]
	if focus == "C11" {
		fam, sp = "generic", []string{"dense", "gaps", "shuffle"}[r.N(3)]
		if n < 3*l.K+40 {
			n = 3*l.K + 40
		}
		if c.Dim < 3 {
			c.Dim += 3
		}
	}
	order = spread(r, n, sp)
	vs := data(r, n, c.Dim, fam)
	items = map[int][]float64{}
	for k, id := range order {
		items[id] = vs[k]
	}
	q = []int{1, 1, 2, 3, 4, 5, 7, 10, -1}[r.N(9)]
	w = []int{1, 1, 2, 3, 4, 5, 8, 0, -1}[r.N(9)]
	if n > 100 && q > 5 {
		q = 5
	}
	if q == -1 && spanOf(items) > 4*n+10 {
		q = 2
	}
	if focus == "C11" && q == -1 {
		q = 6
	}
	if i%61 == 17 { // larger ones
		switch t := r.N(4); {
		case focus == "C11":
			n = 3*l.K + 40 + r.N(60)
			q, w = 30+r.N(60), []int{7, 16, 33, 64, 100}[r.N(5)]
		case t == 0:
			n = 300 + r.N(1200)
			q, w = 1+r.N(3), []int{1, 2, 3}[r.N(3)]
		case t == 1:
			n = 10 + r.N(50)
			q, w = 30+r.N(100), []int{1, 7, 16, 33, 64, 100}[r.N(6)]
		case t == 2:
			n = 20 + r.N(100)
			c.Dim = []int{63, 64, 65, 127, 200, 300}[r.N(6)]
			q, w = 1+r.N(4), 1+r.N(4)
		default:
			n = 200 + r.N(300)
			c.Dim = 1 + r.N(12)
			q, w = 1+r.N(12), 1+r.N(12)
		}
		order = spread(r, n, sp)
		vs = data(r, n, c.Dim, fam)
		items = map[int][]float64{}
		for k, id := range order {
			items[id] = vs[k]
		}
	}
	if r.N(40) == 0 && n <= 70 && q != -1 && focus != "C11" { // large ids
		if c.Dim > 8 {
			c.Dim = 3
			vs = data(r, n, c.Dim, fam)
		}
		order = spread(r, n, "far")
		items = map[int][]float64{}
		for k, id := range order {
			items[id] = vs[k]
		}
	}
	rescale(r, items)
	return
}

func buildOne(c Cfg, items map[int][]float64, order []int, q, w, jitter int, jseed uint64, path string) *Built {
	p := newProbe(c.Multi, jitter, jseed)
	x := Make(c, &Shared{pol: p})
	fill(x, items, order)
	x.Build(q, w)
	b := &Built{c: c, items: items, order: order, span: spanOf(items), q: q, w: w, ix: x, p: p}
	if path != "" {
		if err := x.Save(path); err != nil {
			if q != -1 || len(items) > 0 {
				panic("save failed: " + err.Error())
			}
			return b
		}
		f, err := readFile(c, path)
		need(err)
		b.file = f
	}
	return b
}

func sharesEvent(p *probe, q, w int, multi bool) M {
	calls := p.calls
	if calls == nil {
		calls = [][2]int{}
	}
	return M{"op": "shares", "q": q, "w": w, "cpu": runtime.NumCPU(), "calls": calls, "late": int(p.late), "multi": multi}
}

type fakeBuilder struct{ n int32 }

func (f *fakeBuilder) ThreadBuild(trees, worker int, _ interfaces.AnnoyIndexBuildPolicy) {
	atomic.AddInt32(&f.n, 1)
}

func init() {
	// Builds of all kinds.
	cmds["forest"] = func(args []string) {
		fl, cm := common("forest")
		focus := fl.String("focus", "", "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 2)
			c, items, order, q, w, fam := forestCase(r, i, cm.tier, *focus)
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam})
			cm.attempt(120*time.Second, func() {
				path := filepath.Join(cm.dir, fmt.Sprintf("f%d.ann", i))
				b := buildOne(c, items, order, q, w, r.N(40), r.U64(), path)
				if q != -1 || c.Multi {
					cm.out.Put(sharesEvent(b.p, q, w, c.Multi))
				}
				if b.file != nil {
					ev := b.file.describe(items, b.span, q, len(items) <= 70)
					ww := len(b.p.calls)
					ev["w"] = ww
					cm.out.Put(ev)
				}
				b.ix.Close()
				os.Remove(path)
			})
		}
		cm.out.Close()
	}
	// The policies' division of work alone: case i is (q, w).
	cmds["shares"] = func(args []string) {
		fl, cm := common("shares")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			cm.mark.Set(M{"case": i})
			cm.out.Put(M{"op": "cfg", "case": i})
			lim := 40
			for q := 0; q <= lim; q++ {
				w := i - 1 // -1, 0, 1, ...
				for _, multi := range []bool{true, false} {
					p := newProbe(multi, 0, 0)
					if q%16 == 3 {
						p.slow = 300 * time.Microsecond
					}
					watch(60*time.Second, func() { p.Build(nil, q, w) })
					time.Sleep(0)
					cm.out.Put(sharesEvent(p, q, w, multi))
				}
			}
			for _, q := range []int{-1, 97, 1000, 1 << 20, 1<<30 + 7} {
				p := newProbe(true, 0, 0)
				watch(60*time.Second, func() { p.Build(nil, q, i-1) })
				cm.out.Put(sharesEvent(p, q, i-1, true))
			}
		}
		cm.out.Close()
	}
	// The same build again and again; different trees.
	cmds["repeat"] = func(args []string) {
		fl, cm := common("repeat")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 3)
			focus := "C11"
			if i%4 == 3 {
				focus = ""
			}
			c, items, order, q, w, fam := forestCase(r, i, cm.tier, focus)
			if q == -1 {
				q = 4
			}
			c.Seed = uint64(r.N(1000))
			if r.N(4) == 0 {
				c.Seed = r.U64() & 0xffffffff
			}
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam})
			cm.attempt(200*time.Second, func() {
				files, hashes := []string{}, [][]string{}
				note := func(b *Built, qq int) {
					files = append(files, hash(b.file.data))
					hashes = append(hashes, b.file.treeHashes(b.span, qq))
				}
				for k := 0; k < 3; k++ {
					old := runtime.GOMAXPROCS([]int{1, 4, 8}[(k+i)%3])
					path := filepath.Join(cm.dir, fmt.Sprintf("r%d-%d.ann", i, k))
					b := buildOne(c, items, order, q, w, []int{0, 30, 90}[k], r.U64(), path)
					note(b, q)
					if k > 0 { // used again after closing
						b.ix.Close()
						if k == 2 { // with something else in between
							fill(b.ix, map[int][]float64{0: data(r, 1, c.Dim, "generic")[0], 3: data(r, 1, c.Dim, "generic")[0]}, []int{3, 0})
							b.ix.Build(1, 1)
							b.ix.Close()
						}
						fill(b.ix, items, order)
						b.ix.Build(q, w)
						need(b.ix.Save(path))
						f, err := readFile(c, path)
						need(err)
						b.file = f
						note(b, q)
					}
					b.ix.Close()
					os.Remove(path)
					runtime.GOMAXPROCS(old)
				}
				single := !c.Multi || w == 1 || w == 0
				cm.out.Put(M{"op": "repeat", "files": files, "hashes": hashes, "single": single, "q": q,
					"generic": focus == "C11", "w": w})
			})
		}
		cm.out.Close()
	}
}
