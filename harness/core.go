// Package main drives the real goannoy code and records what it does as traces
// that TLC checks against the specifications in ../spec. Only goannoy's public
// API is used, so that it does not depend on how the code is written.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	gosort "github.com/mariotoffia/goannoy/sort"
)

// ---------------------------------------------------------------- small things

type M map[string]any

// Rand is the harness' own generator (splitmix64), independent of goannoy.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int { return int(r.U64() % uint64(n)) }
func (r *Rand) F() float64  { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Norm() float64 {
	for {
		u, v := 2*r.F()-1, 2*r.F()-1
		s := u*u + v*v
		if s > 0 && s < 1 {
			return u * math.Sqrt(-2*math.Log(s)/s)
		}
	}
}
func (r *Rand) Bool() bool { return r.U64()&1 == 1 }
func (r *Rand) Fork(tag uint64) *Rand {
	return NewRand(r.U64() ^ tag*0xD6E8FEB86659FD93)
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}
func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// Out writes one JSON object per line, flushing each line (so that a trace is
// complete up to the moment at which the process is killed).
type Out struct {
	f *os.File
	w *bufio.Writer
	n int
	// FlushEach line: on for traces of calls that may kill the process.
	FlushEach bool
}

func NewOut(path string) *Out {
	f, err := os.Create(path)
	must(err)
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<16)}
}
func (o *Out) Put(m any) {
	b, err := json.Marshal(m)
	must(err)
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.n++
	if o.FlushEach {
		o.w.Flush()
	}
}
func (o *Out) Flush() { o.w.Flush() }
func (o *Out) Close() { o.w.Flush(); o.f.Close() }

// ---------------------------------------------------------------- guarded calls

// guard calls f and classifies how it ended: "ok", "err" (an error was
// returned), "refused" (a panic that reports something) or "fault" (the panic is
// an invalid memory access or another sign that the code ran off its rails).
func guard(f func() error) (out, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			out = "refused"
			if re, ok := r.(runtime.Error); ok {
				s := re.Error()
				if strings.Contains(s, "invalid memory address") ||
					strings.Contains(s, "unexpected fault") ||
					strings.Contains(s, "nil pointer") ||
					strings.Contains(s, "divide by zero") {
					out = "fault"
				}
			}
		}
	}()
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	if err := f(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

// watch ends the process with status 97 if f takes longer than d: the caller
// (check.py) turns this into a "hang" outcome of the call that was marked last.
func watch(d time.Duration, f func()) {
	t := time.AfterFunc(d, func() {
		fmt.Fprintln(os.Stderr, "harness: hang")
		os.Exit(97)
	})
	f()
	t.Stop()
}

// Marker is a file holding what is being tried now, so that check.py knows
// what killed the process.
type Marker struct{ f *os.File }

func NewMarker(path string) *Marker {
	f, err := os.Create(path)
	must(err)
	return &Marker{f}
}
func (m *Marker) Set(v any) {
	b, _ := json.Marshal(v)
	b = append(b, '\n')
	buf := make([]byte, 4096)
	for i := range buf {
		buf[i] = ' '
	}
	if len(b) > 4096 {
		b = append(b[:4000], '\n')
	}
	copy(buf, b)
	m.f.WriteAt(buf, 0)
}

// ---------------------------------------------------------------- configurations

// Cfg is how an index is made.
type Cfg struct {
	TV     string `json:"tv"`  // f32, f64
	TIX    string `json:"tix"` // u32, u64
	Dist   string `json:"dist"`
	Dim    int    `json:"dim"`
	Hint   int    `json:"hint"`
	Multi  bool   `json:"multi"`  // multi-worker policy
	Loader string `json:"loader"` // mmap, gc
	Seed   uint64 `json:"seed"`   // of the index' generator; 0 = default
	Bld    bool   `json:"bld"`    // through the builder package
	Go     bool   `json:"go,omitempty"`
	// Verbose indexes print what they do.
	Verbose bool `json:"verbose,omitempty"`
	// Sorter: 0 the default one, else one made of other functions of the sort package.
	Sorter int `json:"sorter,omitempty"`
}

func (c Cfg) tvSize() int {
	if c.TV == "f64" {
		return 8
	}
	return 4
}
func (c Cfg) tixSize() int {
	if c.TIX == "u64" {
		return 8
	}
	return 4
}

// Ix is an index with its types erased.
type Ix interface {
	Dim() int
	Get(id uint64) []float64
	Add(id uint64, v []float64)
	Build(q, w int)
	Save(p string) error
	Load(p string) error
	Close() error
	Ctx() any
	Dist(i, j uint64) float64
	ByVec(v []float64, k, budget int, ctx any) ([]uint64, []float64)
	ByItem(id uint64, k, budget int, ctx any) ([]uint64, []float64)
	// Ask searches (id < 0: for v) and gives a function that reads the answer,
	// also later on.
	Ask(v []float64, id int, k, budget int, ctx any) func() ([]uint64, []float64)
	// Reg asks the loader for path p: known (the loader is reachable), open, size.
	Reg(p string) (bool, bool, int64)
	NodeSize() int
	MaxChildren() int
	Round(x float64) float64 // to the index' vector type
}

type ixT[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	x      interfaces.AnnoyIndex[TV, TIX]
	d      interfaces.Distance[TV, TIX]
	loader interfaces.IndexAllocator
}

func (t *ixT[TV, TIX]) Dim() int { return int(t.x.VectorLength()) }
func (t *ixT[TV, TIX]) Get(id uint64) []float64 {
	v := t.x.GetItem(TIX(id))
	r := make([]float64, len(v))
	for i := range v {
		r[i] = float64(v[i])
	}
	return r
}
func conv[TV interfaces.VectorType](v []float64) []TV {
	// Sometimes something else lies behind the end of the slice.
	more := 0
	if len(v) > 0 && math.Float64bits(v[0])>>45&1 == 1 {
		more = 3
	}
	r := make([]TV, len(v)+more)
	for i := range r {
		r[i] = TV(123.25)
	}
	for i := range v {
		r[i] = TV(v[i])
	}
	return r[:len(v)]
}
func (t *ixT[TV, TIX]) Add(id uint64, v []float64) {
	c := conv[TV](v)
	t.x.AddItem(TIX(id), c)
	for i := range c { // the caller's slice is the caller's
		c[i] = TV(-77.5)
	}
}
func (t *ixT[TV, TIX]) Build(q, w int)      { t.x.Build(q, w) }
func (t *ixT[TV, TIX]) Save(p string) error { return t.x.Save(p) }
func (t *ixT[TV, TIX]) Load(p string) error { return t.x.Load(p) }
func (t *ixT[TV, TIX]) Close() error        { return t.x.Close() }
func (t *ixT[TV, TIX]) Ctx() any            { return t.x.CreateContext() }
func (t *ixT[TV, TIX]) Dist(i, j uint64) float64 {
	return float64(t.x.GetDistance(TIX(i), TIX(j)))
}
func unconv[TV interfaces.VectorType, TIX interfaces.IndexTypes](a []TIX, b []TV) ([]uint64, []float64) {
	ra := make([]uint64, len(a))
	rb := make([]float64, len(b))
	for i := range a {
		ra[i] = uint64(a[i])
	}
	for i := range b {
		rb[i] = float64(b[i])
	}
	return ra, rb
}
func (t *ixT[TV, TIX]) ByVec(v []float64, k, budget int, ctx any) ([]uint64, []float64) {
	c := conv[TV](v)
	a, b := t.x.GetNnsByVector(c, k, budget, ctx)
	for i := range c {
		if c[i] != TV(v[i]) && c[i] == c[i] {
			panic(fmt.Sprintf("harness-observed: the query vector was changed at %d", i))
		}
	}
	return unconv(a, b)
}
func (t *ixT[TV, TIX]) ByItem(id uint64, k, budget int, ctx any) ([]uint64, []float64) {
	a, b := t.x.GetNnsByItem(TIX(id), k, budget, ctx)
	return unconv(a, b)
}
func (t *ixT[TV, TIX]) Ask(v []float64, id int, k, budget int, ctx any) func() ([]uint64, []float64) {
	var a []TIX
	var b []TV
	if id >= 0 {
		a, b = t.x.GetNnsByItem(TIX(id), k, budget, ctx)
	} else {
		c := conv[TV](v)
		a, b = t.x.GetNnsByVector(c, k, budget, ctx)
		for i := range c {
			if c[i] != TV(v[i]) && c[i] == c[i] {
				panic(fmt.Sprintf("harness-observed: the query vector was changed at %d", i))
			}
		}
	}
	return func() ([]uint64, []float64) { return unconv(a, b) }
}
func (t *ixT[TV, TIX]) Reg(p string) (bool, bool, int64) {
	if t.loader == nil {
		return false, false, 0
	}
	ai, ok := t.loader.Get(p)
	if !ok || ai == nil {
		return true, ok, -1
	}
	return true, ok, ai.Size()
}
func (t *ixT[TV, TIX]) NodeSize() int           { return int(t.d.NodeSize()) }
func (t *ixT[TV, TIX]) MaxChildren() int        { return int(t.d.MaxNumChildren()) }
func (t *ixT[TV, TIX]) Round(x float64) float64 { return float64(TV(x)) }

// Shared is what several indexes may have in common.
type Shared struct {
	loader interfaces.IndexAllocator
	pol    interfaces.AnnoyIndexBuildPolicy
	rnd    any
	bld    any
	dist   any
	alloc  interfaces.BuildIndexAllocator
	wrapD  any // func(interfaces.Distance[TV,TIX]) interfaces.Distance[TV,TIX]
}

func newLoader(kind string) interfaces.IndexAllocator {
	if kind == "gc" {
		return memory.FileIndexMemoryAllocator()
	}
	return memory.MmapIndexAllocator()
}

func makeT[TV interfaces.VectorType, TIX interfaces.IndexTypes](c Cfg, sh *Shared, mkRnd func(uint64) interfaces.Random[TIX]) Ix {
	var d interfaces.Distance[TV, TIX]
	if sh != nil && sh.dist != nil {
		d = sh.dist.(interfaces.Distance[TV, TIX])
	} else if c.Dist == "dot" {
		d = dotproduct.Distance[TV, TIX](TIX(c.Dim))
	} else {
		d = angular.Distance[TV, TIX](TIX(c.Dim))
	}
	if sh != nil && sh.wrapD != nil {
		d = sh.wrapD.(func(interfaces.Distance[TV, TIX]) interfaces.Distance[TV, TIX])(d)
	}
	t := &ixT[TV, TIX]{d: d}
	if c.Bld && c.Dist == "ang" {
		var b *builder.AnnoyIndexBuilderImpl[TV, TIX]
		if sh != nil && sh.bld != nil {
			b = sh.bld.(*builder.AnnoyIndexBuilderImpl[TV, TIX])
		} else {
			b = builder.Index[TV, TIX]().AngularDistance(c.Dim)
			if c.Multi {
				b = b.UseMultiWorkerPolicy()
			} else if c.Seed%2 == 0 {
				b = b.SingleWorkerPolicy()
			}
			if c.Loader == "gc" {
				b = b.GCMemoryIndexAllocator()
			} else if c.Seed%3 == 0 {
				b = b.MmapIndexAllocator()
			}
			if c.Hint > 0 {
				b = b.IndexNumHint(c.Hint)
			}
			if c.Seed != 0 {
				b = b.Random(mkRnd(c.Seed))
			}
			if c.Verbose {
				b = b.VerboseLogging()
			}
			if so := sorterFor[TV, TIX](c.Sorter); so != nil {
				b = b.UseSorter(so)
			}
			if sh != nil {
				sh.bld = b
			}
		}
		t.x = b.Build()
		return t
	}
	var pol interfaces.AnnoyIndexBuildPolicy
	if sh != nil && sh.pol != nil {
		pol = sh.pol
	} else if c.Multi {
		pol = policy.MultiWorker()
	} else {
		pol = policy.SingleWorker()
	}
	if sh != nil && sh.loader != nil {
		t.loader = sh.loader
	} else {
		t.loader = newLoader(c.Loader)
	}
	var rnd interfaces.Random[TIX]
	if sh != nil && sh.rnd != nil {
		rnd = sh.rnd.(interfaces.Random[TIX])
	} else {
		rnd = mkRnd(c.Seed)
	}
	var alloc interfaces.BuildIndexAllocator = memory.GoGCIndexAllocator()
	if sh != nil && sh.alloc != nil {
		alloc = sh.alloc
	}
	t.x = index.New[TV, TIX](rnd, d, pol, alloc, t.loader, sorterFor[TV, TIX](c.Sorter), c.Verbose, TIX(c.Hint))
	return t
}

// sorterFor gives a sorter of other functions than the default.
func sorterFor[TV interfaces.VectorType, TIX interfaces.IndexTypes](n int) interfaces.Sorter[TV, TIX] {
	switch n {
	case 1:
		return &interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: gosort.SortSlice2[TIX],
			SortPairsFunc:        func(p []*interfaces.Pair[TV, TIX]) { gosort.SortPairs2[TV, TIX](p) },
			PartialSortSliceFunc: gosort.PartialSortSlice2[TV, TIX]}
	case 2:
		return &interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: gosort.SortSlice3[TIX],
			SortPairsFunc: gosort.SortPairs[TV, TIX],
			PartialSortSliceFunc: func(s interfaces.Pairs[TV, TIX], begin, middle, end int) {
				gosort.SortPairs(s[begin:end])
			}}
	}
	return nil
}

func rnd32(seed uint64) interfaces.Random[uint32] { return random.NewKiss32Random(uint32(seed)) }
func rnd64(seed uint64) interfaces.Random[uint64] { return random.NewKiss64Random(seed) }

// Make makes an index. sh (may be nil) has the parts it shares with others.
func Make(c Cfg, sh *Shared) Ix {
	switch c.TV + c.TIX {
	case "f32u32":
		return makeT[float32, uint32](c, sh, rnd32)
	case "f64u32":
		return makeT[float64, uint32](c, sh, rnd32)
	case "f32u64":
		return makeT[float32, uint64](c, sh, rnd64)
	case "f64u64":
		return makeT[float64, uint64](c, sh, rnd64)
	}
	die("bad configuration %v", c)
	return nil
}

// rndFor makes a generator that several indexes may share.
func rndFor(c Cfg) any {
	if c.TIX == "u64" {
		return rnd64(c.Seed)
	}
	return rnd32(c.Seed)
}

// ---------------------------------------------------------------- vectors

// vecOf gives the vector for a token: deterministic, different (bit for bit)
// for different tokens, and of many shapes. Values are exact in float32.
func vecOf(token int, dim int, salt uint64, extreme bool) []float64 {
	r := NewRand(uint64(token)*1000003 + salt*7919)
	v := make([]float64, dim)
	kind := r.N(10)
	for i := range v {
		v[i] = float64(float32(r.Norm()))
	}
	switch kind {
	case 0: // sparse
		for i := range v {
			if i != token%dim {
				v[i] = 0
			}
		}
		v[token%dim] = float64(float32(token) + 0.25)
	case 1: // collinear with (1,1,..)
		for i := range v {
			v[i] = float64(token) + 0.5
		}
	case 2: // large
		for i := range v {
			v[i] *= 1024
		}
	case 3: // small
		for i := range v {
			v[i] /= 1024
		}
	}
	if extreme {
		switch r.N(4) {
		case 0:
			for i := range v {
				v[i] = math.Copysign(0, -1)
			}
			v[0] = float64(math.Float32frombits(uint32(token + 1))) // denormal
		case 1:
			v[dim-1] = float64(math.Float32frombits(0x7f000000 + uint32(token)))
		}
	}
	return v
}

func bitsKey(v []float64) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprintf(&b, "%x,", math.Float64bits(x))
	}
	return b.String()
}

func hash(parts ...any) string {
	h := fnv.New64a()
	for _, p := range parts {
		switch q := p.(type) {
		case []byte:
			h.Write(q)
		case float64:
			fmt.Fprintf(h, "%x;", math.Float64bits(q))
		case []float64:
			for _, x := range q {
				fmt.Fprintf(h, "%x;", math.Float64bits(x))
			}
		default:
			fmt.Fprintf(h, "%v;", q)
		}
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func newPolicy(multi bool) interfaces.AnnoyIndexBuildPolicy {
	if multi {
		return policy.MultiWorker()
	}
	return policy.SingleWorker()
}
