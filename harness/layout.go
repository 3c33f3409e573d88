package main

import (
	"bytes"
	"math"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
)

// Where nodes are and what fits in them, up to sizes far beyond 4 GB (of memory
// that is reserved but hardly used). Judged by spec/LayoutTrace.tla.

func digits(x uint64) []int {
	r := make([]int, 8)
	for i := range r {
		r[i] = int(x >> (8 * i) & 255)
	}
	return r
}

// sparse is memory for builds: one large reservation, which it never leaves.
type sparse struct {
	m     []byte
	asked uint64
}

func newSparse(gb int) *sparse {
	m, err := syscall.Mmap(-1, 0, gb<<30, syscall.PROT_READ|syscall.PROT_WRITE,
		syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		die("harness: cannot reserve %d GB: %v", gb, err)
	}
	return &sparse{m: m}
}
func (s *sparse) Free() {
	if s.m != nil {
		syscall.Munmap(s.m)
	}
	s.m, s.asked = nil, 0
}
func (s *sparse) Reallocate(n int) unsafe.Pointer {
	s.asked = uint64(n)
	return unsafe.Pointer(unsafe.SliceData(s.m))
}

// noted is memory of goannoy's own.
type noted struct {
	in    interfaces.BuildIndexAllocator
	asked uint64
}

func (a *noted) Free() { a.in.Free(); a.asked = 0 }
func (a *noted) Reallocate(n int) unsafe.Pointer {
	if uint64(n) > a.asked {
		a.asked = uint64(n)
	}
	return a.in.Reallocate(n)
}

// guarded is memory for builds that ends where it may no longer be written.
type guarded struct {
	m, use []byte
}

func (g *guarded) Free() {
	if g.m != nil {
		syscall.Munmap(g.m)
	}
	g.m, g.use = nil, nil
}
func (g *guarded) Reallocate(n int) unsafe.Pointer {
	const page = 4096
	k := (n + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, k+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	must(syscall.Mprotect(m[k+page:], syscall.PROT_NONE))
	must(syscall.Mprotect(m[:page], syscall.PROT_NONE))
	use := m[page+k-n : page+k]
	copy(use, g.use)
	old := g.m
	g.m, g.use = m, use
	if old != nil {
		syscall.Munmap(old)
	}
	return unsafe.Pointer(unsafe.SliceData(use))
}

func distOf[TV interfaces.VectorType, TIX interfaces.IndexTypes](dist string, dim int) interfaces.Distance[TV, TIX] {
	if dist == "dot" {
		return dotproduct.Distance[TV, TIX](TIX(dim))
	}
	return angular.Distance[TV, TIX](TIX(dim))
}

func bytesAt(p unsafe.Pointer, n int) []byte { return unsafe.Slice((*byte)(p), n) }

// nodeLayout looks at the nodes of one distance.
func nodeLayout[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, i int, dist string, dim int, region []byte) {
	d := distOf[TV, TIX](dist, dim)
	S, K := int(d.NodeSize()), int(d.MaxNumChildren())
	var tv TV
	var tix TIX
	ts, vs := int(unsafe.Sizeof(tix)), int(unsafe.Sizeof(tv))
	base := unsafe.Pointer(unsafe.SliceData(region))
	cm.out.Put(M{"op": "cfg", "case": i, "dist": dist, "dim": dim, "ix": ts, "el": vs, "size": digits(uint64(S))})
	n0 := d.MapNodeToMemory(base, 0)
	off := func(p unsafe.Pointer) int { return int(uintptr(p) - uintptr(utils.GetPtr(n0))) }
	cm.out.Put(M{"op": "node", "vec": off(unsafe.Pointer(n0.GetRawVector())), "kids": off(unsafe.Pointer(n0.GetRawChildren())),
		"dim": dim, "el": vs, "ix": ts, "size": S, "most": K})
	// where nodes are
	top := uint64(len(region)) / uint64(S)
	if ts == 4 && top > 1<<32 {
		top = 1 << 32
	}
	edge := (uint64(1) << 32) / uint64(S)
	at := []uint64{0, 1, 2, edge - 1, edge, edge + 1, 2 * edge, 3*edge + 1, top - 1, top / 2}
	for n := 0; n < 12; n++ {
		at = append(at, r.U64()%top)
	}
	for b := 8; b < 33; b++ {
		at = append(at, uint64(1)<<b-1, uint64(1)<<b)
	}
	var usable []uint64
	for _, x := range at {
		if x < top {
			p := utils.GetPtr(d.MapNodeToMemory(base, TIX(x)))
			cm.out.Put(M{"op": "place", "i": digits(x), "at": digits(uint64(uintptr(p) - uintptr(base)))})
			usable = append(usable, x)
		}
	}
	// what fits: three nodes, the middle one is written; also far away
	for n := 0; n < 4; n++ {
		x := usable[r.N(len(usable))]
		if x == 0 || x+1 >= top {
			x = 1
		}
		if n == 0 && edge > 0 && edge+1 < top {
			x = edge
		}
		lo := (x - 1) * uint64(S)
		around := region[lo : lo+3*uint64(S)]
		for k := range around {
			around[k] = byte(r.U64())
		}
		before := append([]byte{}, around...)
		node := d.MapNodeToMemory(base, TIX(x))
		e := M{"op": "writes", "x": digits(x)}
		v := make([]TV, dim)
		for k := range v {
			v[k] = TV(r.Norm())
		}
		same := func(a, b []TV) bool {
			for k := range a {
				if a[k] != b[k] {
					return false
				}
			}
			return len(a) == len(b)
		}
		node.SetNumberOfDescendants(1)
		node.SetVector(v)
		node.SetNorm(1.5)
		e["item"] = node.GetNumberOfDescendants() == 1 && same(node.GetVector(TIX(dim)), v) && node.GetNorm() == 1.5
		node.SetNumberOfDescendants(TIX(K + 7))
		node.SetVector(v)
		node.SetChildren([]TIX{TIX(r.U64()), 3})
		c1 := unsafe.Slice(node.GetRawChildren(), 2)
		e["split"] = node.GetNumberOfDescendants() == TIX(K+7) && c1[1] == 3 && same(node.GetVector(TIX(dim)), v)
		kids := make([]TIX, K)
		for k := range kids {
			kids[k] = TIX(r.U64())
		}
		node.SetNumberOfDescendants(TIX(K))
		node.SetChildren(kids)
		got := node.GetChildren()
		okK := len(got) == K && node.GetNumberOfDescendants() == TIX(K)
		for k := range got {
			okK = okK && got[k] == kids[k]
		}
		e["children"] = okK
		e["inside"] = bytes.Equal(before[:S], around[:S]) && bytes.Equal(before[2*S:], around[2*S:])
		// a copy, between neighbours
		tmp := make([]byte, 3*S)
		for k := range tmp {
			tmp[k] = byte(r.U64())
		}
		was := append([]byte{}, tmp...)
		utils.CopyNode(d.MapNodeToMemory(unsafe.Pointer(&tmp[0]), 1), node, TIX(S))
		e["copied"] = bytes.Equal(tmp[S:2*S], around[S:2*S])
		e["copyinside"] = bytes.Equal(was[:S], tmp[:S]) && bytes.Equal(was[2*S:], tmp[2*S:])
		cm.out.Put(e)
	}
	// gives the memory back
	if len(region) > 1<<30 {
		must(syscall.Madvise(region, syscall.MADV_DONTNEED))
	}
}

func huge(cm *Common, r *Rand, i int) {
	c := Cfg{TV: []string{"f32", "f64"}[r.N(2)], TIX: []string{"u32", "u32", "u64"}[r.N(3)], Dist: []string{"ang", "dot"}[r.N(2)],
		Multi: r.Bool(), Loader: "mmap", Seed: uint64(1 + r.N(99))}
	gb, few := 40, 6+r.N(5)
	save := i == 0 || cm.tier == "thorough" && i%12 == 0
	if i == 0 {
		c.TIX = "u32"
	}
	switch i % 4 {
	case 0, 1: // large nodes
		c.Dim = []int{250000, 120000, 400001}[r.N(3)]
	case 2:
		c.Dim = 20000 + r.N(2000)
	default: // very many nodes
		c.Dim = 1 + r.N(3)
		gb = 160
	}
	l := layoutOf(c)
	S := uint64(l.size)
	edge := (uint64(1) << 32) / S
	ids := []uint64{0, 1, 2, edge - 1, edge, edge + 1, edge + 2, 2 * edge, 2*edge + 1}
	if i%4 == 3 {
		ids = append(ids, 4*edge+3, 1<<28+1)
		if c.TIX == "u64" {
			ids = append(ids, 1<<32, 1<<32+1)
		} else {
			ids = append(ids, 1<<31, 1<<31+1, 1<<32-2)
		}
	}
	if save { // a file as small as can be
		ids = ids[:7]
	}
	// some of them, in any order
	for k := len(ids) - 1; k > 0; k-- {
		j := r.N(k + 1)
		ids[k], ids[j] = ids[j], ids[k]
	}
	if len(ids) > few {
		keep := ids[:few]
		over := false
		for _, x := range keep {
			over = over || x >= edge
		}
		if !over {
			keep[0] = edge + 1
		}
		ids = keep
	}
	if r.N(3) == 0 && i%4 != 3 {
		c.Hint = int(edge) + 3 + r.N(100)
	}
	mem := newSparse(gb)
	sh := &Shared{alloc: mem}
	asked := func() uint64 { return mem.asked }
	real := i == 1 || cm.tier == "thorough" && i%12 == 5
	if real { // the memory that is used without further ado, which has to grow beyond 2 GB
		plain := &noted{in: memory.GoGCIndexAllocator()}
		sh.alloc = plain
		asked = func() uint64 { return plain.asked }
		c.TIX = "u32"
		l := layoutOf(c)
		S = uint64(l.size)
		half := uint64(2<<30)/S + 1
		c.Hint = int(float64(half)/1.5) + 1
		ids = []uint64{0, half - 1, half / 2, half*4/3 + uint64(r.N(9)), 1, half + 1}
	}
	x := Make(c, sh)
	cm.out.Put(M{"op": "cfg", "case": i, "cfg": c, "size": digits(S), "ids": ids})
	vec := func(id uint64) []float64 {
		rr := NewRand(id*31 + uint64(i))
		v := make([]float64, c.Dim)
		for k := range v {
			v[k] = float64(float32(rr.Norm()))
		}
		return v
	}
	name := func(id uint64) int { // ids in traces are small numbers: where they are in the list
		for k := range ids {
			if ids[k] == id {
				return k
			}
		}
		return -1
	}
	var added []uint64
	items := func() {
		right, wrong := []int{}, []int{}
		for _, id := range added {
			g, w := x.Get(id), vec(id)
			ok := len(g) == len(w)
			for k := 0; ok && k < len(w); k++ {
				ok = g[k] == w[k]
			}
			if ok {
				right = append(right, name(id))
			} else {
				wrong = append(wrong, name(id))
			}
		}
		cm.out.Put(M{"op": "items", "right": right, "wrong": wrong})
	}
	for _, id := range ids {
		x.Add(id, vec(id))
		added = append(added, id)
		cm.out.Put(M{"op": "add", "i": digits(id), "id": name(id), "room": digits(asked())})
		if r.Bool() {
			items()
		}
	}
	items()
	if i%4 == 3 { // walking through billions of nodes takes too long
		x.Close()
		return
	}
	x.Build(1+r.N(3), 1+r.N(3))
	items()
	last := uint64(0)
	for _, id := range ids {
		if id > last {
			last = id
		}
	}
	cm.out.Put(M{"op": "built", "n": digits(last + 2), "room": digits(asked())})
	search := func() {
		for n := 0; n < 3; n++ {
			id := added[r.N(len(added))]
			got, ds := x.ByVec(vec(id), int(last)+10, 1<<30, x.Ctx())
			if n == 2 {
				got, ds = x.ByItem(id, int(last)+10, 1<<30, x.Ctx())
			}
			set := []int{}
			for _, g := range got {
				set = append(set, name(g))
			}
			sort.Ints(set)
			// near: angular, itself is at no distance; dot product: its own square
			self := len(got) > 0
			if c.Dist == "ang" {
				self = self && got[0] == id && ds[0] < 0.01
			} else {
				self = self && got[0] == id
			}
			cm.out.Put(M{"op": "found", "ids": set, "self": self, "n": len(got), "first": math.Float64bits(firstOf(ds)) == 0})
		}
	}
	search()
	if save {
		p := filepath.Join(cm.dir, "huge.ann")
		need(x.Save(p))
		st, err := os.Stat(p)
		must(err)
		cm.out.Put(M{"op": "file", "n": digits(last + 2), "bytes": digits(uint64(st.Size())), "rest": int(uint64(st.Size()) % S)})
		items()
		search()
		x.Close()
		c2 := c
		for _, c2.Loader = range []string{"mmap", "gc"} {
			x = Make(c2, nil)
			need(x.Load(p))
			items()
			search()
			if c2.Loader == "mmap" {
				x.Close()
			}
		}
		os.Remove(p)
	}
	x.Close()
	mem.Free()
}

func firstOf(d []float64) float64 {
	if len(d) == 0 {
		return 0
	}
	return d[0]
}

// guardedRun builds in memory that ends where its last node should.
func guardedRun(cm *Common, r *Rand, i int) {
	c := Cfg{TV: []string{"f32", "f64"}[r.N(2)], TIX: []string{"u32", "u64"}[r.N(2)], Dist: []string{"ang", "dot"}[r.N(2)],
		Multi: r.N(4) == 0, Loader: []string{"mmap", "gc"}[r.N(2)], Seed: uint64(1 + r.N(99)), Dim: 1 + r.N(12)}
	if r.N(3) == 0 {
		c.Hint = 1 + r.N(50)
	}
	l := layoutOf(c)
	g := &guarded{}
	x := Make(c, &Shared{alloc: g})
	cm.out.Put(M{"op": "cfg", "case": i, "cfg": c, "size": digits(uint64(l.size))})
	n := 1 + r.N(60)
	vs := map[uint64][]float64{}
	var order []uint64
	for k := 0; k < n; k++ {
		id := uint64(k)
		if r.N(4) == 0 {
			id = uint64(r.N(2 * n))
		}
		v := make([]float64, c.Dim)
		for z := range v {
			v[z] = float64(float32(r.Norm()))
		}
		if vs[id] == nil {
			order = append(order, id)
		}
		vs[id] = v
		x.Add(id, v)
		cm.out.Put(M{"op": "add", "i": digits(id), "id": int(id), "room": digits(uint64(len(g.use)))})
	}
	items := func() {
		right, wrong := []int{}, []int{}
		for _, id := range order {
			if bitsKey(x.Get(id)) == bitsKey(vs[id]) {
				right = append(right, int(id))
			} else {
				wrong = append(wrong, int(id))
			}
		}
		cm.out.Put(M{"op": "items", "right": right, "wrong": wrong})
	}
	items()
	w := 1
	x.Build(1+r.N(6), w)
	items()
	p := filepath.Join(cm.dir, "guarded.ann")
	need(x.Save(p))
	f, err := readFile(c, p)
	must(err)
	cm.out.Put(M{"op": "file", "n": digits(uint64(f.N)), "bytes": digits(uint64(len(f.data))), "rest": f.rest})
	items()
	x.Close()
	os.Remove(p)
}

func init() {
	cmds["nodes"] = func(args []string) {
		fl, cm := common("nodes")
		fl.Parse(args)
		cm.open()
		mem := newSparse(96)
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 20)
			dim := []int{1 + r.N(8), 1 + r.N(40), 1 + r.N(300), 1 + r.N(3000), 1 + r.N(60000)}[r.N(5)]
			if i < 160 {
				dim = 1 + i/8
			}
			dist := []string{"ang", "dot"}[i%2]
			cm.mark.Set(M{"case": i, "dim": dim, "dist": dist})
			cm.attempt(60*time.Second, func() {
				switch i / 2 % 4 {
				case 0:
					nodeLayout[float32, uint32](cm, r, i, dist, dim, mem.m)
				case 1:
					nodeLayout[float64, uint32](cm, r, i, dist, dim, mem.m)
				case 2:
					nodeLayout[float32, uint64](cm, r, i, dist, dim, mem.m)
				default:
					nodeLayout[float64, uint64](cm, r, i, dist, dim, mem.m)
				}
			})
		}
		cm.out.Close()
	}
	cmds["huge"] = func(args []string) {
		fl, cm := common("huge")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 21)
			cm.mark.Set(M{"case": i})
			cm.attempt(300*time.Second, func() { huge(cm, r, i) })
		}
		cm.out.Close()
	}
	cmds["guarded"] = func(args []string) {
		fl, cm := common("guarded")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 22)
			cm.mark.Set(M{"case": i})
			cm.attempt(60*time.Second, func() { guardedRun(cm, r, i) })
		}
		cm.out.Close()
	}
}
