package main

import (
	"encoding/binary"
	"math"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

// Nodes in memory, and the helper functions. Judged by spec/BlocksTrace.tla.

type fixedSide[TIX interfaces.IndexTypes] struct{ side interfaces.Side }

func (f fixedSide[TIX]) Next() TIX                             { return TIX(f.side) }
func (f fixedSide[TIX]) NextSide() interfaces.Side             { return f.side }
func (f fixedSide[TIX]) NextIndex(n TIX) TIX                   { return TIX(f.side) % n }
func (f fixedSide[TIX]) SetSeed(seed TIX)                      {}
func (f fixedSide[TIX]) GetSeed() TIX                          { return 1 }
func (f fixedSide[TIX]) CloneAndReset() interfaces.Random[TIX] { return f }

// whole gives x * unit, if that is a whole number of moderate size.
func whole(x, unit float64) (int, bool) {
	y := x * unit
	if math.IsNaN(y) || math.Abs(y) > 1<<30 || y != math.Trunc(y) {
		return 0, false
	}
	return int(y), true
}

func floatBytes(f64 float64, w uintptr) []int {
	var b [8]byte
	if w == 4 {
		binary.LittleEndian.PutUint32(b[:], math.Float32bits(float32(f64)))
	} else {
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(f64))
	}
	return ints(b[:w])
}

func idBytes(x uint64, w uintptr) []int {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return ints(b[:w])
}

func ints(b []byte) []int {
	is := make([]int, len(b))
	for i := range b {
		is[i] = int(b[i])
	}
	return is
}

type cells[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	d          interfaces.Distance[TV, TIX]
	lifted     bool
	back       []uint64
	all, was   []byte
	before     int
	n, dim     int
	id, el     int
	vecAt, fAt int
	size, room int
	nodes      []interfaces.Node[TV, TIX]
}

func (a *cells[TV, TIX]) base() unsafe.Pointer { return unsafe.Pointer(&a.all[a.before]) }

func (a *cells[TV, TIX]) node(r *Rand, i int) interfaces.Node[TV, TIX] {
	if r.Bool() {
		return a.nodes[i]
	}
	return a.d.MapNodeToMemory(a.base(), TIX(i))
}

// diff lists the bytes changed since the last time (places count from one).
func (a *cells[TV, TIX]) diff() [][]int {
	d := [][]int{}
	for k := range a.all {
		if a.all[k] != a.was[k] {
			d = append(d, []int{k + 1, int(a.all[k])})
			a.was[k] = a.all[k]
		}
	}
	return d
}

func (a *cells[TV, TIX]) float(at int) float64 {
	if a.el == 4 {
		return float64(math.Float32frombits(binary.LittleEndian.Uint32(a.all[at:])))
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(a.all[at:]))
}

// plain gives the vector and the factor of a node if they are such that
// nothing that is computed of them is rounded.
func (a *cells[TV, TIX]) plain(i int) (v []float64, factor float64, ok bool) {
	at := a.before + i*a.size
	sum, whol := 0.0, true
	for k := 0; k < a.dim; k++ {
		x := a.float(at + a.vecAt + k*a.el)
		if _, fine := whole(x, 64); !fine || math.Abs(x) > 65 || x == 0 && math.Signbit(x) {
			return nil, 0, false
		}
		whol = whol && x == math.Trunc(x)
		sum += x * x
		v = append(v, x)
	}
	if a.lifted {
		factor = a.float(at + a.fAt)
		if _, fine := whole(factor, 8); !fine || math.Abs(factor) > 65 || factor == 0 && math.Signbit(factor) {
			return nil, 0, false
		}
	}
	return v, factor, sum < 1000 || whol && sum < 16000
}

func blocksArena[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, i int, c Cfg) {
	a := &cells[TV, TIX]{lifted: c.Dist == "dot", n: 2 + r.N(3), dim: c.Dim, before: 8 * (1 + r.N(3))}
	if a.lifted {
		a.d = dotproduct.Distance[TV, TIX](TIX(a.dim))
	} else {
		a.d = angular.Distance[TV, TIX](TIX(a.dim))
	}
	a.id, a.el = int(unsafe.Sizeof(TIX(0))), int(unsafe.Sizeof(TV(0)))
	a.fAt = (3*a.id + a.el - 1) / a.el * a.el
	a.vecAt = a.fAt
	if a.lifted {
		a.vecAt += a.el
	}
	a.size = a.vecAt + a.dim*a.el
	a.room = (a.size - a.id) / a.id
	total := 2*a.before + a.n*a.size
	a.back = make([]uint64, total/8+8)
	a.all = unsafe.Slice((*byte)(unsafe.Pointer(&a.back[0])), total)
	a.was = make([]byte, total)
	fill := []byte{0, 165}[r.N(2)]
	for k := range a.all {
		a.all[k], a.was[k] = fill, fill
	}
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "nodes": a.n, "fill": fill, "size": int(a.d.NodeSize()), "room": int(a.d.MaxNumChildren()),
		"length": int(a.d.VectorLength()),
		"shape":  M{"id": a.id, "el": a.el, "dot": a.lifted, "dim": a.dim, "before": a.before}})
	if int(a.d.NodeSize()) != a.size {
		return
	}
	// Everything is zero at first, or what memory happens to hold.
	for k := 0; k < a.n; k++ {
		if fill != 0 && r.Bool() {
			continue
		}
		at := a.before + k*a.size
		b := make([]byte, a.size)
		copy(a.all[at:], b)
		copy(a.was[at:], b)
		cm.out.Put(M{"op": "raw", "at": at, "bytes": ints(b)})
	}
	for k := 0; k < a.n; k++ {
		a.nodes = append(a.nodes, a.d.MapNodeToMemory(a.base(), TIX(k)))
	}
	put := func(m M) {
		m["diff"] = a.diff()
		cm.out.Put(m)
	}
	setVec := func(k int, v []float64) {
		tv, vs := roomy[TV](r, len(v)), make([]int, len(v))
		for j, x := range v {
			tv[j], vs[j] = TV(x), int(x*64)
		}
		a.node(r, k).SetVector(tv)
		put(M{"op": "SetVector", "i": k, "vs": vs})
	}
	query := func() (y []TV, is []int) {
		for j := 0; j < a.dim; j++ {
			x := r.N(41) - 20
			y, is = append(y, TV(x)), append(is, x)
		}
		return
	}
	for step := 40 + r.N(60); step > 0; step-- {
		k := r.N(a.n)
		x := a.node(r, k)
		switch r.N(20) {
		case 0:
			n := []int{0, 1, 2, a.room, a.room + 1, r.N(1 << 30)}[r.N(6)]
			x.SetNumberOfDescendants(TIX(n))
			put(M{"op": "SetNumberOfDescendants", "i": k, "n": n})
		case 1:
			ks := []int{}
			var ids []TIX
			for n := 1 + r.N(a.room); n > 0; n-- {
				ks = append(ks, r.N(1<<30)>>(r.N(30)))
				ids = append(ids, TIX(ks[len(ks)-1]))
			}
			given := roomy[TIX](r, len(ids))
			copy(given, ids)
			x.SetChildren(given)
			put(M{"op": "SetChildren", "i": k, "ks": ks})
		case 2:
			j, v := r.N(a.room), r.N(1<<30)
			*(*TIX)(unsafe.Add(unsafe.Pointer(x.GetRawChildren()), j*a.id)) = TIX(v)
			put(M{"op": "GetRawChildren", "i": k, "k": j + 1, "x": v})
		case 3:
			v := r.N(4000) - 2000
			x.SetNorm(TV(v) / 64)
			put(M{"op": "SetNorm", "i": k, "a": v})
		case 4, 5:
			v := make([]float64, a.dim)
			for j := range v {
				v[j] = float64(r.N(41) - 20)
			}
			if r.N(4) == 0 {
				v = v[:1+r.N(a.dim)]
			}
			setVec(k, v)
		case 6: // a vector whose length is a power of two
			v := make([]float64, a.dim)
			m := float64(int(1) << r.N(4))
			for _, cnt := range []int{16, 4, 1} {
				if cnt <= a.dim && (cnt == 1 || r.Bool()) {
					for _, j := range pick(r, a.dim, cnt) {
						v[j] = m * float64(1-2*r.N(2))
					}
					break
				}
			}
			setVec(k, v)
		case 7:
			j, v := r.N(a.dim), r.N(41)-20
			if r.Bool() {
				*(*TV)(unsafe.Add(unsafe.Pointer(x.GetRawVector()), j*a.el)) = TV(v)
				put(M{"op": "GetRawVector", "i": k, "k": j + 1, "a": v * 64})
			} else {
				x.GetVector(TIX(j + 1 + r.N(a.dim-j)))[j] = TV(v)
				put(M{"op": "GetVector", "i": k, "k": j + 1, "a": v * 64})
			}
		case 8, 9:
			to, n := r.N(a.n), a.size
			if r.N(3) == 0 {
				n = r.N(a.size + 1)
			}
			utils.CopyNode[TV, TIX](a.node(r, to), x, TIX(n))
			put(M{"op": "CopyNode", "to": to, "from": k, "n": n})
		case 10:
			if v, _, ok := a.plain(k); ok {
				if _, fine := whole(dot(v, v), 64); fine {
					a.d.InitNode(x)
					put(M{"op": "InitNode", "i": k})
				}
			}
		case 11, 12:
			if v, f, ok := a.plain(k); ok {
				n := math.Sqrt(dot(v, v))
				fine := n == 0 || n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32
				for _, y := range v {
					_, good := whole(y/n, 64)
					fine = fine && (n == 0 || good)
				}
				_, good := whole(f/n, 8)
				if fine && (n == 0 || good) {
					a.d.Normalize(x)
					put(M{"op": "Normalize", "i": k})
				}
			}
		case 13:
			legs := [][]int{{0, 5, 3, 4}, {0, 25, 7, 24, 15, 20}, {0, 65, 16, 63, 33, 56, 25, 60, 39, 52}, {0, 10, 6, 8}, {0, 2}}[r.N(5)]
			n := 1 + r.N(a.n)
			top := r.N(n)
			for j := 0; j < n; j++ {
				leg := legs[r.N(len(legs))]
				if j == top {
					leg = legs[1]
				}
				v := make([]float64, a.dim)
				v[r.N(a.dim)] = float64(leg * (1 - 2*r.N(2)))
				setVec(j, v)
			}
			a.d.PreProcess(a.base(), TIX(n))
			put(M{"op": "PreProcess", "n": n})
		case 14:
			put(M{"op": "descendants", "i": k, "bytes": idBytes(uint64(x.GetNumberOfDescendants()), uintptr(a.id))})
		case 15:
			at := a.before + k*a.size
			n := uint64(binary.LittleEndian.Uint32(a.all[at:]))
			if a.id == 8 {
				n = binary.LittleEndian.Uint64(a.all[at:])
			}
			if n <= uint64(a.room) {
				ks := x.GetChildren()
				if uint64(len(ks)) == n && n > 0 && r.N(3) == 0 { // it is a view
					j, v := r.N(len(ks)), r.N(1<<30)
					ks[j] = TIX(v)
					put(M{"op": "GetChildren", "i": k, "k": j + 1, "x": v})
				}
				b := []int{}
				for _, y := range ks {
					b = append(b, idBytes(uint64(y), uintptr(a.id))...)
				}
				put(M{"op": "children", "i": k, "n": len(ks), "bytes": b})
			}
		case 16:
			b := []int{}
			y := x.GetNorm()
			if y == y {
				b = floatBytes(float64(y), uintptr(a.el))
				put(M{"op": "norm", "i": k, "bytes": b})
			}
		case 17:
			b := []int{}
			n := 1 + r.N(a.dim)
			fine := true
			for _, y := range x.GetVector(TIX(n)) {
				b = append(b, floatBytes(float64(y), uintptr(a.el))...)
				fine = fine && y == y
			}
			if fine {
				put(M{"op": "vector", "i": k, "n": n, "bytes": b})
			}
		case 18:
			if _, _, ok := a.plain(k); ok {
				y, is := query()
				if r.N(3) == 0 { // on the hyperplane, often
					for j := range y {
						y[j], is[j] = 0, 0
					}
				}
				if r.Bool() {
					got, exact := whole(float64(a.d.Margin(x, y)), 4096)
					put(M{"op": "Margin", "i": k, "y": is, "got": got, "exact": exact})
				} else {
					s := r.N(2)
					got := a.d.Side(x, y, fixedSide[TIX]{interfaces.Side(s)})
					put(M{"op": "Side", "i": k, "y": is, "chance": s, "got": int(got)})
				}
			}
		case 19:
			j := r.N(a.n)
			_, _, ok := a.plain(k)
			_, _, ok2 := a.plain(j)
			if a.lifted && ok && ok2 {
				got, exact := whole(float64(a.d.Distance(x, a.node(r, j))), 4096)
				put(M{"op": "Distance", "i": k, "j": j, "got": got, "exact": exact})
			}
		}
	}
}

// roomy makes a slice with something else behind its end, sometimes.
func roomy[T float32 | float64 | uint32 | uint64](r *Rand, n int) []T {
	if r.Bool() {
		return make([]T, n)
	}
	s := make([]T, n+4)
	for i := range s {
		s[i] = 99
	}
	return s[:n]
}

func pick(r *Rand, n, k int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p[:k]
}

func helpers[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand) {
	for step := 0; step < 40; step++ {
		m := r.N(24)
		if r.N(5) == 0 {
			m = r.N(200)
		}
		n := m
		if r.Bool() {
			n = r.N(m + 1)
		}
		ia, ib := []int{}, []int{}
		va, vb := make([]TV, m+1), make([]TV, m+1)
		for j := 0; j < m; j++ {
			x, y := r.N(61)-30, r.N(61)-30
			if j >= n { // not to be looked at
				va[j], vb[j] = TV(math.NaN()), TV(math.Inf(1))
			} else {
				ia, ib = append(ia, x), append(ib, y)
				va[j], vb[j] = TV(x), TV(y)
			}
		}
		va, vb = va[:m:m+1], vb[:m:m+1]
		ka, kb := append([]TV{}, va[:n]...), append([]TV{}, vb[:n]...)
		kept := func() bool {
			for j := range ka {
				if va[j] != ka[j] || vb[j] != kb[j] {
					return false
				}
			}
			for j := n; j < m; j++ {
				if va[j] == va[j] || vb[j] != TV(math.Inf(1)) {
					return false
				}
			}
			return true
		}
		row := func(op string, got TV) {
			g, exact := whole(float64(got), 1)
			cm.out.Put(M{"op": op, "a": ia, "b": ib, "n": n, "got": g, "exact": exact, "kept": kept()})
		}
		switch r.N(12) {
		case 0:
			row("Dot", vector.Dot(va, vb, TIX(n)))
		case 1:
			row("DotUnsafe", vector.DotUnsafe(unsafe.SliceData(va), unsafe.SliceData(vb), TIX(n)))
		case 2, 3: // a vector whose length is a whole number
			sum := 0
			for j := 0; j < n; j++ {
				if r.N(n) > 3 {
					ia[j], va[j], ka[j] = 0, 0, 0
				}
				sum += ia[j] * ia[j]
			}
			if s := int(math.Round(math.Sqrt(float64(sum)))); s*s != sum {
				for j := 0; j < n; j++ {
					ia[j], va[j], ka[j] = 0, 0, 0
				}
				for _, j := range pick(r, n, min1(n)) {
					ia[j] = r.N(100) - 50
					va[j], ka[j] = TV(ia[j]), TV(ia[j])
				}
			}
			if r.Bool() {
				row("GetNorm", vector.GetNorm(va, TIX(n)))
			} else {
				row("GetNormUnsafe", vector.GetNormUnsafe(unsafe.SliceData(va), TIX(n)))
			}
		case 4:
			row("EuclideanDistance", vector.EuclideanDistance(va, vb, TIX(n)))
		case 5:
			row("ManhattanDistance", vector.ManhattanDistance(va, vb, TIX(n)))
		case 6:
			x := r.N(2001) - 1000
			g, exact := whole(float64(vector.Abs(TV(x)/8)), 8)
			cm.out.Put(M{"op": "Abs", "a": x, "got": g, "exact": exact})
		case 7:
			x, y := r.N(1<<(1+r.N(30))), r.N(1<<(1+r.N(30)))
			cm.out.Put(M{"op": "Max", "a": x, "b": y, "got": int(utils.Max(TIX(x), TIX(y)))})
		case 8:
			lists := [2][]TIX{}
			span := 1 + r.N(40)
			for s := range lists {
				for j := r.N(30); j > 0; j-- {
					lists[s] = append(lists[s], TIX(r.N(span)))
				}
			}
			num := func(s []TIX) []int {
				is := []int{}
				for _, x := range s {
					is = append(is, int(x))
				}
				return is
			}
			a, b := num(lists[0]), num(lists[1])
			got := utils.Intersection(lists[0], lists[1])
			cm.out.Put(M{"op": "Intersection", "a": a, "b": b, "got": num(got), "a2": num(lists[0]), "b2": num(lists[1])})
		case 9:
			q, p := r.N(40001)-20000, r.N(4)
			if r.Bool() {
				g, exact := whole(utils.Round(float64(q)/16), 1)
				cm.out.Put(M{"op": "Round", "a": q, "n": 0, "got": g, "exact": exact})
				break
			}
			u := utils.RoundPlus(float64(q)/16, p) * math.Pow(10, float64(p))
			g := math.Round(u)
			cm.out.Put(M{"op": "RoundPlus", "a": q, "n": p, "got": int(g), "exact": math.Abs(u-g) < 1e-6})
		case 10:
			pairsRow(cm, r)
		case 11:
			calls, long := 0, false
			want := r.N(1000)
			f := func() int {
				calls++
				t := time.Now()
				for time.Since(t) < 20*time.Microsecond {
				}
				return want
			}
			got := want
			if r.Bool() {
				long = utils.Measure(func() { f() }) >= 20*time.Microsecond
			} else {
				var d time.Duration
				d, got = utils.MeasureWithReturn(f)
				long = d >= 20*time.Microsecond
			}
			cm.out.Put(M{"op": "Measure", "calls": calls, "same": got == want, "long": long})
		}
	}
}

func pairsRow(cm *Common, r *Rand) {
	var ps interfaces.Pairs[float64, uint32]
	num := func() [][]int {
		is := [][]int{}
		for _, p := range ps {
			is = append(is, []int{int(p.First), int(p.Second)})
		}
		return is
	}
	span := 1 + r.N(10)
	for j := 1 + r.N(12); j > 0; j-- {
		ps = append(ps, &interfaces.Pair[float64, uint32]{First: float64(r.N(span)), Second: uint32(r.N(span))})
	}
	a := num()
	i, j, x := r.N(len(ps)), r.N(len(ps)), r.N(span+1)
	p := &interfaces.Pair[float64, uint32]{First: float64(r.N(span)), Second: uint32(r.N(span))}
	m := M{"op": "Pair", "a": a, "i": i + 1, "j": j + 1, "x": x, "p": []int{int(p.First), int(p.Second)},
		"less": ps.Less(i, j), "pless": ps[i].Less(ps[j]), "first": ps.ContainsFirst(float64(x)), "second": ps.ContainsSecond(uint32(x)),
		"len": ps.Len(), "top": []int{int(ps.Top().First), int(ps.Top().Second)}}
	ps.Swap(i, j)
	m["swapped"] = num()
	ps.Swap(i, j)
	ps.Push(p)
	m["pushed"] = num()
	q := ps.Pop().(*interfaces.Pair[float64, uint32])
	m["popped"] = []int{int(q.First), int(q.Second)}
	m["after"] = num()
	cm.out.Put(m)
}

func blocksCase[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, i int, c Cfg) {
	blocksArena[TV, TIX](cm, r, i, c)
	helpers[TV, TIX](cm, r)
}

func init() {
	cmds["blocks"] = func(args []string) {
		fl, cm := common("blocks")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 61)
			c := genCfg(r)
			c.Dim = 1 + r.N(20)
			cm.mark.Set(M{"case": i, "cfg": c})
			cm.attempt(60*time.Second, func() {
				switch c.TV + c.TIX {
				case "f32u32":
					blocksCase[float32, uint32](cm, r, i, c)
				case "f32u64":
					blocksCase[float32, uint64](cm, r, i, c)
				case "f64u32":
					blocksCase[float64, uint32](cm, r, i, c)
				default:
					blocksCase[float64, uint64](cm, r, i, c)
				}
			})
		}
		cm.out.Close()
	}
}

func min1(n int) int {
	if n > 1 {
		return 1
	}
	return n
}
