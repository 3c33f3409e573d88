package main

import (
	"bufio"
	"container/heap"
	"encoding/json"
	"math"
	"os"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
	"github.com/mariotoffia/goannoy/utils"
)

// Sorting and the priority queue. Elements are pairs of small numbers, which
// stand for keys and ids in the same order. Judged by spec/OrderTrace.tla.

type el [2]int

// scale maps 0..n-1 to keys and ids, in order.
type scale[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	k []TV
	i []TIX
}

func newScale[TV interfaces.VectorType, TIX interfaces.IndexTypes](r *Rand, n int) *scale[TV, TIX] {
	s := &scale[TV, TIX]{}
	switch r.N(4) {
	case 0: // plain
		for j := 0; j < n; j++ {
			s.k = append(s.k, TV(j))
		}
	case 1: // negative ones as well, far apart
		for j := 0; j < n; j++ {
			x := float64(j - n/2)
			s.k = append(s.k, TV(x*x*x*1e20))
		}
	case 2: // neighbours
		x := 1 + r.F()
		for j := 0; j < n; j++ {
			v := TV(x)
			s.k = append(s.k, v)
			x = next[TV](v)
		}
	default: // with infinities at the ends
		for j := 0; j < n; j++ {
			s.k = append(s.k, TV(float64(j)*0.5-1))
		}
		if n > 2 {
			s.k[0], s.k[n-1] = TV(math.Inf(-1)), TV(math.Inf(1))
		}
	}
	top := ^TIX(0)
	step := TIX(1)
	base := TIX(0)
	switch r.N(3) {
	case 0:
	case 1:
		base = top - TIX(n-1)
	default:
		step = top / TIX(n)
	}
	for j := 0; j < n; j++ {
		s.i = append(s.i, base+TIX(j)*step)
	}
	return s
}

func (s *scale[TV, TIX]) pair(e el) *interfaces.Pair[TV, TIX] {
	return &interfaces.Pair[TV, TIX]{First: s.k[e[0]], Second: s.i[e[1]]}
}
func (s *scale[TV, TIX]) pairs(es []el) interfaces.Pairs[TV, TIX] {
	p := make(interfaces.Pairs[TV, TIX], 0, len(es))
	for _, e := range es {
		p = append(p, s.pair(e))
	}
	return p
}
func (s *scale[TV, TIX]) key(v TV) int {
	for j, k := range s.k {
		if k == v {
			return j
		}
	}
	return -1
}
func (s *scale[TV, TIX]) id(v TIX) int {
	for j, k := range s.i {
		if k == v {
			return j
		}
	}
	return -1
}
func (s *scale[TV, TIX]) el(p *interfaces.Pair[TV, TIX]) el {
	if p == nil {
		return el{-1, -1}
	}
	return el{s.key(p.First), s.id(p.Second)}
}
func (s *scale[TV, TIX]) els(ps []*interfaces.Pair[TV, TIX]) []el {
	r := []el{}
	for _, p := range ps {
		r = append(r, s.el(p))
	}
	return r
}

// next is the smallest value above v.
func next[TV interfaces.VectorType](v TV) float64 {
	if unsafe.Sizeof(v) == 4 {
		return float64(math.Nextafter32(float32(v), 100))
	}
	return math.Nextafter(float64(v), 100)
}

type ranged struct {
	s       []el
	b, m, e int
}

func psortAll[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, in ranged, kn, in2 int) {
	sc := newScale[TV, TIX](r, maxi(kn, in2, 1))
	sf := &interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: sort.SortSlice[TIX],
		SortPairsFunc: sort.SortPairs[TV, TIX], PartialSortSliceFunc: sort.PartialSortSlice[TV, TIX]}
	for _, f := range []struct {
		n string
		f func(interfaces.Pairs[TV, TIX], int, int, int)
	}{{"PartialSortSlice", sort.PartialSortSlice[TV, TIX]}, {"PartialSortSlice2", sort.PartialSortSlice2[TV, TIX]},
		{"SorterFunctions.PartialSortSlice", sf.PartialSortSlice}} {
		p := sc.pairs(in.s)
		f.f(p, in.b, in.m, in.e)
		cm.out.Put(M{"op": "psort", "fn": f.n, "before": in.s, "after": sc.els(p), "b": in.b, "m": in.m, "e": in.e})
	}
	for _, f := range []struct {
		n string
		f func([]*interfaces.Pair[TV, TIX])
	}{{"SortPairs", sort.SortPairs[TV, TIX]}, {"SortPairs2", func(p []*interfaces.Pair[TV, TIX]) { sort.SortPairs2[TV, TIX](p) }},
		{"SorterFunctions.SortPairs", sf.SortPairs}} {
		p := sc.pairs(in.s)
		f.f(p)
		cm.out.Put(M{"op": "sort", "fn": f.n, "before": in.s, "after": sc.els(p)})
	}
	ids := make([]el, len(in.s))
	for j, e := range in.s {
		ids[j] = el{e[1], 0}
	}
	for _, f := range []struct {
		n string
		f func([]TIX)
	}{{"SortSlice", sort.SortSlice[TIX]}, {"SortSlice2", sort.SortSlice2[TIX]}, {"SortSlice3", sort.SortSlice3[TIX]},
		{"SorterFunctions.SortSlice", sf.SortSlice}} {
		p := make([]TIX, len(ids))
		for j, e := range ids {
			p[j] = sc.i[e[0]]
		}
		f.f(p)
		after := make([]el, len(ids))
		for j, v := range p {
			after[j] = el{sc.id(v), 0}
		}
		cm.out.Put(M{"op": "sort", "fn": f.n, "before": ids, "after": after})
	}
	// comparing, looking for elements
	if len(in.s) <= 60 {
		p := sc.pairs(in.s)
		for n := 0; n < 4 && len(in.s) > 0; n++ {
			i, j := r.N(len(p)), r.N(len(p))
			cm.out.Put(M{"op": "less", "a": in.s[i], "b": in.s[j], "less": p[i].Less(p[j]), "less2": p.Less(i, j)})
		}
		x := el{r.N(len(sc.k)), r.N(len(sc.i))}
		cm.out.Put(M{"op": "contains", "s": in.s, "x": x, "first": p.ContainsFirst(sc.k[x[0]]), "second": p.ContainsSecond(sc.i[x[1]])})
		// ids of results that two searches share
		var a, c []TIX
		la, lc := []int{}, []int{}
		seen := map[int]bool{}
		for _, e := range in.s {
			if !seen[e[1]] {
				seen[e[1]] = true
				if r.N(3) > 0 {
					a, la = append(a, sc.i[e[1]]), append(la, e[1])
				}
				if r.N(3) > 0 {
					c, lc = append(c, sc.i[e[1]]), append(lc, e[1])
				}
			}
		}
		if r.Bool() {
			for l, rr := len(c)-1, 0; rr < l; l, rr = l-1, rr+1 {
				c[l], c[rr], lc[l], lc[rr] = c[rr], c[l], lc[rr], lc[l]
			}
		}
		res := []int{}
		for _, v := range utils.Intersection(a, c) {
			res = append(res, sc.id(v))
		}
		cm.out.Put(M{"op": "inter", "a": la, "c": lc, "r": res})
	}
}

// Large inputs: what makes up the contract is computed here.
func psortBig[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, n, b, m, e, keys int) {
	type P = interfaces.Pair[TV, TIX]
	store := make([]P, n)
	for j := range store {
		store[j] = P{First: TV(r.N(keys)) - TV(keys/2), Second: TIX(r.U64())}
	}
	for fi, f := range []func(interfaces.Pairs[TV, TIX], int, int, int){sort.PartialSortSlice[TV, TIX], sort.PartialSortSlice2[TV, TIX],
		func(p interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs[TV, TIX](p) },
		func(p interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs2[TV, TIX](p) }} {
		name := []string{"PartialSortSlice", "PartialSortSlice2", "SortPairs", "SortPairs2"}[fi]
		B, MM, E := b, m, e
		if fi >= 2 {
			if n > 200000 {
				continue
			}
			B, MM, E = 0, n, n
		}
		p := make(interfaces.Pairs[TV, TIX], n)
		at := make(map[*P]int, n)
		sum := uint64(0)
		small := n <= 200000
		for j := range store {
			p[j] = &store[j]
			if small {
				at[p[j]] = j
			}
			sum += hashP(p[j].First, p[j].Second)
		}
		f(p, b, m, e)
		less := func(x, y *P) bool { return x.First < y.First || x.First == y.First && x.Second < y.Second }
		ordered, smallest, perm, outside := true, true, true, true
		for j := B + 1; j < MM; j++ {
			ordered = ordered && !less(p[j], p[j-1])
		}
		for j := MM; j < E && MM > B; j++ {
			smallest = smallest && !less(p[j], p[MM-1])
		}
		s2 := uint64(0)
		cnt := make(map[*P]bool, len(at))
		for j := range p {
			if p[j] == nil {
				perm = false
				continue
			}
			s2 += hashP(p[j].First, p[j].Second)
			if small {
				cnt[p[j]] = true
				if _, ok := at[p[j]]; !ok {
					perm = false
				}
			}
			if (j < B || j >= E) && p[j] != &store[j] {
				outside = false
			}
		}
		perm = perm && s2 == sum && (!small || len(cnt) == n)
		cm.out.Put(M{"op": "facts", "fn": name, "n": n, "b": B, "m": MM, "e": E, "keys": keys,
			"ordered": ordered, "smallest": smallest, "perm": perm, "outside": outside})
	}
}

func hashP[TV interfaces.VectorType, TIX interfaces.IndexTypes](k TV, i TIX) uint64 {
	x := math.Float64bits(float64(k))*0x9E3779B97F4A7C15 ^ uint64(i)*0xC2B2AE3D27D4EB4F
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	return x ^ x>>29
}

func slicesBig[TIX interfaces.IndexTypes](cm *Common, r *Rand, n, vals int) {
	for fi, f := range []func([]TIX){sort.SortSlice[TIX], sort.SortSlice2[TIX], sort.SortSlice3[TIX]} {
		s := make([]TIX, n)
		cnt := map[TIX]int{}
		for j := range s {
			s[j] = ^TIX(0) / TIX(vals) * TIX(r.N(vals))
			cnt[s[j]]++
		}
		f(s)
		ordered := true
		for j := range s {
			if j > 0 && s[j] < s[j-1] {
				ordered = false
			}
			cnt[s[j]]--
		}
		perm := true
		for _, k := range cnt {
			perm = perm && k == 0
		}
		cm.out.Put(M{"op": "facts", "fn": []string{"SortSlice", "SortSlice2", "SortSlice3"}[fi], "n": n, "b": 0, "m": n, "e": n,
			"keys": vals, "ordered": ordered, "smallest": true, "perm": perm, "outside": true})
	}
}

// Histories of the queue.
type qcall struct {
	op   string
	k, i int
}

type queue[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	Push(TV, TIX)
	Pop() *interfaces.Pair[TV, TIX]
	Top() *interfaces.Pair[TV, TIX]
	Len() int
	Empty() bool
}

type rawQ[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{ p interfaces.Pairs[TV, TIX] }

func (q *rawQ[TV, TIX]) Push(a TV, b TIX) {
	heap.Push(&q.p, &interfaces.Pair[TV, TIX]{First: a, Second: b})
}
func (q *rawQ[TV, TIX]) Pop() *interfaces.Pair[TV, TIX] {
	return heap.Pop(&q.p).(*interfaces.Pair[TV, TIX])
}
func (q *rawQ[TV, TIX]) Top() *interfaces.Pair[TV, TIX] { return q.p.Top() }
func (q *rawQ[TV, TIX]) Len() int                       { return q.p.Len() }
func (q *rawQ[TV, TIX]) Empty() bool                    { return len(q.p) == 0 }

func queueRun[TV interfaces.VectorType, TIX interfaces.IndexTypes](cm *Common, r *Rand, i int, calls []qcall, n int) {
	for _, raw := range []bool{false, true} {
		cm.out.Put(M{"op": "cfg", "case": i, "raw": raw})
		cm.attempt(20*time.Second, func() {
			sc := newScale[TV, TIX](r, n)
			var q queue[TV, TIX] = sort.NewPriorityQueue[TV, TIX]()
			if raw {
				q = &rawQ[TV, TIX]{}
			}
			size := 0
			see := func() {
				top := q.Top()
				e := sc.el(top)
				cm.out.Put(M{"op": "see", "k": e[0], "i": e[1], "some": top != nil, "n": q.Len(), "empty": q.Empty()})
			}
			type kept struct {
				p *interfaces.Pair[TV, TIX]
				e el
			}
			var out []kept
			pop := func() {
				p := q.Pop()
				e := sc.el(p)
				size--
				cm.out.Put(M{"op": "pop", "k": e[0], "i": e[1]})
				out = append(out, kept{p, e})
			}
			see()
			for at, c := range calls {
				if c.op == "push" {
					q.Push(sc.k[c.k], sc.i[c.i])
					size++
					cm.out.Put(M{"op": "push", "k": c.k, "i": c.i})
				} else {
					if size == 0 {
						continue
					}
					pop()
				}
				if len(calls) < 200 || at%97 == 0 {
					see()
				}
			}
			for size > 0 {
				pop()
			}
			see()
			before, after := []el{}, []el{}
			for _, x := range out {
				before, after = append(before, x.e), append(after, sc.el(x.p))
			}
			cm.out.Put(M{"op": "kept", "before": before, "after": after})
		})
	}
}

func lines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func init() {
	cmds["psort"] = func(args []string) {
		fl, cm := common("psort")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var ins []ranged
		if *in != "" {
			lines(*in, func(b []byte) {
				var x []json.RawMessage
				must(json.Unmarshal(b, &x))
				var v ranged
				must(json.Unmarshal(x[0], &v.s))
				must(json.Unmarshal(x[1], &v.b))
				must(json.Unmarshal(x[2], &v.m))
				must(json.Unmarshal(x[3], &v.e))
				ins = append(ins, v)
			})
		}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 15)
			var v ranged
			kn, in2 := 4, 4
			if ins != nil {
				v = ins[i]
			} else {
				n := []int{r.N(12), 10 + r.N(15), 18 + r.N(8), 20 + r.N(40)}[r.N(4)]
				kn, in2 = 1+r.N(n+2), 1+r.N(n+2)
				for j := 0; j < n; j++ {
					v.s = append(v.s, el{r.N(kn), r.N(in2)})
				}
				switch r.N(4) {
				case 0: // in order already, or the other way round
					for a := range v.s {
						for c := 0; c < a; c++ {
							x, y := v.s[c], v.s[a]
							if (x[0] > y[0] || x[0] == y[0] && x[1] > y[1]) != (i%2 == 0) {
								v.s[c], v.s[a] = y, x
							}
						}
					}
				}
				v.b, v.e = 0, n
				if r.Bool() && n > 0 {
					v.b = r.N(n + 1)
					v.e = v.b + r.N(n+1-v.b)
				}
				v.m = v.b + r.N(v.e-v.b+1)
				if r.N(4) == 0 {
					v.m = mini(v.e, v.b+14+r.N(4))
				}
			}
			if v.s == nil {
				v.s = []el{}
			}
			cm.mark.Set(M{"case": i, "in": v.s, "b": v.b, "m": v.m, "e": v.e})
			cm.out.Put(M{"op": "cfg", "case": i})
			kind := r.N(4)
			cm.attempt(30*time.Second, func() {
				switch kind {
				case 0:
					psortAll[float32, uint32](cm, r, v, kn, in2)
				case 1:
					psortAll[float64, uint32](cm, r, v, kn, in2)
				case 2:
					psortAll[float32, uint64](cm, r, v, kn, in2)
				default:
					psortAll[float64, uint64](cm, r, v, kn, in2)
				}
			})
		}
		cm.out.Close()
	}
	cmds["psortbig"] = func(args []string) {
		fl, cm := common("psortbig")
		huge := fl.Int("huge", 4, "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 16)
			n := []int{15, 16, 17, 20, 21, 22, 99, 100, 101, 499, 500, 501, 502, 1000, 4095, 4096, 4097, 10000}[r.N(18)]
			if r.N(4) == 0 {
				n = 1 + r.N(30000)
			}
			if i%25 == 7 {
				n = 30000 + r.N(170000)
			}
			b, e := 0, n
			isHuge := i < *huge
			if isHuge {
				e = []int{5000000, 5000001, 4999999, 5000000}[i%4]
				n = e
				if i >= 4 { // within a larger slice
					b = 1 + r.N(20)
					n = b + e + r.N(20)
					e = b + e
				}
			} else if r.N(3) == 0 {
				b = r.N(n)
				e = b + r.N(n-b+1)
			}
			m := b + r.N(e-b+1)
			if isHuge {
				m = b + []int{3, 17, 5, 1, 16, 15, 2, 20}[i%8]
			} else if r.Bool() {
				m = mini(e, b+[]int{1, 2, 14, 15, 16, 17, 20}[r.N(7)])
			}
			keys := []int{1, 2, 10, n, 1 << 20}[r.N(5)]
			cm.mark.Set(M{"case": i, "n": n, "b": b, "m": m, "e": e, "keys": keys})
			cm.out.Put(M{"op": "cfg", "case": i})
			kind := r.N(4)
			cm.attempt(120*time.Second, func() {
				switch kind {
				case 0:
					psortBig[float32, uint32](cm, r, n, b, m, e, keys)
				case 1:
					psortBig[float64, uint32](cm, r, n, b, m, e, keys)
				case 2:
					psortBig[float32, uint64](cm, r, n, b, m, e, keys)
				default:
					psortBig[float64, uint64](cm, r, n, b, m, e, keys)
				}
				if !isHuge {
					slicesBig[uint32](cm, r, n, maxi(keys, 2))
					slicesBig[uint64](cm, r, n, maxi(keys, 2))
				}
			})
		}
		cm.out.Close()
	}
	cmds["heap"] = func(args []string) {
		fl, cm := common("heap")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var ins [][]qcall
		if *in != "" {
			lines(*in, func(b []byte) {
				var x [][]any
				must(json.Unmarshal(b, &x))
				h := []qcall{}
				for _, c := range x {
					h = append(h, qcall{c[0].(string), int(c[1].(float64)), int(c[2].(float64))})
				}
				ins = append(ins, h)
			})
		}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 17)
			var h []qcall
			n := 8
			if ins != nil {
				h = ins[i]
			} else {
				n = 1 + r.N(25)
				up := 1 + r.N(9)
				for k := r.N(120); k > 0; k-- {
					if r.N(10) < up {
						h = append(h, qcall{"push", r.N(n), r.N(n)})
					} else {
						h = append(h, qcall{op: "pop"})
					}
					if r.N(30) == 0 {
						up = 1 + r.N(9)
					}
				}
				if i%100 == 7 { // a long one
					n, h = 3+r.N(9), nil
					for k := 500 + r.N(3000); k > 0; k-- {
						h = append(h, qcall{"push", r.N(n), r.N(n)})
						if r.N(20) == 0 {
							h = append(h, qcall{op: "pop"})
						}
					}
				}
			}
			cm.mark.Set(M{"case": i, "calls": len(h)})
			switch r.N(4) {
			case 0:
				queueRun[float32, uint32](cm, r, i, h, n)
			case 1:
				queueRun[float64, uint32](cm, r, i, h, n)
			case 2:
				queueRun[float32, uint64](cm, r, i, h, n)
			default:
				queueRun[float64, uint64](cm, r, i, h, n)
			}
		}
		cm.out.Close()
	}
}

func maxi(a int, b ...int) int {
	for _, x := range b {
		if x > a {
			a = x
		}
	}
	return a
}
func mini(a, b int) int {
	if b < a {
		return b
	}
	return a
}
