package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
)

// An independent reading of index files, from the documented layout: equally
// sized nodes; {n_descendants, children[2] or norm, [dot factor], vector}.

type Layout struct {
	ts, vs, dim     int
	dot             bool
	nd, kids, df, v int // offsets
	size, K         int
}

func align(n, a int) int { return (n + a - 1) / a * a }

func layoutOf(c Cfg) Layout {
	l := Layout{ts: c.tixSize(), vs: c.tvSize(), dim: c.Dim, dot: c.Dist == "dot"}
	l.kids = l.ts
	l.v = align(3*l.ts, l.vs)
	if l.dot {
		l.df = l.v
		l.v += l.vs
	}
	l.size = l.v + l.dim*l.vs
	l.K = (l.size - l.kids) / l.ts
	return l
}

func (l Layout) tix(b []byte) uint64 {
	if l.ts == 8 {
		return binary.LittleEndian.Uint64(b)
	}
	return uint64(binary.LittleEndian.Uint32(b))
}
func (l Layout) putTix(b []byte, x uint64) {
	if l.ts == 8 {
		binary.LittleEndian.PutUint64(b, x)
	} else {
		binary.LittleEndian.PutUint32(b, uint32(x))
	}
}
func (l Layout) tv(b []byte) float64 {
	if l.vs == 8 {
		return math.Float64frombits(binary.LittleEndian.Uint64(b))
	}
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
}
func (l Layout) putTv(b []byte, x float64) {
	if l.vs == 8 {
		binary.LittleEndian.PutUint64(b, math.Float64bits(x))
	} else {
		binary.LittleEndian.PutUint32(b, math.Float32bits(float32(x)))
	}
}

type File struct {
	l    Layout
	data []byte
	N    int // nodes
	rest int // bytes that are no whole node
}

func readFile(c Cfg, path string) (*File, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	l := layoutOf(c)
	return &File{l: l, data: b, N: len(b) / l.size, rest: len(b) % l.size}, nil
}

func (f *File) node(i int) []byte { return f.data[i*f.l.size : (i+1)*f.l.size] }
func (f *File) nd(i int) uint64   { return f.l.tix(f.node(i)) }
func (f *File) kid(i, k int) uint64 {
	return f.l.tix(f.node(i)[f.l.kids+k*f.l.ts:])
}

// kids of a node that is no item: two for a split, else as many as it counts.
func (f *File) kids(i int) []uint64 {
	n := f.nd(i)
	if n > uint64(f.l.K) {
		n = 2
	}
	r := []uint64{}
	for k := 0; k < int(n); k++ {
		r = append(r, f.kid(i, k))
	}
	return r
}
func (f *File) vec(i int) []float64 {
	r := make([]float64, f.l.dim)
	for k := range r {
		r[k] = f.l.tv(f.node(i)[f.l.v+k*f.l.vs:])
	}
	return r
}
func (f *File) norm(i int) float64 { return f.l.tv(f.node(i)[f.l.kids:]) }
func (f *File) df(i int) float64 {
	if !f.l.dot {
		return 0
	}
	return f.l.tv(f.node(i)[f.l.df:])
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}
func norm(a []float64) float64 { return math.Sqrt(dot(a, a)) }

// margin of v to the split node i, in double precision.
func (f *File) margin(i int, v []float64) float64 {
	d := f.df(i)
	return dot(f.vec(i), v) + d*d
}

// treeHash identifies a tree by its shape, hyperplanes and items: not by where
// its nodes lie.
func (f *File) treeHash(i, n int, depth int) string {
	if i < n {
		return fmt.Sprintf("i%d", i)
	}
	if depth > 10000 || i >= f.N {
		return "broken"
	}
	if f.nd(i) <= uint64(f.l.K) {
		return hash("b", f.kids(i))
	}
	k := f.kids(i)
	if k[0] >= uint64(f.N) || k[1] >= uint64(f.N) || depth > 0 && (int(k[0]) == i || int(k[1]) == i) {
		return "broken"
	}
	return hash("s", f.vec(i), f.treeHash(int(k[0]), n, depth+1), f.treeHash(int(k[1]), n, depth+1))
}

// rootCount as the layout has it: the last node is a copy of a root.
func (f *File) rootCount(n int) int {
	c := 0
	for i := n; i < f.N; i++ {
		if f.nd(i) == uint64(n) {
			c++
		}
	}
	return c / 2
}

// maxReach is how many ids must be distinguishable: all node numbers fit an int.
func (f *File) treeHashes(n, q int) []string {
	r := []string{}
	for i := f.N - q; i < f.N; i++ {
		if i >= n && i >= 0 {
			r = append(r, f.treeHash(i, n, 0))
		}
	}
	sort.Strings(r)
	return r
}

// describe gives everything ForestTrace looks at.
func (f *File) describe(items map[int][]float64, span int, q int, signs bool) M {
	ids := []int{}
	for id := range items {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	cap31 := func(x uint64) int {
		if x > 1<<30 {
			return 1 << 30
		}
		return int(x)
	}
	its := [][]int{}
	longest, unlifted := 0.0, []int{} // squared; dot product items that are not lifted onto one sphere
	for _, v := range items {
		longest = math.Max(longest, dot(v, v))
	}
	for _, id := range ids {
		if f.l.dot && id < f.N && longest < 1e38 {
			if d := f.df(id); !(d >= 0 && math.Abs(dot(items[id], items[id])+d*d-longest) <= 1e-5*longest+1e-30) {
				unlifted = append(unlifted, id)
			}
		}
		if id >= f.N {
			its = append(its, []int{id, -1, 0, 0})
			continue
		}
		vok, nok := 1, 1
		v := f.vec(id)
		for k := range v {
			if math.Float64bits(v[k]) != math.Float64bits(items[id][k]) {
				vok = 0
			}
		}
		if !f.l.dot {
			want := dot(items[id], items[id])
			got := f.norm(id)
			if math.Abs(got-want) > 1e-4*want+1e-30 && !(math.IsInf(got, 0) && want > 3e38) {
				nok = 0
			}
		}
		its = append(its, []int{id, cap31(f.nd(id)), vok, nok})
	}
	gapbad := []int{}
	for i := 0; i < span && i < f.N; i++ {
		if items[i] == nil && f.nd(i) != 0 {
			gapbad = append(gapbad, i)
		}
	}
	nodes := []M{}
	for i := span; i < f.N; i++ {
		kids := []int{}
		for _, k := range f.kids(i) {
			kids = append(kids, cap31(k))
		}
		split := f.nd(i) > uint64(f.l.K)
		m := M{"d": cap31(f.nd(i)), "k": kids, "h": hash(f.node(i)), "s": split}
		if split {
			v := f.vec(i)
			nn := norm(v)
			unit := 1
			if nn == 0 {
				unit = 0
			} else if !(math.Abs(nn-1) < 1e-3) {
				unit = 2
			}
			m["u"] = unit
			sg := []int{}
			if signs {
				for _, id := range ids {
					mg := f.margin(i, items[id])
					tol := 1e-5 * (norm(items[id])*nn*math.Sqrt(float64(f.l.dim)) + 1e-30)
					s := 0
					if mg > tol {
						s = 1
					} else if mg < -tol {
						s = -1
					}
					sg = append(sg, s)
				}
			}
			m["sg"] = sg
		} else {
			m["u"], m["sg"] = 0, []int{}
		}
		nodes = append(nodes, m)
	}
	return M{"op": "forest", "n": span, "ids": ids, "q": q, "K": f.l.K, "N": f.N, "rest": f.rest,
		"items": its, "gapbad": gapbad, "unlifted": unlifted, "nodes": nodes, "signs": signs, "copies": f.rootCount(span)}
}
