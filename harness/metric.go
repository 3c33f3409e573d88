package main

import (
	"encoding/json"
	"math"
	"path/filepath"
	"sort"
	"time"
)

// Distances that indexes report. Judged by spec/MetricTrace.tla.

type dpair struct{ u, v []int }

// distances of pairs of items, each from where they are reported.
type distSource struct {
	name string
	of   func(i, j int) (float64, bool)
}

// sources gives the ways in which x (built, n items with vectors vs) reports
// the distance of two items.
func sources(r *Rand, x Ix, c Cfg, vs [][]float64) []distSource {
	n := len(vs)
	byItem := map[int]map[int]float64{}
	byVec := map[int]map[int]float64{}
	table := func(m map[int]map[int]float64, vec bool) func(i, j int) (float64, bool) {
		return func(i, j int) (float64, bool) {
			if m[i] == nil {
				m[i] = map[int]float64{}
				var ids []uint64
				var ds []float64
				if vec {
					q := make([]float64, len(vs[i]))
					s := []float64{1, 2, 0.5, 1.0 / 3, 10}[r.N(5)]
					for k := range q {
						q[k] = vs[i][k] * s
					}
					ids, ds = x.ByVec(q, n, 1<<30, x.Ctx())
				} else {
					ids, ds = x.ByItem(uint64(i), n, 1<<30, x.Ctx())
				}
				for k := range ids {
					m[i][int(ids[k])] = ds[k]
				}
			}
			d, ok := m[i][j]
			return d, ok
		}
	}
	return []distSource{
		{"GetDistance", func(i, j int) (float64, bool) { return x.Dist(uint64(i), uint64(j)), true }},
		{"by item", table(byItem, false)},
		{"by vector", table(byVec, true)},
	}
}

func metricIndex(cm *Common, r *Rand, i int, vs [][]float64) (Ix, Cfg) {
	c := Cfg{TV: []string{"f32", "f64"}[r.N(2)], TIX: []string{"u32", "u64"}[r.N(2)], Dist: "ang", Dim: len(vs[0]),
		Multi: r.N(3) == 0, Loader: []string{"mmap", "gc"}[r.N(2)], Seed: 1 + uint64(r.N(1000))}
	if r.Bool() {
		c.Hint = r.N(2 * len(vs))
	}
	x := Make(c, nil)
	for k, v := range vs {
		x.Add(uint64(k), v)
	}
	x.Build(1+r.N(4), 1+r.N(3))
	if r.N(3) == 0 {
		p := filepath.Join(cm.dir, "metric.ann")
		need(x.Save(p))
		need(x.Load(p))
	}
	return x, c
}

func metricPairs(cm *Common, r *Rand, i int, ps []dpair) {
	at := map[string]int{}
	var vs [][]float64
	var us [][]int
	id := func(u []int) int {
		b, _ := json.Marshal(u)
		if k, ok := at[string(b)]; ok {
			return k
		}
		s := []float64{1, 1, 3, 1.0 / 1024, 1000, 0.1, 7.25e-3}[r.N(7)]
		v := make([]float64, len(u))
		for k := range u {
			v[k] = float64(u[k]) * s
			if v[k] == 0 && r.Bool() {
				v[k] = math.Copysign(0, -1)
			}
		}
		at[string(b)] = len(vs)
		vs, us = append(vs, v), append(us, u)
		return len(vs) - 1
	}
	type ij struct{ i, j int }
	var is []ij
	for _, p := range ps {
		is = append(is, ij{id(p.u), id(p.v)})
	}
	x, c := metricIndex(cm, r, i, vs)
	defer x.Close()
	cm.out.Put(M{"op": "cfg", "case": i, "cfg": c, "items": len(vs)})
	for _, s := range sources(r, x, c, vs) {
		var ds []float64
		for _, p := range is {
			d, ok := s.of(p.i, p.j)
			if !ok { // search is judged elsewhere
				d = math.Sqrt(2)
				ds = append(ds, math.NaN())
				continue
			}
			ds = append(ds, d)
			num := !math.IsNaN(d) && !math.IsInf(d, 0)
			m := 0
			if num {
				m = int(math.Round(1000 * (1 - d*d/2)))
				if m > 1100 {
					m = 1100
				}
				if m < -1100 {
					m = -1100
				}
			}
			cm.out.Put(M{"op": "pair", "from": s.name, "u": us[p.i], "v": us[p.j], "c": m, "number": num,
				"inside": d >= 0 && d <= 2.000001, "near": d < 0.003})
		}
		for n := 0; n < len(is)/2; n++ {
			a, b := r.N(len(is)), r.N(len(is))
			if math.IsNaN(ds[a]) || math.IsNaN(ds[b]) {
				continue
			}
			cm.out.Put(M{"op": "order", "from": s.name, "u": us[is[a].i], "v": us[is[a].j], "w": us[is[b].i], "x": us[is[b].j],
				"less": ds[a] < ds[b], "more": ds[a] > ds[b]})
		}
	}
}

// Vectors of all lengths and moderate magnitudes.
func metricFacts(cm *Common, r *Rand, i int) {
	dim := []int{1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 100, 257, 1 + r.N(400)}[r.N(15)]
	n := 4 + r.N(30)
	var vs [][]float64
	for k := 0; k < n; k++ {
		v := make([]float64, dim)
		mag := math.Pow(10, float64(r.N(7)-3))
		for z := range v {
			v[z] = r.Norm() * mag
		}
		if k > 0 {
			o := vs[r.N(k)]
			switch r.N(8) {
			case 0: // nearly the same direction
				for z := range v {
					v[z] = o[z] * (1 + 1e-3*r.Norm())
				}
			case 1: // the opposite one
				s := -0.1 - 3*r.F()
				for z := range v {
					v[z] = o[z] * s
				}
			case 2: // the same one
				s := 0.1 + 3*r.F()
				for z := range v {
					v[z] = o[z] * s
				}
			case 3: // sparse
				for z := range v {
					if z != k%dim {
						v[z] = 0
					}
				}
			case 4:
				if r.N(3) == 0 {
					for z := range v {
						v[z] = 0
					}
				}
			}
		}
		for z := range v {
			v[z] = float64(float32(v[z]))
		}
		vs = append(vs, v)
	}
	x, c := metricIndex(cm, r, i, vs)
	defer x.Close()
	cm.out.Put(M{"op": "cfg", "case": i, "cfg": c, "items": n})
	eps := 1.2e-7
	if c.TV == "f64" {
		eps = 2.3e-16
	}
	tol := eps * float64(2*dim+20) // of the cosine
	for _, s := range sources(r, x, c, vs) {
		e := M{"op": "facts", "from": s.name, "number": true, "inside": true, "right": true, "symmetric": true, "ordered": true, "triangle": true}
		type cd struct{ exact, d float64 }
		var all []cd
		D := func(a, b int) float64 {
			d, ok := s.of(a, b)
			if !ok {
				d = math.Sqrt(angSq(vs[a], vs[b]))
			}
			return d
		}
		for a := range vs {
			for b := range vs {
				d := D(a, b)
				d2 := D(b, a)
				exact := 1 - angSq(vs[a], vs[b])/2
				if math.IsNaN(d) || math.IsInf(d, 0) {
					e["number"] = false
				}
				if !(d >= 0 && d <= 2+4*eps) {
					e["inside"] = false
				}
				if math.Abs(1-d*d/2-exact) > tol {
					e["right"] = false
				}
				if math.Abs(d*d-d2*d2) > 4*tol {
					e["symmetric"] = false
				}
				all = append(all, cd{exact, d})
				w := r.N(n)
				if via := D(a, w) + D(w, b); d > via+4*math.Sqrt(tol) {
					e["triangle"] = false
				}
			}
		}
		sort.Slice(all, func(p, q int) bool { return all[p].exact > all[q].exact })
		far := -1.0 // the largest distance of those whose cosine is clearly larger
		k := 0
		for _, p := range all {
			for all[k].exact > p.exact+2*tol {
				far = math.Max(far, all[k].d)
				k++
			}
			if p.d < far {
				e["ordered"] = false
			}
		}
		cm.out.Put(e)
	}
}

func init() {
	cmds["metric"] = func(args []string) {
		fl, cm := common("metric")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var ins []dpair
		if *in != "" {
			lines(*in, func(b []byte) {
				var x [][]int
				must(json.Unmarshal(b, &x))
				ins = append(ins, dpair{x[0], x[1]})
			})
		}
		const per = 250
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 19)
			cm.mark.Set(M{"case": i})
			cm.attempt(60*time.Second, func() {
				if ins == nil {
					metricFacts(cm, r, i)
				} else {
					metricPairs(cm, r, i, ins[i*per:mini(len(ins), (i+1)*per)])
				}
			})
		}
		cm.out.Close()
	}
}
