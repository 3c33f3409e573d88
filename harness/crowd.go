package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// Indexes with very many items, trees, workers or elements. What is wrong with
// them is counted here and judged by spec/ForestTrace.tla.

// census counts what is wrong with the tree below a node.
func (f *File) census(x, n int, items map[int][]float64) []int {
	seen := map[int]int{}
	wrong, none := 0, 0
	var walk func(x, depth int) int
	walk = func(x, depth int) int {
		if x < n {
			seen[x]++
			if items[x] == nil {
				none++
			}
			return 1
		}
		if depth > 100000 || x >= f.N || len(seen) > 4*n+100 {
			wrong++
			return 0
		}
		kids := f.kids(x)
		below := 0
		for _, k := range kids {
			if k > 1<<40 {
				wrong++
				continue
			}
			below += walk(int(k), depth+1)
		}
		if depth > 0 && uint64(below) != f.nd(x) {
			wrong++
		}
		return below
	}
	if f.nd(x) != uint64(n) {
		wrong++
	}
	walk(x, 0)
	lost, twice := 0, 0
	for id := range items {
		if seen[id] == 0 {
			lost++
		} else if seen[id] > 1 {
			twice++
		}
	}
	return []int{lost, twice, none, wrong}
}

// asked judges one answer: <<asked, results, twice, no items, out of order,
// wrong distances, nearer items left out, default budget?>>.
func asked(c Cfg, items map[int][]float64, v []float64, k, budget int, ids []uint64, ds []float64) []int {
	a := []int{k, len(ids), 0, 0, 0, 0, 0, 0}
	if budget < 0 {
		a[7] = 1
	}
	nv := norm(v)
	far := func(id int) float64 { // smaller is nearer
		u := items[id]
		if c.Dist == "dot" {
			return -dot(u, v) / (nv * norm(u))
		}
		return 2 - 2*dot(u, v)/(nv*norm(u))
	}
	eps := 1e-6
	if c.TV == "f64" {
		eps = 1e-14
	}
	tol := eps * float64(c.Dim+10)
	last := math.Inf(-1)
	seen := map[int]bool{}
	for j, x := range ids {
		id := int(x)
		if seen[id] {
			a[2]++
		}
		seen[id] = true
		if items[id] == nil {
			a[3]++
			continue
		}
		got := ds[j] * ds[j]
		if c.Dist == "dot" {
			got = -ds[j] / (nv * norm(items[id]))
			if j > 0 && ds[j] > ds[j-1] {
				a[4]++
			}
		} else if j > 0 && ds[j] < ds[j-1] {
			a[4]++
		}
		want := far(id)
		if !(math.Abs(got-want) <= tol) {
			a[5]++
		}
		worst := want
		if c.Dist == "dot" {
			worst = -dot(items[id], v)
		}
		last = math.Max(last, worst)
	}
	if len(ids) < len(items) {
		for id := range items {
			if !seen[id] {
				d, t := far(id), 2*tol
				if c.Dist == "dot" {
					d, t = -dot(items[id], v), 2*tol*nv*norm(items[id])*8
				}
				if d < last-t {
					a[6]++
				}
			}
		}
	}
	return a
}

func crowdCase(cm *Common, r *Rand, i int) {
	c := genCfg(r)
	c.Bld, c.Verbose = false, false
	n, q, w := 0, 1, 1
	switch i % 5 {
	case 0: // items
		n, q, w = 65537+r.N(9000), 1+r.N(2), 1+r.N(2)
		c.Dim = 1 + r.N(3)
	case 1: // trees
		n, q, w = 10+r.N(60), 257+r.N(400), []int{1, 4}[r.N(2)]
		c.Dim = 1 + r.N(10)
	case 2: // elements
		n, q, w = 3+r.N(40), 1+r.N(3), 1+r.N(3)
		c.Dim = []int{2049, 5000, 20000, 40001}[r.N(4)]
	case 3: // items and trees
		n, q, w = 10000+r.N(30000), 3+r.N(4), 3+r.N(5)
		c.Dim = 2 + r.N(4)
	case 4: // workers
		n, q, w = 10+r.N(60), 60+r.N(600), 65+r.N(200)
		c.Dim = 1 + r.N(10)
		c.Multi = true
	}
	if c.Dist == "ang" && c.Dim == 1 {
		c.Dim = 2
	}
	cm.mark.Set(M{"case": i, "cfg": c, "n": n, "q": q, "w": w})
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": n, "q": q, "w": w, "family": "generic"})
	cm.attempt(300*time.Second, func() {
		vs := data(r, n, c.Dim, "generic")
		order := spread(r, n, []string{"dense", "dense", "reverse", "shuffle"}[r.N(4)])
		items := map[int][]float64{}
		for k, id := range order {
			items[id] = vs[k]
		}
		path := filepath.Join(cm.dir, fmt.Sprintf("c%d.ann", i))
		defer os.Remove(path)
		x := Make(c, nil)
		first := x
		defer first.Close()
		fill(x, items, order)
		x.Build(q, w)
		all := make([]int, 0, n)
		for id := range items {
			all = append(all, id)
		}
		sort.Ints(all)
		changed := func() (cnt int) {
			for _, id := range all {
				v := x.Get(uint64(id))
				same := len(v) == c.Dim
				for k := 0; same && k < c.Dim; k++ {
					same = v[k] == items[id][k]
				}
				if !same {
					cnt++
				}
			}
			return
		}
		answers := [][]int{}
		queries := []int{all[r.N(n)], -1, all[n-1], -1}
		probe := data(r, 1, c.Dim, "generic")[0]
		some := 1 + r.N(n)
		search := func() (hs []string) {
			ctx := x.Ctx()
			for j, id := range queries {
				k := []int{n, some, n + 5, some}[j]
				budget := 1 << 40
				if j == 3 {
					budget = -1
				}
				v := probe
				var ids []uint64
				var ds []float64
				if id < 0 {
					ids, ds = x.ByVec(v, k, budget, ctx)
				} else {
					v = items[id]
					ids, ds = x.ByItem(uint64(id), k, budget, ctx)
				}
				answers = append(answers, asked(c, items, v, k, budget, ids, ds))
				hs = append(hs, hash(fmt.Sprint(ids, ds)))
			}
			return
		}
		m := M{"op": "crowd", "count": n, "q": q, "changed": changed()}
		before := search()
		need(x.Save(path))
		f, err := readFile(c, path)
		need(err)
		trees := [][]int{}
		for j := 0; j < f.rootCount(n); j++ {
			trees = append(trees, f.census(f.N-1-j, n, items))
		}
		unlaid := f.rest
		for _, id := range all {
			if id >= f.N || f.nd(id) != 1 {
				unlaid++
				continue
			}
			v := f.vec(id)
			for k := range v {
				if v[k] != items[id][k] {
					unlaid++
					break
				}
			}
		}
		reloaded := changed()
		after := search()
		y := Make(c, nil)
		defer y.Close()
		need(y.Load(path))
		x = y
		reloaded += changed()
		after = append(after, search()...)
		differ := 0
		for j := range after {
			if before[j%len(before)] != after[j] {
				differ++
			}
		}
		m["reloaded"] = reloaded
		m["differ"], m["trees"], m["unlaid"], m["answers"] = differ, trees, unlaid, answers
		cm.out.Put(m)
	})
}

func init() {
	cmds["crowd"] = func(args []string) {
		fl, cm := common("crowd")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			crowdCase(cm, cm.rand(i, 67), i)
		}
		cm.out.Close()
	}
}
