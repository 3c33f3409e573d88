package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"time"
)

// How the items are divided by the splits. Checked against spec/DivideTrace.tla.

// groupsOf makes n items in two groups: items of a group differ little in
// direction, those of different groups a lot. The groups come one after the
// other, taking turns, or mixed.
func groupsOf(r *Rand, n, dim int, spread float64) (vs [][]float64, group []int) {
	var mid [][]float64
	for len(mid) < 2 {
		v := make([]float64, dim)
		for k := range v {
			v[k] = r.Norm()
		}
		l := norm(v)
		for k := range v {
			v[k] /= l
		}
		if len(mid) == 0 || dot(mid[0], v) < 0.3 {
			mid = append(mid, v)
		}
	}
	first, turns := n*(25+r.N(51))/100, r.N(3)
	for i := 0; i < n; i++ {
		k := 0
		switch {
		case turns == 0:
			k = i % 2
		case i >= first:
			k = 1
		}
		v := make([]float64, dim)
		s := math.Pow(2, 3*r.F()-1.5)
		for j := range v {
			v[j] = float64(float32(s * (mid[k][j] + r.Norm()*spread/math.Sqrt(float64(dim)))))
		}
		vs, group = append(vs, v), append(group, k)
	}
	if turns == 2 {
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			vs[i], vs[j], group[i], group[j] = vs[j], vs[i], group[j], group[i]
		}
	}
	return
}

// under lists the items below a node.
func (f *File) under(x, n, depth int, to []int) []int {
	if x < n {
		return append(to, x)
	}
	if depth > 100000 || x >= f.N {
		panic("the file holds no forest")
	}
	for _, k := range f.kids(x) {
		to = f.under(int(k), n, depth+1, to)
	}
	return to
}

// splits visits the splits below a node.
func (f *File) splits(x, n, depth int, visit func(x int, l, r []int)) []int {
	if x < n {
		return []int{x}
	}
	if depth > 100000 || x >= f.N {
		panic("the file holds no forest")
	}
	if f.nd(x) <= uint64(f.l.K) {
		return f.under(x, n, depth, nil)
	}
	l := f.splits(int(f.kid(x, 0)), n, depth+1, visit)
	r := f.splits(int(f.kid(x, 1)), n, depth+1, visit)
	visit(x, l, r)
	return append(append([]int{}, l...), r...)
}

func divideCase(cm *Common, r *Rand, i int) {
	c := genCfg(r)
	c.Bld = false
	what := []string{"hard", "hard", "groups", "groups", "open"}[i%5]
	fam := what
	var vs [][]float64
	group := []int{}
	n, q := 0, 1+r.N(3)
	parted := false
	switch what {
	case "hard":
		c.Dim = []int{1, 2, 2, 3, 5, 10, 30}[r.N(7)]
		n = layoutOf(c).K + 1 + r.N(300)
		if i%4 == 0 {
			n = 300 + r.N(1500)
		}
		fam = families[r.N(len(families))]
		vs = data(r, n, c.Dim, fam)
	case "groups":
		c.Dim = []int{8, 10, 13, 20, 40, 100}[r.N(6)]
		n, q = layoutOf(c).K+20+r.N(200), 30
		vs, group = groupsOf(r, n, c.Dim, []float64{0, 0.01, 0.05}[r.N(3)])
		parted = true
	case "open":
		c.Dim = []int{3, 5, 8, 13, 20, 40}[r.N(6)]
		n, q = 100+r.N(400), 10
		vs = data(r, n, c.Dim, "generic")
	}
	w := []int{1, 1, 2, 4}[r.N(4)]
	cm.mark.Set(M{"case": i, "cfg": c, "n": n, "q": q, "w": w, "family": fam})
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": n, "q": q, "w": w, "family": fam})
	cm.attempt(120*time.Second, func() {
		items, grp := map[int][]float64{}, map[int]int{}
		order := spread(r, n, []string{"dense", "dense", "reverse", "shuffle"}[r.N(4)])
		for k, id := range order {
			items[id] = vs[k]
			if len(group) > 0 {
				grp[id] = group[k]
			}
		}
		rescale(r, items)
		path := filepath.Join(cm.dir, fmt.Sprintf("d%d.ann", i))
		defer os.Remove(path)
		b := buildOne(c, items, order, q, w, 0, r.U64(), path)
		defer b.ix.Close()
		f := b.file
		splits, tops := [][]int{}, [][]int{}
		for root := f.N - q; root < f.N && n > f.l.K; root++ {
			f.splits(root, n, 0, func(x int, l, rr []int) {
				v := f.vec(x)
				nn, wrong, zero := norm(v), 0, 0
				if nn == 0 {
					zero = 1
				}
				for side, ids := range [][]int{l, rr} {
					for _, id := range ids {
						mg := f.margin(x, items[id])
						tol := 1e-5 * (norm(items[id])*nn*math.Sqrt(float64(f.l.dim)) + 1e-30)
						if side == 0 && mg > tol || side == 1 && mg < -tol {
							wrong++
						}
					}
				}
				splits = append(splits, []int{len(l), len(rr), zero, wrong})
				if x == root && what == "groups" {
					t := []int{0, 0, 0, 0}
					for _, id := range l {
						t[grp[id]]++
					}
					for _, id := range rr {
						t[2+grp[id]]++
					}
					tops = append(tops, t)
				}
			})
		}
		cm.out.Put(M{"op": "divided", "what": what, "n": n, "K": f.l.K, "splits": splits, "tops": tops, "parted": parted})
	})
}

func init() {
	cmds["divide"] = func(args []string) {
		fl, cm := common("divide")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			divideCase(cm, cm.rand(i, 57), i)
		}
		cm.out.Close()
	}
}
