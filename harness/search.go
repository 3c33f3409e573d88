package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Searches, judged by spec/SearchTrace.tla against what the file holds: its
// trees (for which parts a bounded search has to visit) and its items (for the
// true distances), both computed here in double precision.

const (
	effInf  = 1000000000
	effUnit = 1000000   // margins between unit vectors
	dUnit   = 100000000 // squared distances, or inner products of unit vectors
)

type leafT struct {
	Sz int   `json:"sz"`
	It []int `json:"it"`
}

// walk visits the leaves of the trees in a fixed order. margin gives the margin
// of the query to a split node (may be nil).
func (f *File) walk(n, q int, margin func(node int) float64, leaf func(sz int, items []int, eff float64)) {
	isItem := func(x uint64) bool { return x < uint64(n) && f.nd(int(x)) == 1 }
	var rec func(x int, eff float64, depth int)
	rec = func(x int, eff float64, depth int) {
		if depth > 100000 || x >= f.N {
			panic("harness: broken tree")
		}
		d := f.nd(x)
		switch {
		case x < n:
			if d == 1 {
				leaf(1, []int{x}, eff)
			} else {
				leaf(0, []int{}, eff)
			}
		case d <= uint64(f.l.K):
			its := []int{}
			seen := map[int]bool{}
			for _, k := range f.kids(x) {
				if isItem(k) && !seen[int(k)] {
					its = append(its, int(k))
					seen[int(k)] = true
				}
			}
			leaf(int(d), its, eff)
		default:
			m := 0.0
			if margin != nil {
				m = margin(x)
			}
			rec(int(f.kid(x, 0)), math.Min(eff, -m), depth+1)
			rec(int(f.kid(x, 1)), math.Min(eff, m), depth+1)
		}
	}
	for x := f.N - q; x < f.N; x++ {
		rec(x, math.Inf(1), 0)
	}
}

// oracle is what is known of an index from its file.
type oracle struct {
	f        *File
	c        Cfg
	n, q     int
	ids      []int
	vecs     map[int][]float64
	maxNorm  float64
	maxSplit float64
	exact    bool // margins are small integers
	tol      int
	dtol     int
}

func newOracle(f *File, c Cfg, items map[int][]float64, n, q int, exact bool) *oracle {
	o := &oracle{f: f, c: c, n: n, q: q, vecs: items, exact: exact, ids: []int{}}
	for id := range items {
		o.ids = append(o.ids, id)
		o.maxNorm = math.Max(o.maxNorm, norm(items[id]))
	}
	sort.Ints(o.ids)
	for x := n; x < f.N; x++ {
		if f.nd(x) > uint64(f.l.K) {
			o.maxSplit = math.Max(o.maxSplit, norm(f.vec(x)))
		}
	}
	eps := 1.0
	if c.TV == "f64" {
		eps = 0
	}
	o.tol = 1 + int(eps*float64(c.Dim)/4)
	o.dtol = 2 + int(eps*12*float64(c.Dim+10))
	if exact {
		o.tol = 0
	}
	return o
}

func (o *oracle) forest() M {
	ls := []leafT{}
	o.f.walk(o.n, o.q, nil, func(sz int, items []int, _ float64) { ls = append(ls, leafT{sz, items}) })
	return M{"op": "forest", "ids": o.ids, "q": o.q, "leaf": ls, "dot": o.c.Dist == "dot"}
}

func (o *oracle) eff(v []float64) []int {
	nv := norm(v)
	scale := nv * o.maxSplit
	if scale == 0 {
		scale = 1
	}
	res := []int{}
	margin := func(x int) float64 {
		m := o.f.margin(x, v)
		if o.exact {
			return m
		}
		return m / scale * effUnit
	}
	o.f.walk(o.n, o.q, margin, func(_ int, _ []int, e float64) {
		if e > effInf {
			e = effInf
		}
		if e < -effInf {
			e = -effInf
		}
		res = append(res, int(math.Round(e)))
	})
	return res
}

// true distance, small is near: squared angular distance, or minus the inner
// product over the largest possible one.
func (o *oracle) dist(v, w []float64) int {
	if o.c.Dist == "dot" {
		s := norm(v) * o.maxNorm
		if s == 0 {
			return 0
		}
		return int(math.Round(-dot(v, w) / s * dUnit))
	}
	return int(math.Round(angSq(v, w) * dUnit))
}

func angSq(v, w []float64) float64 {
	nv, nw := norm(v), norm(w)
	if nv == 0 || nw == 0 {
		return 2
	}
	// |v/nv - w/nw|^2, which does not cancel
	s := 0.0
	for i := range v {
		d := v[i]/nv - w[i]/nw
		s += d * d
	}
	return s
}

// reported distance in the same unit.
func (o *oracle) reported(v []float64, d float64) int {
	if math.IsNaN(d) || math.IsInf(d, 0) {
		return 2000000000
	}
	var x float64
	if o.c.Dist == "dot" {
		s := norm(v) * o.maxNorm
		if s == 0 {
			s = 1
		}
		x = -d / s * dUnit
	} else {
		x = d * math.Abs(d) * dUnit
	}
	return int(math.Round(math.Max(-2e9, math.Min(2e9, x))))
}

func capInt(x int) int {
	if x > 10000000 {
		return 10000000
	}
	if x < -1000 {
		return -1000
	}
	return x
}

type query struct {
	v    []float64
	id   int // >= 0: by item
	k, b int
	self int // the stored item in general position that is asked for, else -1
}

func (q query) key() string {
	return hash(q.v) + fmt.Sprintf("/%d/%d", q.k, q.b)
}

type answer struct {
	q      query
	st     string
	out    string
	msg    string
	ids    []uint64
	ds     []float64
	later  func() ([]uint64, []float64)
	ctxTag string
}

func (a *answer) hash() string {
	return a.out + hash(fmt.Sprint(a.ids), a.ds)
}

func ask(x Ix, q query, st string, ctx any) *answer {
	a := &answer{q: q, st: st}
	a.out, a.msg = guard(func() error {
		a.later = x.Ask(q.v, q.id, q.k, q.b, ctx)
		return nil
	})
	if a.out == "ok" {
		a.ids, a.ds = a.later()
	}
	return a
}

func (o *oracle) event(a *answer) M {
	q := a.q
	D := []int{}
	for _, id := range o.ids {
		D = append(D, o.dist(q.v, o.vecs[id]))
	}
	res, rd := []int{}, []int{}
	asc, nan := true, false
	for i, id := range a.ids {
		if id > 1<<30 {
			id = 1 << 30
		}
		res = append(res, int(id))
		rd = append(rd, o.reported(q.v, a.ds[i]))
		if a.ds[i] != a.ds[i] {
			nan = true
		}
		if i > 0 && (o.c.Dist == "dot" && a.ds[i-1] < a.ds[i] || o.c.Dist != "dot" && a.ds[i-1] > a.ds[i]) {
			asc = false
		}
	}
	return M{"op": "query", "st": a.st, "key": q.key(), "k": capInt(q.k), "b": capInt(q.b), "eff": o.eff(q.v), "tol": o.tol,
		"D": D, "dtol": o.dtol, "res": res, "rd": rd, "asc": asc, "nan": nan, "out": a.out, "msg": a.msg, "hash": a.hash(),
		"self": q.self, "grp": hash(q.v) + fmt.Sprint("/", q.k), "lens": len(a.ids) == len(a.ds)}
}

func short(a *answer) M {
	return M{"op": "answer", "st": a.st, "key": a.q.key(), "hash": a.hash()}
}

// queries makes queries of all kinds.
func queries(r *Rand, c Cfg, items map[int][]float64, order []int, q int, total int, generic bool, count int) []query {
	var res []query
	n := len(items)
	r32 := func(v []float64) []float64 {
		for i := range v {
			v[i] = float64(float32(v[i]))
		}
		return v
	}
	for len(res) < count {
		v := make([]float64, c.Dim)
		id, self := -1, -1
		kind := r.N(10)
		if n == 0 && kind < 6 {
			kind = 7
		}
		switch kind {
		case 0, 1: // a stored vector
			s := order[r.N(n)]
			copy(v, items[s])
			if generic {
				self = s
			}
		case 2, 3: // an item
			id = order[r.N(n)]
			copy(v, items[id])
			if generic {
				self = id
			}
		case 4, 5: // near a stored vector
			s := items[order[r.N(n)]]
			for i := range v {
				v[i] = s[i] + 0.05*r.Norm()*(1e-3+math.Abs(s[i]))
			}
			r32(v)
		case 6: // a multiple of a stored vector
			if n > 0 {
				s := items[order[r.N(n)]]
				f := []float64{-1, 2, 0.5, 4}[r.N(4)]
				for i := range v {
					v[i] = s[i] * f
				}
			}
		case 7: // anything
			for i := range v {
				v[i] = r.Norm()
			}
			r32(v)
		case 8: // one coordinate
			v[r.N(c.Dim)] = 1 - 2*float64(r.N(2))
		case 9:
			if r.N(3) > 0 { // zero
				break
			}
			for i := range v {
				v[i] = r.Norm() * 100
			}
			r32(v)
		}
		ks := []int{1, 1, 2, 3, 5, 10, n - 1, n, n + 3, 0, 1 << 31, math.MaxInt}
		bs := []int{-1, -1, -1, 1, 2, 3, 5, q, total / 3, total / 2, total - 1, total, total + 9, n * q, 0, math.MaxInt}
		for j := 0; j < 4; j++ {
			k, b := ks[r.N(len(ks))], bs[r.N(len(bs))]
			if k < 0 {
				k = 1
			}
			if j == 1 && len(res) > 0 {
				k = res[len(res)-1].k
			}
			if b < -1 {
				b = 1
			}
			if j == 0 && self >= 0 {
				k, b = 1, -1
			}
			res = append(res, query{v: v, id: id, k: k, b: b, self: self})
		}
	}
	return res
}

// fingerprint of what is seen of the items.
func itemsHash(x Ix, ids []int) string {
	all := []any{}
	for _, id := range ids {
		all = append(all, x.Get(uint64(id)))
	}
	return hash(all...)
}

func distEvent(r *Rand, o *oracle, x Ix, count int) M {
	ps := [][]int{}
	if len(o.ids) > 0 {
		for j := 0; j < count; j++ {
			a, b := o.ids[r.N(len(o.ids))], o.ids[r.N(len(o.ids))]
			if j == 0 {
				b = a
			}
			got := x.Dist(uint64(a), uint64(b))
			want := o.dist(o.vecs[a], o.vecs[b])
			sym := 1
			if back := x.Dist(uint64(b), uint64(a)); math.Abs(back-got) > 1e-6*(1+math.Abs(got)) || back != back {
				sym = 0
			}
			ps = append(ps, []int{a, b, o.reported(o.vecs[a], got), want, sym})
		}
	}
	return M{"op": "dist", "pairs": ps, "dtol": o.dtol}
}

func searchCase(r *Rand, tier, focus string) (c Cfg, items map[int][]float64, order []int, q, w int, fam string) {
	c, items, order, q, w, fam = forestCase(r, 0, tier, "")
	for tries := 0; tries < 200 && len(items) > 70; tries++ {
		c, items, order, q, w, fam = forestCase(r, 0, tier, "")
	}
	if focus == "C18" {
		c.Dist = "dot"
	}
	if focus == "C05" && r.N(2) == 0 && fam != "generic" {
		fam = "generic"
		vs := data(r, len(order), c.Dim, fam)
		for k, id := range order {
			items[id] = vs[k]
		}
		rescale(r, items)
	}
	if q == -1 || q > 5 {
		q = 1 + r.N(5)
	}
	return
}

func init() {
	cmds["search"] = func(args []string) {
		fl, cm := common("search")
		focus := fl.String("focus", "", "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 4)
			c, items, order, q, w, fam := searchCase(r, cm.tier, *focus)
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam})
			cm.attempt(200*time.Second, func() { searchRun(cm, r, i, c, items, order, q, w, fam) })
		}
		cm.out.Close()
	}
	// Few searches of larger indexes.
	cmds["bigsearch"] = func(args []string) {
		fl, cm := common("bigsearch")
		focus := fl.String("focus", "", "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 7)
			c := genCfg(r)
			c.Bld = false
			if *focus == "C18" {
				c.Dist = "dot"
			}
			c.Dim = []int{2, 3, 8, 20, 40, 130}[r.N(6)]
			n, q, w := 100+r.N(900), 1+r.N(8), 1+r.N(3)
			fam := "generic"
			if r.N(4) == 0 {
				fam = families[r.N(len(families))]
			}
			if r.N(3) == 0 {
				n, q, w = 20+r.N(150), 20+r.N(100), 1+r.N(8)
			}
			if i%8 == 3 { // many leaves
				n, q, c.Dim = 1200+r.N(800), 8+r.N(5), 2+r.N(2)
			}
			order := spread(r, n, []string{"dense", "shuffle", "gaps"}[r.N(3)])
			vs := data(r, n, c.Dim, fam)
			items := map[int][]float64{}
			for k, id := range order {
				items[id] = vs[k]
			}
			rescale(r, items)
			cm.mark.Set(M{"case": i, "cfg": c, "n": n, "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": n, "q": q, "w": w, "family": fam})
			cm.attempt(200*time.Second, func() { bigRun(cm, r, i, c, items, order, q, w, fam) })
		}
		cm.out.Close()
	}
	cmds["conc"] = func(args []string) {
		fl, cm := common("conc")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 5)
			c, items, order, q, w, fam := searchCase(r, cm.tier, "")
			cm.mark.Set(M{"case": i, "cfg": c, "n": len(items), "q": q, "w": w})
			cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "w": w, "family": fam})
			cm.attempt(200*time.Second, func() { concRun(cm, r, i, c, items, order, q, w) })
		}
		cm.out.Close()
	}
	cmds["handmade"] = func(args []string) {
		fl, cm := common("handmade")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 6)
			cm.mark.Set(M{"case": i})
			handmadeRun(cm, r, i)
		}
		cm.out.Close()
	}
}

func searchRun(cm *Common, r *Rand, i int, c Cfg, items map[int][]float64, order []int, q, w int, fam string) {
	x := Make(c, nil)
	early := x.Ctx()
	fill(x, items, order)
	x.Build(q, w)
	span := spanOf(items)
	qs := queries(r, c, items, order, q, span*q, fam == "generic" && c.Dim > 1, 16)
	ctxs := []any{x.Ctx(), early, x.Ctx()}
	var all []*answer
	run := func(x Ix, st string, ctxs []any) []*answer {
		var as []*answer
		h0 := itemsHash(x, order)
		for _, qq := range qs {
			a := ask(x, qq, st, ctxs[r.N(len(ctxs))])
			as = append(as, a)
			all = append(all, a)
			if r.N(4) == 0 { // again, with a context used for something else in between
				ctx := ctxs[r.N(len(ctxs))]
				ask(x, qs[r.N(len(qs))], st, ctx)
				all = append(all, ask(x, qq, st, ctx))
			}
		}
		cm.out.Put(M{"op": "same", "what": "items of the searched index", "a": h0, "b": itemsHash(x, order)})
		return as
	}
	first := run(x, "built", ctxs)
	p := filepath.Join(cm.dir, fmt.Sprintf("s%d.ann", i))
	need(x.Save(p))
	f, err := readFile(c, p)
	need(err)
	second := run(x, "saved", []any{ctxs[0], x.Ctx()})
	o := newOracle(f, c, items, span, q, false)
	c2 := c
	c2.Loader = map[string]string{"mmap": "gc", "gc": "mmap"}[c.Loader]
	y := Make(c2, nil)
	need(y.Load(p))
	third := run(y, "loaded", []any{y.Ctx(), ctxs[2]})
	cm.out.Put(o.forest())
	for j := range first {
		for _, as := range [][]*answer{first, second, third} {
			cm.out.Put(o.event(as[j]))
		}
	}
	for _, a := range all {
		cm.out.Put(short(a))
	}
	for _, a := range all { // read once more
		if a.later == nil {
			continue
		}
		b := *a
		b.ids, b.ds = a.later()
		b.st = "kept"
		cm.out.Put(short(&b))
	}
	cm.out.Put(distEvent(r, o, y, 12))
	cm.out.Put(distEvent(r, o, x, 6))
	g, err := readFile(c, p)
	need(err)
	cm.out.Put(M{"op": "same", "what": "the file of the searched index", "a": hash(f.data), "b": hash(g.data)})
	x.Close()
	y.Close()
	os.Remove(p)
}

// bigRun searches before and after loading.
func bigRun(cm *Common, r *Rand, i int, c Cfg, items map[int][]float64, order []int, q, w int, fam string) {
	x := Make(c, nil)
	fill(x, items, order)
	x.Build(q, w)
	count := 12
	if len(items)*q > 9000 {
		count = 6
	}
	qs := queries(r, c, items, order, q, spanOf(items)*q, fam == "generic", count)
	qs[3].k, qs[3].b = 50, math.MaxInt
	for j := range qs {
		if j%2 == 0 {
			qs[j].k = []int{10, 33, 100, 257, len(items) / 2}[r.N(5)]
			qs[j].b = []int{-1, -1, 64, 300, 1025, len(items)}[r.N(6)]
			qs[j].self = -1
		}
	}
	p := filepath.Join(cm.dir, fmt.Sprintf("b%d.ann", i))
	ctx := x.Ctx()
	var as, all []*answer
	for _, qq := range qs {
		as = append(as, ask(x, qq, "built", ctx))
	}
	need(x.Save(p))
	f, err := readFile(c, p)
	need(err)
	y := Make(c, nil)
	need(y.Load(p))
	ctx = y.Ctx()
	for _, qq := range qs {
		all = append(all, ask(y, qq, "loaded", ctx))
	}
	o := newOracle(f, c, items, spanOf(items), q, false)
	ev := o.forest()
	ls := ev["leaf"].([]leafT)
	cm.out.Put(ev)
	for _, a := range as {
		e := o.event(a)
		o.rank(e, ls, a.q, q)
		cm.out.Put(e)
	}
	for _, a := range all {
		cm.out.Put(short(a))
	}
	x.Close()
	y.Close()
	os.Remove(p)
}

// rank adds the order of the leaves, the candidates in those that come first,
// and how many leaves are visited for sure and at most.
func (o *oracle) rank(e M, ls []leafT, qq query, q int) {
	eff := e["eff"].([]int)
	n := len(ls)
	ord := make([]int, n)
	for j := range ord {
		ord[j] = j + 1
	}
	sort.SliceStable(ord, func(a, b int) bool { return eff[ord[a]-1] > eff[ord[b]-1] })
	cum := make([]int, n)
	at := func(j int) int {
		if j == 0 {
			return 0
		}
		return cum[j-1]
	}
	for j := range cum {
		cum[j] = at(j) + ls[ord[j]-1].Sz
	}
	b := e["b"].(int)
	if b == -1 {
		b = e["k"].(int) * q
	}
	gap := func(j int) bool {
		return j == 0 || j == n || eff[ord[j-1]-1] > eff[ord[j]-1]+o.tol
	}
	sure, most := 0, n
	for j := n; j >= 0; j-- {
		if gap(j) && (at(j) <= b || j > 0 && gap(j-1) && at(j-1) < b) {
			sure = j
			break
		}
	}
	for j := 0; j <= n; j++ {
		if gap(j) && at(j) >= b {
			most = j
			break
		}
	}
	e["ord"], e["cum"], e["sure"], e["most"] = ord, cum, sure, most
}

func concRun(cm *Common, r *Rand, i int, c Cfg, items map[int][]float64, order []int, q, w int) {
	x := Make(c, nil)
	fill(x, items, order)
	x.Build(q, w)
	span := spanOf(items)
	qs := queries(r, c, items, order, q, span*q, false, 20)
	p := filepath.Join(cm.dir, fmt.Sprintf("c%d.ann", i))
	if r.Bool() {
		need(x.Save(p))
	}
	ctx := x.Ctx()
	h0 := itemsHash(x, order)
	for _, qq := range qs {
		cm.out.Put(short(ask(x, qq, "alone", ctx)))
	}
	const G = 6
	var wg sync.WaitGroup
	res := make([][]*answer, G)
	for g := 0; g < G; g++ {
		wg.Add(1)
		rg := r.Fork(uint64(g))
		ctx := x.Ctx()
		go func(g int) {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				qq := qs[rg.N(len(qs))]
				res[g] = append(res[g], ask(x, qq, "together", ctx))
				if len(order) > 0 && j%5 == 0 {
					guard(func() error {
						x.Dist(uint64(order[0]), uint64(order[len(order)-1]))
						x.Get(uint64(order[0]))
						return nil
					})
				}
			}
		}(g)
	}
	wg.Wait()
	for g := range res {
		for _, a := range res[g] {
			cm.out.Put(short(a))
			if a.later != nil {
				b := *a
				b.ids, b.ds = a.later()
				b.st = "kept"
				cm.out.Put(short(&b))
			}
		}
	}
	cm.out.Put(M{"op": "same", "what": "items of the searched index", "a": h0, "b": itemsHash(x, order)})
	x.Close()
	os.Remove(p)
}

// ---------------------------------------------------------------- files by hand

// handmade writes an index file from scratch: any trees over the items, with
// small integer hyperplanes, unit ones, or ones like goannoy's.
func handmade(r *Rand) (c Cfg, items map[int][]float64, span, q int, data []byte, exact bool) {
	c = genCfg(r)
	c.Bld = false
	c.Dim = []int{2, 3, 4, 5, 8}[r.N(5)]
	l := layoutOf(c)
	var n int
	switch r.N(4) {
	case 0:
		n = 1 + r.N(l.K)
	case 1:
		n = l.K + 1 + r.N(4)
	default:
		n = l.K + 1 + r.N(30)
	}
	ids := spread(r, n, spreads[r.N(len(spreads))])
	items = map[int][]float64{}
	exact = r.N(2) == 0
	for _, id := range ids {
		v := make([]float64, c.Dim)
		for k := range v {
			v[k] = float64(float32(r.Norm()))
			if exact {
				v[k] = float64(r.N(9) - 4)
			}
		}
		items[id] = v
	}
	span = spanOf(items)
	q = 1 + r.N(4)
	node := func() []byte { return make([]byte, l.size) }
	var nodes [][]byte
	maxNorm := 0.0
	for _, v := range items {
		maxNorm = math.Max(maxNorm, norm(v))
	}
	for id := 0; id < span; id++ {
		b := node()
		if v, ok := items[id]; ok {
			l.putTix(b, 1)
			if l.dot {
				l.putTv(b[l.df:], math.Sqrt(math.Max(0, maxNorm*maxNorm-dot(v, v))))
			} else {
				l.putTv(b[l.kids:], dot(v, v))
			}
			for k := range v {
				l.putTv(b[l.v+k*l.vs:], v[k])
			}
		}
		nodes = append(nodes, b)
	}
	bucket := func(d int, its []int) []byte {
		b := node()
		l.putTix(b, uint64(d))
		for k, x := range its {
			l.putTix(b[l.kids+k*l.ts:], uint64(x))
		}
		return b
	}
	var tree func(its []int, root bool) int
	tree = func(its []int, root bool) int {
		if len(its) == 1 && !root {
			return its[0]
		}
		if len(its) <= l.K && (!root || span <= l.K || len(its) == 1) && !(len(its) > 1 && !root && r.N(3) == 0) {
			d := len(its)
			if root {
				d = span
			}
			nodes = append(nodes, bucket(d, its))
			return len(nodes) - 1
		}
		// Splits of few items cannot be told from buckets: they need more than K
		// descendants; so only root-sized ones and those above K are split.
		if !root && len(its) <= l.K {
			nodes = append(nodes, bucket(len(its), its))
			return len(nodes) - 1
		}
		at := 1 + r.N(len(its)-1)
		if r.N(3) == 0 {
			at = len(its) / 2
		}
		perm := append([]int{}, its...)
		for i := len(perm) - 1; i > 0; i-- {
			j := r.N(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		a, b := tree(perm[:at], false), tree(perm[at:], false)
		nb := node()
		d := len(its)
		if root {
			d = span
		}
		l.putTix(nb, uint64(d))
		l.putTix(nb[l.kids:], uint64(a))
		l.putTix(nb[l.kids+l.ts:], uint64(b))
		v := make([]float64, c.Dim)
		for k := range v {
			if exact {
				v[k] = float64(r.N(3) - 1)
			} else {
				v[k] = r.Norm()
			}
		}
		if nn := norm(v); !exact && nn > 0 {
			for k := range v {
				v[k] = float64(float32(v[k] / nn))
			}
		}
		for k := range v {
			l.putTv(nb[l.v+k*l.vs:], v[k])
		}
		if l.dot && exact && r.N(2) == 0 {
			l.putTv(nb[l.df:], float64(1+r.N(2)))
		}
		nodes = append(nodes, nb)
		return len(nodes) - 1
	}
	var roots []int
	for t := 0; t < q; t++ {
		roots = append(roots, tree(ids, true))
	}
	for _, x := range roots {
		nodes = append(nodes, append([]byte{}, nodes[x]...))
	}
	for _, b := range nodes {
		data = append(data, b...)
	}
	return
}

func handmadeRun(cm *Common, r *Rand, i int) {
	c, items, span, q, data, exact := handmade(r)
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "count": len(items), "q": q, "family": "handmade"})
	cm.attempt(120*time.Second, func() {
		p := filepath.Join(cm.dir, fmt.Sprintf("h%d.ann", i))
		need(os.WriteFile(p, data, 0o644))
		f, err := readFile(c, p)
		need(err)
		var order []int
		for id := range items {
			order = append(order, id)
		}
		sort.Ints(order)
		o := newOracle(f, c, items, span, q, exact)
		qs := queries(r, c, items, order, q, span*q, false, 12)
		if exact {
			for j := range qs {
				if qs[j].id < 0 {
					v := make([]float64, c.Dim)
					for k := range v {
						v[k] = float64(r.N(5) - 2)
					}
					if j > 0 && j%4 > 0 && qs[j-1].id < 0 {
						copy(v, qs[j-1].v)
					}
					qs[j].v = v
				}
			}
		}
		cm.out.Put(o.forest())
		for _, ld := range []string{"mmap", "gc"} {
			c.Loader = ld
			x := Make(c, nil)
			need(x.Load(p))
			got := 1
			for _, id := range order {
				g := x.Get(uint64(id))
				for k := range g {
					if g[k] != items[id][k] {
						got = 0
					}
				}
			}
			cm.out.Put(M{"op": "same", "what": "the items of the file", "a": "1", "b": fmt.Sprint(got)})
			ctx := x.Ctx()
			for _, qq := range qs {
				a := ask(x, qq, "file", ctx)
				cm.out.Put(o.event(a))
			}
			cm.out.Put(distEvent(r, o, x, 6))
			// saved again it is the same file
			p2 := p + "2"
			need(x.Save(p2))
			b, err := os.ReadFile(p2)
			need(err)
			cm.out.Put(M{"op": "same", "what": "the file saved again", "a": hash(data), "b": hash(b)})
			x.Close()
			os.Remove(p2)
		}
		os.Remove(p)
	})
}

// pqRun: the priorities of nodes along random ways down a tree, whatever their
// sign convention is.
func pqRun[TV interfaces.VectorType, TIX interfaces.IndexTypes](r *Rand, d interfaces.Distance[TV, TIX]) M {
	dir := 1.0
	if d.PQDistance(d.PQInitialValue(), 1, interfaces.SideRight) < d.PQDistance(d.PQInitialValue(), -1, interfaces.SideRight) {
		dir = -1
	}
	ways := [][]int{}
	for j := 0; j < 30; j++ {
		p := d.PQInitialValue()
		worst := 1 << 20
		for n := 1 + r.N(5); n > 0; n-- {
			m := r.N(15) - 7
			if r.Bool() {
				p = d.PQDistance(p, TV(m), interfaces.SideRight)
				worst = int(math.Min(float64(worst), float64(m)))
			} else {
				p = d.PQDistance(p, TV(m), interfaces.SideLeft)
				worst = int(math.Min(float64(worst), float64(-m)))
			}
		}
		x := math.Max(-1e6, math.Min(1e6, dir*float64(p)))
		ways = append(ways, []int{worst, int(math.Round(x * 100))})
	}
	return M{"op": "pq", "ways": ways}
}

func init() {
	cmds["pq"] = func(args []string) {
		fl, cm := common("pq")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 7)
			cm.mark.Set(M{"case": i})
			dist := []string{"ang", "dot"}[i%2]
			cm.out.Put(M{"op": "cfg", "case": i, "family": "pq", "kind": M{"dist": dist}})
			cm.attempt(20*time.Second, func() {
				switch i % 4 {
				case 0:
					cm.out.Put(pqRun[float32, uint32](r, angular.Distance[float32, uint32](4)))
				case 1:
					cm.out.Put(pqRun[float32, uint32](r, dotproduct.Distance[float32, uint32](4)))
				case 2:
					cm.out.Put(pqRun[float64, uint64](r, angular.Distance[float64, uint64](4)))
				case 3:
					cm.out.Put(pqRun[float64, uint64](r, dotproduct.Distance[float64, uint64](4)))
				}
			})
		}
		cm.out.Close()
	}
}
