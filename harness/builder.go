package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/interfaces"
	gosort "github.com/mariotoffia/goannoy/sort"
)

// Builders and what they make. Checked against spec/BuilderTrace.tla.

type bldCall struct {
	op string
	b  int
	f  string
	v  int
}

func (c *bldCall) UnmarshalJSON(b []byte) error {
	var a []any
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	c.op, c.b, c.f, c.v = a[0].(string), int(a[1].(float64)), a[2].(string), int(a[3].(float64))
	return nil
}

type bldr interface {
	set(f string, v int)
	make() Ix
}

type bldrT[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	r     *Rand
	b     *builder.AnnoyIndexBuilderImpl[TV, TIX]
	mkRnd func(uint64) interfaces.Random[TIX]
	seeds []uint64
	dims  []int
	used  *map[int]int // sorter -> calls
}

func (t *bldrT[TV, TIX]) set(f string, v int) {
	nb := t.b
	defer func() {
		if t.r.Bool() { // a setter works on its builder, whether or not its result is used
			t.b = nb
		}
	}()
	switch f {
	case "dim":
		nb = t.b.AngularDistance(t.dims[v])
	case "pol":
		if v == 2 {
			nb = t.b.UseMultiWorkerPolicy()
		} else {
			nb = t.b.SingleWorkerPolicy()
		}
	case "loader":
		if v == 2 {
			nb = t.b.GCMemoryIndexAllocator()
		} else {
			nb = t.b.MmapIndexAllocator()
		}
	case "rnd":
		nb = t.b.Random(t.mkRnd(t.seeds[v]))
	case "sorter":
		used := t.used
		nb = t.b.UseSorter(&interfaces.SorterFunctions[TV, TIX]{
			SortSliceFunc: func(s []TIX) { (*used)[v]++; gosort.SortSlice(s) },
			SortPairsFunc: func(p []*interfaces.Pair[TV, TIX]) { (*used)[v]++; gosort.SortPairs[TV, TIX](p) },
			PartialSortSliceFunc: func(s interfaces.Pairs[TV, TIX], begin, middle, end int) {
				(*used)[v]++
				gosort.PartialSortSlice(s, begin, middle, end)
			}})
	case "verbose":
		nb = t.b.VerboseLogging()
	case "hint":
		nb = t.b.IndexNumHint([]int{-3, 0, 1, 7, 300, 5000}[t.r.N(6)])
	}
}

func (t *bldrT[TV, TIX]) make() Ix { return &ixT[TV, TIX]{x: t.b.Build()} }

func newBldrT[TV interfaces.VectorType, TIX interfaces.IndexTypes](r *Rand, mk func(uint64) interfaces.Random[TIX], seeds []uint64, dims []int, used *map[int]int) bldr {
	return &bldrT[TV, TIX]{r, builder.Index[TV, TIX](), mk, seeds, dims, used}
}

func newBldr(types string, r *Rand, seeds []uint64, dims []int, used *map[int]int) bldr {
	switch types {
	case "f32u32":
		return newBldrT[float32, uint32](r, rnd32, seeds, dims, used)
	case "f64u32":
		return newBldrT[float64, uint32](r, rnd32, seeds, dims, used)
	case "f32u64":
		return newBldrT[float32, uint64](r, rnd64, seeds, dims, used)
	}
	return newBldrT[float64, uint64](r, rnd64, seeds, dims, used)
}

// prints tells whether f prints something.
func prints(dir string, f func()) bool {
	p := filepath.Join(dir, "stdout")
	o, err := os.Create(p)
	must(err)
	old := os.Stdout
	os.Stdout = o
	defer func() { os.Stdout = old; o.Close() }()
	f()
	st, err := o.Stat()
	must(err)
	return st.Size() > 0
}

type bldRef struct {
	pol string
	rnd int
	h   string
}

func builderCase(cm *Common, r *Rand, i int, cs []bldCall) {
	types := []string{"f32u32", "f64u32", "f32u64", "f64u64"}[i%4]
	c := Cfg{TV: types[:3], TIX: types[3:], Dist: "ang"}
	dims := []int{0, 2 + r.N(3), 5 + r.N(5)}
	seeds := []uint64{0, 1 + r.U64()%1000, 1001 + r.U64()%(1<<31)}
	cm.out.Put(M{"op": "cfg", "case": i, "types": types, "dims": dims, "seeds": seeds})
	const n, q, w = 70, 3, 2
	items := map[int]map[int][]float64{}
	var order []int
	for id := 0; id < n; id++ {
		order = append(order, id)
	}
	for _, d := range dims[1:] {
		items[d] = map[int][]float64{}
		for id, v := range data(r, n, d, "generic") {
			items[d][id] = v
		}
	}
	// grow fills, builds, saves, loads and searches: what it finds out.
	grow := func(x Ix, cfg Cfg, probe M) string {
		d := x.Dim()
		its := items[d]
		if its == nil {
			probe["dim"], probe["trees"] = d, [][]any{}
			return "odd"
		}
		path := filepath.Join(cm.dir, fmt.Sprintf("b%d", i))
		defer os.Remove(path)
		fill(x, its, order)
		x.Build(q, w)
		need(x.Save(path))
		f, err := readFile(cfg, path)
		need(err)
		h := fmt.Sprint(f.treeHashes(n, q))
		if probe == nil {
			return h
		}
		need(x.Load(path))
		probe["loader"] = "gc"
		b, _ := os.ReadFile("/proc/self/maps")
		if strings.Contains(string(b), path+"\n") {
			probe["loader"] = "mmap"
		}
		items, answers := true, true
		for _, id := range order {
			items = items && bitsKey(x.Get(uint64(id))) == bitsKey(its[id])
		}
		ctx := x.Ctx()
		for k := 0; k < 5; k++ {
			id := order[r.N(n)]
			ids, ds := x.ByVec(its[id], n, 1<<20, ctx)
			found := map[uint64]bool{}
			for _, id := range ids {
				found[id] = true
			}
			answers = answers && len(found) == n && ds[0] < 0.01
		}
		probe["items"], probe["answers"], probe["dim"] = items, answers, d
		return h
	}
	refs := map[int][]bldRef{}
	refsFor := func(d int) []bldRef {
		if items[d] == nil {
			return nil
		}
		if refs[d] == nil {
			for _, pol := range []string{"single", "multi"} {
				for s := range seeds {
					cfg := c
					cfg.Dim, cfg.Multi, cfg.Loader, cfg.Seed = d, pol == "multi", "gc", seeds[s]
					cfg.Bld = s == 0 // whatever the default generator is
					x := Make(cfg, nil)
					refs[d] = append(refs[d], bldRef{pol, s, grow(x, cfg, nil)})
					x.Close()
				}
			}
		}
		return refs[d]
	}
	used := map[int]int{}
	bs := map[int]bldr{}
	var made []Ix
	closed := map[int]bool{}
	probe := func(k int) {
		p := M{"op": "probe", "k": k, "dims": dims[1:], "loader": "none", "items": false, "answers": false}
		used = map[int]int{}
		x := made[k-1]
		cfg := c
		cfg.Dim = x.Dim()
		p["dim"] = x.Dim()
		var h string
		p["verbose"] = prints(cm.dir, func() { h = grow(x, cfg, p) })
		so := []int{}
		for s := range used {
			so = append(so, s)
		}
		p["sorters"] = so
		trees := [][]any{}
		for _, ref := range refsFor(x.Dim()) {
			if ref.h == h {
				trees = append(trees, []any{ref.pol, ref.rnd})
			}
		}
		p["trees"] = trees
		need(x.Close())
		closed[k] = true
		cm.out.Put(p)
	}
	for _, call := range cs {
		if bs[call.b] == nil {
			bs[call.b] = newBldr(types, r, seeds, dims, &used)
		}
		switch call.op {
		case "set":
			if call.v == 0 {
				continue
			}
			bs[call.b].set(call.f, call.v)
			cm.out.Put(M{"op": "set", "b": call.b, "f": call.f, "v": call.v})
		case "make":
			made = append(made, bs[call.b].make())
			cm.out.Put(M{"op": "make", "b": call.b})
			if r.N(4) == 0 {
				probe(1 + r.N(len(made)))
			}
		}
	}
	for k := len(made); k > 0; k-- {
		if !closed[k] || r.N(3) == 0 {
			probe(k)
		}
	}
	for _, x := range made {
		x.Close()
	}
}

func init() {
	// builder [-in calls of TLC]
	cmds["builder"] = func(args []string) {
		fl, cm := common("builder")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var calls [][]bldCall
		if *in != "" {
			lines(*in, func(b []byte) {
				var cs []bldCall
				must(json.Unmarshal(b, &cs))
				calls = append(calls, cs)
			})
		}
		fields := []string{"pol", "loader", "rnd", "sorter", "verbose", "hint", "dim"}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 51)
			var cs []bldCall
			if calls != nil { // the fields of the model stand for any
				p := r.Fork(3)
				rest := fields[:6]
				a, b := rest[p.N(6)], rest[p.N(6)]
				for b == a {
					b = rest[p.N(6)]
				}
				for _, x := range calls[i%len(calls)] {
					switch x.f {
					case "f":
						x.f = a
					case "g":
						x.f = b
					}
					cs = append(cs, x)
				}
			} else {
				nb := 1 + r.N(4)
				told := map[int]bool{}
				for k := 4 + r.N(20); k > 0; k-- {
					b := 1 + r.N(nb)
					if told[b] && r.N(3) == 0 {
						cs = append(cs, bldCall{"make", b, "", 0})
						continue
					}
					f := fields[r.N(len(fields))]
					if !told[b] && r.Bool() {
						f = "dim"
					}
					told[b] = told[b] || f == "dim"
					cs = append(cs, bldCall{"set", b, f, 1 + r.N(2)})
				}
				for b := 1; b <= nb; b++ {
					if told[b] {
						cs = append(cs, bldCall{"make", b, "", 0})
						break
					}
				}
			}
			cm.mark.Set(M{"case": i, "calls": fmt.Sprint(cs)})
			cm.attempt(60*time.Second, func() { builderCase(cm, r, i, cs) })
		}
		cm.out.Close()
	}
}
