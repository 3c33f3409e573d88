package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
)

// Indexes side by side, that have parts in common: each goes through a program
// of its own, alone, in turns with the others, and at the same time as they do.
// What it sees has to be the same (spec/TogetherTrace.tla).

// program is what one index does; every step says what it saw.
type program struct {
	c     Cfg
	seed  uint64
	round int
	path  string
	com   string // a file that all may load
	x     Ix
	multi bool
	log   []string
	n     int

	items map[int][]float64
	order []int
	q     int
}

const programSteps = 6

func (p *program) rnd(tag uint64) *Rand { return NewRand(p.seed*977 + uint64(p.round)*31 + tag) }

func (p *program) answers(tag uint64, full bool) string {
	total := (len(p.order) + 2) * (p.q + 1)
	s := ""
	ctx := p.x.Ctx()
	for _, q := range queries(p.rnd(tag), p.c, p.items, p.order, p.q, total, false, 5) {
		if full || p.multi { // the rest may depend on the order of the trees
			q.b = 1 << 30
		}
		a := ask(p.x, q, "", ctx)
		if a.out != "ok" {
			return a.out + ": " + a.msg
		}
		s += a.hash()
	}
	return hash(s)
}

// step does step k of a round.
func (p *program) step(k int) string {
	r := p.rnd(uint64(100 + k))
	said := ""
	out, msg := guard(func() error {
		switch k {
		case 0:
			n := []int{1, 2, 9, 25, 60}[r.N(5)]
			p.order = spread(r, n, []string{"dense", "gaps", "shuffle"}[r.N(3)])
			vs := data(r, n, p.c.Dim, "generic")
			p.items = map[int][]float64{}
			for j, id := range p.order {
				p.items[id] = vs[j]
			}
			fill(p.x, p.items, p.order)
			p.q = 1 + r.N(4)
			w := 1
			if p.multi {
				w = 1 + r.N(4)
			}
			p.x.Build(p.q, w)
			said = "built"
		case 1:
			said = itemsHash(p.x, p.order)
			for j := 0; j < 6; j++ {
				said += hash(p.x.Dist(uint64(p.order[r.N(len(p.order))]), uint64(p.order[r.N(len(p.order))])))
			}
		case 2:
			if err := p.x.Save(p.path); err != nil {
				return err
			}
			f, err := readFile(p.c, p.path)
			if err != nil {
				return err
			}
			if p.multi {
				said = fmt.Sprint(f.treeHashes(spanOf(p.items), p.q), len(f.data))
			} else {
				said = hash(f.data)
			}
		case 3:
			said = p.answers(1, false) + itemsHash(p.x, p.order)
		case 4:
			if p.com != "" && r.Bool() {
				if err := p.x.Load(p.com); err != nil {
					return err
				}
				n := 2 + r.N(8)
				order := spread(r, n, "dense")
				items, was, q := map[int][]float64{}, p.items, p.q
				for _, id := range order {
					items[id] = p.x.Get(uint64(id))
				}
				old := p.order
				p.items, p.order, p.q = items, order, 3
				m := p.multi
				p.multi = false
				said = p.answers(2, false)
				p.multi = m
				p.items, p.order, p.q = was, old, q
			} else {
				if r.Bool() {
					if err := p.x.Load(p.path); err != nil {
						return err
					}
				}
				said = p.answers(3, false)
			}
		case 5:
			if err := p.x.Close(); err != nil {
				return err
			}
			b, err := os.ReadFile(p.path)
			if err != nil {
				return err
			}
			said = fmt.Sprint("closed ", len(b))
			if !p.multi {
				said += hash(b)
			}
			p.round++
		}
		return nil
	})
	if out != "ok" {
		return out + ": " + filepath.Base(msg)
	}
	return said
}

func (p *program) next() {
	p.log = append(p.log, p.step(p.n%programSteps))
	p.n++
}

// common is what they share.
func commonParts(c Cfg, share string) *Shared {
	sh := &Shared{}
	all := share == "parts"
	if share == "loader" || all {
		sh.loader = newLoader(c.Loader)
	}
	if share == "random" || all {
		sh.rnd = rndFor(c)
	}
	if share == "policy" || all {
		sh.pol = newPolicy(c.Multi)
	}
	if share == "distance" || all {
		switch c.TV + c.TIX {
		case "f32u32":
			sh.dist = sharedDist[float32, uint32](c)
		case "f64u32":
			sh.dist = sharedDist[float64, uint32](c)
		case "f32u64":
			sh.dist = sharedDist[float32, uint64](c)
		default:
			sh.dist = sharedDist[float64, uint64](c)
		}
	}
	return sh
}
func sharedDist[TV interfaces.VectorType, TIX interfaces.IndexTypes](c Cfg) any {
	return distOf[TV, TIX](c.Dist, c.Dim)
}

var shares = []string{"builder", "parts", "loader", "random", "policy", "distance", "none"}
var neighbours = []string{"x", "x.tmp", "x.tmp.tmp", "x~", "x.bak", ".x", "x.1"}

func togetherRun(cm *Common, i int, order []int, concurrent bool) {
	r := cm.rand(i, 31)
	share := shares[i%len(shares)]
	c := genCfg(r)
	c.Bld = share == "builder"
	if c.Bld {
		c.Dist = "ang"
	}
	c.Dim = 2 + r.N(6)
	m, rounds := 2, 1
	if order == nil {
		m, rounds = 2+r.N(3), 1+r.N(3)
	}
	cm.mark.Set(M{"case": i, "cfg": c, "share": share, "m": m})
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "share": share, "m": m, "rounds": rounds, "schedule": append([]int{}, order...), "concurrent": concurrent})
	// a file for all
	com := filepath.Join(cm.dir, fmt.Sprintf("common%d.ann", i))
	g := Make(c, nil)
	fill(g, map[int][]float64{}, nil)
	vs := data(r.Fork(9), 20, c.Dim, "generic")
	for id, v := range vs {
		g.Add(uint64(id), v)
	}
	g.Build(3, 1)
	need(g.Save(com))
	need(g.Close())
	comHash := fileHash(com)
	seeds := make([]uint64, m)
	for k := range seeds {
		seeds[k] = r.U64() % 5000
		if k > 0 && r.N(3) == 0 {
			seeds[k] = seeds[0] // the same items
		}
	}
	mk := func(dir string, k int, sh *Shared) *program {
		return &program{c: c, seed: seeds[k], path: filepath.Join(dir, neighbours[k]), com: com, x: Make(c, sh), multi: c.Multi}
	}
	alone := [][]string{}
	for k := 0; k < m; k++ {
		d := filepath.Join(cm.dir, fmt.Sprintf("alone%d-%d", i, k))
		must(os.MkdirAll(d, 0o755))
		p := mk(d, k, nil)
		for n := 0; n < rounds*programSteps; n++ {
			p.next()
		}
		alone = append(alone, p.log)
		os.RemoveAll(d)
	}
	d := filepath.Join(cm.dir, fmt.Sprintf("with%d", i))
	must(os.MkdirAll(d, 0o755))
	sh := commonParts(c, share)
	if share == "none" {
		sh = nil
	}
	var ps []*program
	for k := 0; k < m; k++ {
		ps = append(ps, mk(d, k, sh))
	}
	if concurrent {
		var wg sync.WaitGroup
		for _, p := range ps {
			wg.Add(1)
			go func(p *program) {
				defer wg.Done()
				for n := 0; n < rounds*programSteps; n++ {
					p.next()
				}
			}(p)
		}
		wg.Wait()
	} else if order != nil {
		for _, k := range order {
			ps[k-1].next()
		}
	} else {
		left := m * rounds * programSteps
		for left > 0 {
			p := ps[r.N(m)]
			for n := 1 + r.N(4); n > 0 && p.n < rounds*programSteps; n-- {
				p.next()
				left--
			}
		}
	}
	with := [][]string{}
	for _, p := range ps {
		with = append(with, p.log)
	}
	// what the files hold in the end, against what each index wrote last
	ends := []bool{}
	for k, p := range ps {
		b, err := os.ReadFile(p.path)
		want := fmt.Sprint("closed ", len(b))
		if !p.multi {
			want += hash(b)
		}
		ends = append(ends, err == nil && want == alone[k][len(alone[k])-1])
	}
	cm.out.Put(M{"op": "together", "alone": alone, "with": with, "ends": ends, "common": fileHash(com) == comHash})
	os.RemoveAll(d)
	os.Remove(com)
}

// racer is an index that is ready to be saved.
func racer(c Cfg, seed uint64) Ix {
	r := NewRand(seed)
	x := Make(c, nil)
	n := []int{5, 200, 2000}[r.N(3)]
	for id, v := range data(r, n, c.Dim, "generic") {
		x.Add(uint64(id), v)
	}
	x.Build(1+r.N(3), 1)
	return x
}

// raceKid is a racer in a process of its own.
type raceKid struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func newRaceKid(c Cfg, seed uint64, own, target string) *raceKid {
	exe, err := os.Executable()
	must(err)
	b, _ := json.Marshal(c)
	k := &raceKid{cmd: exec.Command(exe, "racekid", string(b), strconv.FormatUint(seed, 10), own, target)}
	k.in, err = k.cmd.StdinPipe()
	must(err)
	o, err := k.cmd.StdoutPipe()
	must(err)
	k.out = bufio.NewReader(o)
	must(k.cmd.Start())
	l, _ := k.out.ReadString('\n')
	if l != "ready\n" {
		panic("a process could not save: " + l)
	}
	return k
}

func (k *raceKid) start() { k.in.Write([]byte("go\n")) }

// end gives what went wrong.
func (k *raceKid) end() string {
	l, _ := k.out.ReadString('\n')
	if err := k.cmd.Wait(); err != nil {
		return err.Error()
	}
	if l == "ok\n" {
		return ""
	}
	return "process: " + l
}

// raceRun lets indexes save to the same file at the same time, from one or
// several processes.
func raceRun(cm *Common, i int, procs bool) {
	r := cm.rand(i, 32)
	c := genCfg(r)
	c.Bld, c.Multi = false, false
	c.Dim = 3
	m := 2 + r.N(3)
	cm.mark.Set(M{"case": i, "cfg": c, "m": m})
	cm.out.Put(M{"op": "cfg", "case": i, "kind": c, "m": m})
	d := filepath.Join(cm.dir, fmt.Sprintf("race%d", i))
	must(os.MkdirAll(d, 0o755))
	target := filepath.Join(d, "target")
	valid := map[string]bool{}
	if r.Bool() {
		must(os.WriteFile(target, []byte("before"), 0o644))
		valid[hash([]byte("before"))] = true
	}
	var xs []Ix
	var kids []*raceKid
	for k := 0; k < m; k++ {
		own := filepath.Join(d, fmt.Sprint("own", k))
		if procs && k > 0 {
			kids = append(kids, newRaceKid(c, r.U64(), own, target))
		} else {
			x := racer(c, r.U64())
			need(x.Save(own))
			xs = append(xs, x)
		}
		valid[fileHash(own)] = true
	}
	var mu sync.Mutex
	broken, errs := 0, []string{}
	stop := make(chan bool)
	var readers, savers sync.WaitGroup
	readers.Add(1)
	go func() {
		defer readers.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if b, err := os.ReadFile(target); err == nil {
				if !valid[hash(b)] {
					mu.Lock()
					broken++
					mu.Unlock()
				}
			} else if valid[hash([]byte("before"))] {
				mu.Lock()
				broken++
				mu.Unlock()
			}
		}
	}()
	for _, x := range xs {
		savers.Add(1)
		go func(x Ix) {
			defer savers.Done()
			for n := 0; n < 4; n++ {
				out, msg := guard(func() error { return x.Save(target) })
				if out != "ok" {
					mu.Lock()
					errs = append(errs, out+": "+msg)
					mu.Unlock()
				}
			}
		}(x)
	}
	for _, kid := range kids {
		kid.start()
	}
	for _, kid := range kids {
		if msg := kid.end(); msg != "" {
			mu.Lock()
			errs = append(errs, msg)
			mu.Unlock()
		}
	}
	savers.Wait()
	close(stop)
	readers.Wait()
	stray := []string{}
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if n := e.Name(); n != "target" && n[:3] != "own" {
			stray = append(stray, n)
		}
	}
	for _, x := range xs {
		x.Close()
	}
	cm.out.Put(M{"op": "raced", "broken": broken, "errs": len(errs), "why": fmt.Sprint(errs), "whole": valid[fileHash(target)], "stray": len(stray)})
	os.RemoveAll(d)
}

func init() {
	cmds["together"] = func(args []string) {
		fl, cm := common("together")
		in := fl.String("in", "", "")
		conc := fl.Bool("concurrent", false, "")
		fl.Parse(args)
		cm.open()
		var orders [][]int
		if *in != "" {
			lines(*in, func(b []byte) {
				var x []int
				must(json.Unmarshal(b, &x))
				orders = append(orders, x)
			})
		}
		for i := cm.lo; i < cm.hi; i++ {
			var o []int
			if orders != nil {
				o = orders[i%len(orders)]
			}
			cm.attempt(60*time.Second, func() { togetherRun(cm, i, o, *conc) })
		}
		cm.out.Close()
	}
	cmds["saverace"] = func(args []string) {
		fl, cm := common("saverace")
		procs := fl.Bool("procs", false, "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			cm.attempt(60*time.Second, func() { raceRun(cm, i, *procs) })
		}
		cm.out.Close()
	}
	// racekid CFG SEED OWN TARGET
	cmds["racekid"] = func(args []string) {
		var c Cfg
		must(json.Unmarshal([]byte(args[0]), &c))
		seed, err := strconv.ParseUint(args[1], 10, 64)
		must(err)
		out := os.Stdout
		os.Stdout = os.Stderr
		x := racer(c, seed)
		if err := x.Save(args[2]); err != nil {
			fmt.Fprintln(out, err)
			return
		}
		fmt.Fprintln(out, "ready")
		bufio.NewReader(os.Stdin).ReadString('\n')
		for n := 0; n < 6; n++ {
			how, msg := guard(func() error { return x.Save(args[3]) })
			if how == "ok" && n%2 == 1 {
				how, msg = guard(func() error { return x.Load(args[2]) })
			}
			if how != "ok" {
				fmt.Fprintln(out, how, msg)
				return
			}
		}
		fmt.Fprintln(out, "ok")
	}
}
