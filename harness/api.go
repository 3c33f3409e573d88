package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Histories of API calls on a few indexes of one process, with everything the
// caller can observe after each call. Checked against spec/AnnoyTrace.tla.

// Op is one call (or act of the environment).
type Op struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	X  int    `json:"x"` // id; number of trees for build
	V  int    `json:"v"` // vector token; number of workers for build
	P  string `json:"p"`
}

// Hist is a history together with the indexes it runs on.
type Hist struct {
	Name   string   `json:"name"`
	Cfg    []Cfg    `json:"cfg"`
	Share  string   `json:"share"` // what the indexes share: "", "loader", "parts", "builder"
	Paths  []string `json:"paths"`
	Track  []int    `json:"track"` // ids whose vectors are read after each call
	Every  int      `json:"every"` // observe everything after every n-th call
	Salt   uint64   `json:"salt"`
	Extr   bool     `json:"extreme"`
	Rel    bool     `json:"rel,omitempty"` // paths are given relative to the current folder
	Ops    []Op     `json:"ops"`
	Remark string   `json:"remark,omitempty"`
}

type apiRun struct {
	h     Hist
	dir   string
	out   *Out
	mark  *Marker
	ix    []Ix
	lid   []int // loader id of each index, from 1
	lix   []int // an index per loader, to ask it
	toks  map[string]int
	ntok  int
	vtok  map[string]int
	lastN []int // span known to the harness (for reading ids)
	tmp   int
	cno   int
}

func (r *apiRun) path(p string) string {
	if r.h.Rel {
		return p
	}
	return filepath.Join(r.dir, p)
}

func (r *apiRun) fsToken(p string) int {
	st, err := os.Lstat(r.path(p))
	if err != nil {
		return 0
	}
	if st.IsDir() {
		return -1
	}
	b, err := os.ReadFile(r.path(p))
	if err != nil {
		return -2
	}
	k := hash(b)
	if r.toks[k] == 0 {
		r.ntok++
		r.toks[k] = r.ntok
	}
	return r.toks[k]
}

// procCounts counts the mappings and the open descriptors per path of dir.
func procCounts(dir string, paths []string) (maps, fds []int) {
	maps, fds = make([]int, len(paths)), make([]int, len(paths))
	pos := map[string]int{}
	for i, p := range paths {
		pos[filepath.Join(dir, p)] = i
	}
	count := func(s string, into []int) {
		s = strings.TrimSuffix(s, " (deleted)")
		if i, ok := pos[s]; ok {
			into[i]++
		} else if strings.HasPrefix(s, dir+"/") {
			// a file that is no path of the history: count it for the path it is named after
			best := -1
			for q, i := range pos {
				if strings.HasPrefix(s, q) {
					best = i
				}
			}
			if best >= 0 {
				into[best]++
			}
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			count(l[i:], maps)
		}
	}
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			count(t, fds)
		}
	}
	return
}

func (r *apiRun) vec(i, tok int) []float64 {
	c := r.h.Cfg[i-1]
	return vecOf(tok, c.Dim, r.h.Salt, r.h.Extr)
}
func (r *apiRun) tokOf(i int, v []float64) int {
	if t, ok := r.vtok[bitsKey(v)]; ok {
		return t
	}
	zero := true
	for _, x := range v {
		if x != 0 {
			zero = false
		}
	}
	if zero {
		return 0
	}
	return -1
}

// regs asks all loaders about all paths: 0 closed, 1 open, 2 cannot ask.
func (r *apiRun) regs() [][]int {
	var res [][]int
	for _, i := range r.lix {
		row := []int{}
		for _, p := range r.h.Paths {
			v := 2
			guard(func() error {
				known, open, _ := r.ix[i-1].Reg(r.path(p))
				if known {
					v = 0
					if open {
						v = 1
					}
				}
				return nil
			})
			row = append(row, v)
		}
		res = append(res, row)
	}
	return res
}

func clampDists(ds []float64) []float64 { return ds }

// observe reads everything an index shows: the vectors of the tracked ids, what
// an exhaustive search finds, and a digest of distances and answers.
func (r *apiRun) observe(i int, track []int) (vals []int, reach []uint64, dig string) {
	x := r.ix[i-1]
	vals = []int{}
	reach = []uint64{}
	for _, id := range track {
		t := -9
		out, _ := guard(func() error {
			v := x.Get(uint64(id))
			if len(v) != r.h.Cfg[i-1].Dim {
				t = -8
				return nil
			}
			t = r.tokOf(i, v)
			return nil
		})
		switch out {
		case "refused":
			t = -2
		case "fault":
			t = -3
		}
		vals = append(vals, t)
	}
	var parts []any
	q := r.vec(i, 1)
	out, msg := guard(func() error {
		ctx := x.Ctx()
		ids, ds := x.ByVec(q, 1<<20, 1<<30, ctx)
		parts = append(parts, ids, ds)
		reach = append(reach, ids...)
		sort.Slice(reach, func(a, b int) bool { return reach[a] < reach[b] })
		kb := [][2]int{{1, -1}, {3, -1}, {len(ids), -1}, {len(ids) + 5, -1}, {2, 3}, {5, 1}, {4, 1 << 20}, {0, -1}, {3, 0}}
		for t := 0; t < 3; t++ {
			for _, p := range kb {
				a, b := x.ByVec(r.vec(i, 2+t), p[0], p[1], ctx)
				parts = append(parts, a, b)
			}
		}
		for n, id := range reach {
			if n > 6 {
				break
			}
			for _, p := range kb[:5] {
				a, b := x.ByItem(id, p[0], p[1], ctx)
				parts = append(parts, a, b)
			}
			for m, jd := range reach {
				if m <= 6 {
					parts = append(parts, x.Dist(id, jd))
				}
			}
		}
		return nil
	})
	if out != "ok" {
		return vals, []uint64{}, "failed: " + out + " " + msg
	}
	return vals, reach, hash(parts...)
}

// goodFile writes a file that can be loaded or a spoilt variant of one.
func (r *apiRun) envPut(kind, p string, c Cfg) {
	r.tmp++
	tmp := filepath.Join(r.dir, fmt.Sprintf("env%d", r.tmp))
	dst := r.path(p)
	ns := 0
	for _, x := range r.ix {
		ns = x.NodeSize()
		break
	}
	node := func(nd uint32, rest byte) []byte {
		b := make([]byte, ns)
		for i := range b {
			b[i] = rest
		}
		for i := 0; i < c.tixSize(); i++ {
			b[i] = 0
		}
		b[0], b[1], b[2], b[3] = byte(nd), byte(nd>>8), byte(nd>>16), byte(nd>>24)
		return b
	}
	var data []byte
	switch kind {
	case "dir":
		os.Remove(dst)
		must(os.Mkdir(dst, 0o755))
		return
	case "empty":
	case "odd":
		for i := 0; i < 3; i++ {
			data = append(data, node(1, 3)...)
		}
		data = data[:len(data)-1-r.tmp%(ns-1)]
	case "short":
		data = node(1, 3)[:1+r.tmp%(ns-1)]
	case "tail", "cut": // a good index of two items, and some bytes more or less
		data = append(node(1, 3), node(1, 9)...)
		root := node(2, 0)
		root[2*c.tixSize()] = 1 // its children are 0 and 1
		data = append(append(data, root...), root...)
		if kind == "tail" {
			data = append(data, make([]byte, 1+r.tmp%(ns-1))...)
		} else {
			data = data[:len(data)-1-r.tmp%(ns-1)]
		}
	case "orphans": // what look like the copies of two roots, but there are no such roots
		data = append(node(1, 3), node(1, 9)...)
		for i := byte(0); i < 2; i++ {
			root := node(2, 0)
			root[c.tixSize()], root[2*c.tixSize()] = i, 1-i
			data = append(data, root...)
		}
	case "notree": // nothing but items
		for i := 0; i < 1+r.tmp%5; i++ {
			data = append(data, node(1, byte(11*i+5))...)
		}
	case "nonsense": // the last node claims more items than there are nodes
		for i := 0; i < 4; i++ {
			data = append(data, node(0x7fffff00+uint32(i), 0)...)
		}
	case "text":
		data = []byte(strings.Repeat("this is not an index. ", 40))
		data = data[:len(data)/ns*ns+1]
		if len(data)%ns == 0 {
			data = append(data, 'x')
		}
	default:
		die("unknown kind %s", kind)
	}
	must(os.WriteFile(tmp, data, 0o644))
	if st, err := os.Lstat(dst); err == nil && st.IsDir() {
		must(os.RemoveAll(dst))
	}
	must(os.Rename(tmp, dst))
}

func (r *apiRun) do(n int, op Op) M {
	ev := M{"op": op.Op, "i": op.I, "x": op.X, "v": op.V, "p": op.P, "n": n}
	out, msg := "ok", ""
	var x Ix
	if op.I > 0 {
		x = r.ix[op.I-1]
	}
	if r.mark != nil {
		r.mark.Set(M{"case": r.cno, "n": n, "ev": ev, "nidx": len(r.ix)})
	}
	watch(60*time.Second, func() {
		switch {
		case op.Op == "add":
			out, msg = guard(func() error { x.Add(uint64(op.X), r.vec(op.I, op.V)); return nil })
		case op.Op == "addbad":
			out, msg = guard(func() error {
				v := r.vec(op.I, 1)
				if op.V%2 == 0 {
					v = append(v, 1)
				} else {
					v = v[:len(v)-1]
				}
				x.Add(uint64(op.X), v)
				return nil
			})
		case op.Op == "get":
			out, msg = guard(func() error { x.Get(uint64(op.X)); return nil })
		case op.Op == "build":
			out, msg = guard(func() error { x.Build(op.X, op.V); return nil })
		case op.Op == "save":
			out, msg = guard(func() error { return x.Save(r.path(op.P)) })
		case op.Op == "saveno": // there is no such folder
			out, msg = guard(func() error { return x.Save(r.path("missing/" + op.P)) })
		case op.Op == "load":
			out, msg = guard(func() error { return x.Load(r.path(op.P)) })
		case op.Op == "close":
			out, msg = guard(func() error { return x.Close() })
		case op.Op == "all":
			out, msg = guard(func() error { r.observe(op.I, r.h.Track); return nil })
		case op.Op == "qbad":
			out, msg = guard(func() error {
				v := r.vec(op.I, 1)
				if op.V%2 == 0 {
					v = append(v, 1)
				} else {
					v = v[:len(v)-1]
				}
				x.ByVec(v, 3, -1, x.Ctx())
				return nil
			})
		case op.Op == "rm":
			must(os.RemoveAll(r.path(op.P)))
		case strings.HasPrefix(op.Op, "put-"):
			r.envPut(op.Op[4:], op.P, r.h.Cfg[0])
			ev["op"] = "put"
			ev["kind"] = op.Op[4:]
		default:
			die("unknown op %s", op.Op)
		}
	})
	ev["out"] = out
	if msg != "" {
		ev["msg"] = msg
	}
	fs := []int{}
	for _, p := range r.h.Paths {
		fs = append(fs, r.fsToken(p))
	}
	ev["fs"] = fs
	stray := 0
	expect := map[string]bool{}
	for _, p := range r.h.Paths {
		for q := p; q != "."; q = filepath.Dir(q) {
			expect[q] = true
		}
	}
	filepath.Walk(r.dir, func(p string, _ os.FileInfo, _ error) error {
		if q, _ := filepath.Rel(r.dir, p); q != "." && !expect[q] {
			stray++
			ev["strayName"] = q
		}
		return nil
	})
	ev["stray"] = stray
	ev["maps"], ev["fds"] = procCounts(r.dir, r.h.Paths)
	ev["reg"] = r.regs()
	full := r.h.Every <= 1 || n%r.h.Every == 0 || n == len(r.h.Ops)
	ev["full"] = full
	vals, reach, digs := [][]int{}, [][]uint64{}, []string{}
	if full {
		if r.mark != nil {
			r.mark.Set(M{"case": r.cno, "n": n, "ev": M{"op": "observe", "i": op.I, "x": 0, "v": 0, "p": ""}, "nidx": len(r.ix)})
		}
		watch(60*time.Second, func() {
			for i := range r.ix {
				v, re, d := r.observe(i+1, r.h.Track)
				vals, reach, digs = append(vals, v), append(reach, re), append(digs, d)
			}
		})
	}
	ev["vals"], ev["reach"], ev["dig"] = vals, reach, digs
	return ev
}

// runHist runs one history in a directory of its own.
func runHist(cno int, h Hist, base string, out *Out, mark *Marker) {
	dir, err := os.MkdirTemp(base, "h")
	must(err)
	defer os.RemoveAll(dir)
	for _, p := range h.Paths {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o755))
	}
	if h.Rel {
		old, err := os.Getwd()
		must(err)
		must(os.Chdir(dir))
		defer os.Chdir(old)
	}
	r := &apiRun{cno: cno, h: h, dir: dir, out: out, mark: mark, toks: map[string]int{}, vtok: map[string]int{}}
	var sh *Shared
	mapped, lid := []bool{}, []int{}
	for i, c := range h.Cfg {
		switch h.Share {
		case "loader":
			if sh == nil {
				sh = &Shared{loader: newLoader(c.Loader)}
			}
		case "parts":
			if sh == nil {
				one := Make(c, nil)
				_ = one
				sh = &Shared{loader: newLoader(c.Loader), rnd: rndFor(c), pol: newPolicy(c.Multi)}
			}
		case "builder":
			if sh == nil {
				sh = &Shared{}
			}
		default:
			sh = nil
		}
		r.ix = append(r.ix, Make(c, sh))
		l := i + 1
		if sh != nil {
			l = 1
		}
		lid = append(lid, l)
		if l > len(r.lix) {
			r.lix = append(r.lix, i+1)
		}
		mapped = append(mapped, c.Loader == "mmap")
	}
	r.lid = lid
	for t := 0; t < 64; t++ {
		for i := range h.Cfg {
			v := r.vec(i+1, t)
			for k := range v {
				v[k] = r.ix[i].Round(v[k])
			}
			r.vtok[bitsKey(v)] = t
		}
	}
	out.Put(M{"op": "cfg", "case": cno, "name": h.Name, "share": h.Share, "kinds": h.Cfg, "nidx": len(h.Cfg), "loader": lid, "mapped": mapped,
		"paths": h.Paths, "track": h.Track, "out": "ok", "i": 0, "p": ""})
	for n, op := range h.Ops {
		ev := r.do(n+1, op)
		out.Put(ev)
		if o := ev["out"].(string); o == "fault" {
			break
		}
	}
	for _, x := range r.ix {
		guard(func() error { return x.Close() })
	}
}

func readHists(path string) []Hist {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var res []Hist
	for sc.Scan() {
		var h Hist
		must(json.Unmarshal(sc.Bytes(), &h))
		res = append(res, h)
	}
	return res
}

func init() {
	cmds["api"] = func(args []string) {
		fl, c := common("api")
		in := fl.String("in", "", "")
		fl.Parse(args)
		debug.SetGCPercent(-1) // finalizers would close leaked files
		debug.SetMemoryLimit(3 << 30)
		c.open()
		c.out.FlushEach = true
		for i, h := range readHists(*in) {
			if i >= c.lo && i < c.hi {
				c.mark.Set(M{"case": i})
				runHist(i, h, c.dir, c.out, c.mark)
			}
		}
		c.out.Close()
	}
	// genapi -seed s -n count -kind mix -out histories.ndjson
	cmds["genapi"] = func(args []string) {
		fl := flag.NewFlagSet("genapi", flag.ExitOnError)
		seed := fl.Uint64("seed", 1, "")
		n := fl.Int("n", 10, "")
		focus := fl.String("focus", "", "")
		outp := fl.String("out", "", "")
		fl.Parse(args)
		o := NewOut(*outp)
		r := NewRand(*seed)
		for i := 0; i < *n; i++ {
			o.Put(genHist(r.Fork(uint64(i)), i, *focus))
		}
		o.Close()
	}
	// cfgapi -in calls.ndjson -out histories.ndjson: histories from TLC get indexes
	cmds["cfgapi"] = func(args []string) {
		fl := flag.NewFlagSet("cfgapi", flag.ExitOnError)
		seed := fl.Uint64("seed", 1, "")
		in := fl.String("in", "", "")
		outp := fl.String("out", "", "")
		share := fl.String("share", "", "")
		nidx := fl.Int("nidx", 1, "")
		paths := fl.String("paths", "a,b", "")
		fl.Parse(args)
		r := NewRand(*seed)
		f, err := os.Open(*in)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		o := NewOut(*outp)
		for n := 0; sc.Scan(); n++ {
			var ops []Op
			must(json.Unmarshal(sc.Bytes(), &ops))
			o.Put(dressHist(r.Fork(uint64(n)), n, ops, *nidx, *share, strings.Split(*paths, ",")))
		}
		o.Close()
	}
}

var dims = []int{1, 2, 3, 4, 12, 16, 40}

func genCfg(r *Rand) Cfg {
	c := Cfg{TV: "f32", TIX: "u32", Dist: "ang", Dim: dims[r.N(len(dims))], Loader: "mmap", Seed: uint64(r.N(5)), Hint: 0}
	if r.N(4) == 0 {
		c.TV = "f64"
	}
	if r.N(4) == 0 {
		c.TIX = "u64"
	}
	if r.N(4) == 0 {
		c.Dist = "dot"
	}
	if r.N(2) == 0 {
		c.Loader = "gc"
	}
	c.Multi = r.N(2) == 0
	c.Verbose = r.N(8) == 0
	if r.N(3) == 0 {
		c.Sorter = 1 + r.N(2)
	}
	switch r.N(4) {
	case 0:
		c.Hint = 1
	case 1:
		c.Hint = 1 + r.N(50)
	}
	if r.N(5) == 0 {
		c.Bld = true
		c.Dist = "ang"
	}
	return c
}

// cfgsFor gives nidx indexes, which must be alike when they share things.
func cfgsFor(r *Rand, nidx int, share string) []Cfg {
	c := genCfg(r)
	if share == "builder" {
		c.Bld, c.Dist = true, "ang"
	} else if share != "" {
		c.Bld = false
	}
	res := []Cfg{}
	for i := 0; i < nidx; i++ {
		d := c
		if share == "" && i > 0 && r.Bool() { // the file format is the same
			d.Loader = []string{"mmap", "gc"}[r.N(2)]
			d.Multi = r.Bool()
			d.Hint = r.N(9)
			d.Seed = uint64(r.N(5))
		}
		res = append(res, d)
	}
	return res
}

var idMaps = [][]int{{0, 1, 2}, {0, 2, 5}, {1, 7, 33}, {0, 1, 900}, {3, 4, 5}, {0, 40, 41}}

// dressHist chooses what TLC's history runs on: kinds of indexes, real ids for
// the abstract ones, numbers of workers.
func dressHist(r *Rand, n int, ops []Op, nidx int, share string, paths []string) Hist {
	h := Hist{Name: fmt.Sprintf("t%d", n), Cfg: cfgsFor(r, nidx, share), Share: share, Paths: paths, Every: 1, Salt: uint64(r.N(1000))}
	m := idMaps[r.N(len(idMaps))]
	h.Track = append(append([]int{}, m...), m[2]+1, m[2]+2000)
	for _, op := range ops {
		if op.Op == "add" || op.Op == "addbad" || op.Op == "get" {
			op.X = m[op.X]
		}
		if op.Op == "build" {
			op.V = []int{1, 1, 2, 3, -1, 0}[r.N(6)]
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

var badKinds = []string{"empty", "odd", "short", "dir", "notree", "nonsense", "text", "tail", "tail", "cut", "orphans"}

// pathNames has files that may get into each other's way.
var pathNames = [][]string{{"a", "b", "c"}, {"a", "b", "c"}, {"a", "a.tmp", "a.tmp.tmp"}, {"a.tmp", "a", "a.bak"}, {"a~", "a", ".a.swp"},
	{"a.1", "a", "a.old"}, {"a.ann", "a.ann.new", "a"}, {strings.Repeat("n", 250), "tmp", strings.Repeat("n", 249)},
	{"a", "d/a", "d/d/a"}, {"x/a", "y/a", "a"}, {"a.b/c", "a.b/c.tmp", "c"}}

// genHist makes a long random history. It steers away from calls that are out
// of order only so much that all phases occur.
func genHist(r *Rand, n int, focus string) Hist {
	nidx := 1 + r.N(3)
	share := []string{"", "", "loader", "parts", "builder"}[r.N(5)]
	if focus == "C21" {
		nidx = 2 + r.N(2)
	}
	if focus == "C01" {
		nidx, share = 1, ""
	}
	h := Hist{Name: fmt.Sprintf("r%d", n), Cfg: cfgsFor(r, nidx, share), Share: share,
		Paths: append([]string{}, pathNames[r.N(len(pathNames))]...), Salt: uint64(r.N(1000)), Every: 1}
	if focus == "C18" {
		for i := range h.Cfg {
			h.Cfg[i].Dist, h.Cfg[i].Bld = "dot", false
		}
		if share == "builder" {
			h.Share = ""
		}
	}
	ids := []int{}
	span := []int{4, 12, 40, 300, 5000}[r.N(5)]
	if r.N(25) == 0 {
		span = 70000
	}
	for i := 0; i < 3+r.N(10); i++ {
		id := r.N(span)
		if span > 5000 {
			id = span - 1 - r.N(5000)
		}
		ids = append(ids, id)
	}
	if r.Bool() {
		ids = append(ids, 0)
	}
	if span <= 12 && r.N(8) == 0 {
		dim := []int{600, 1500, 3000, 5000, 17000}[r.N(5)] + r.N(2)
		for i := range h.Cfg {
			h.Cfg[i].Dim = dim
		}
	}
	h.Track = append(append([]int{}, ids...), span, span+1, 3*span+7000)
	h.Extr = r.N(6) == 0
	h.Rel = r.N(4) == 0
	phase := make([]int, nidx)
	good := map[string]bool{}
	length := 20 + r.N(40)
	if focus == "C01" {
		h.Every = 1 + r.N(4)
	}
	many := r.N(3) == 0 && !h.Extr
	for len(h.Ops) < length {
		i := r.N(nidx)
		op := Op{I: i + 1, P: h.Paths[r.N(2+r.N(2))]}
		id := ids[r.N(len(ids))]
		w := r.N(100)
		if phase[i] == 0 && w < 55 || w < 8 {
			op.Op, op.X, op.V, op.P = "add", id, 1+r.N(60), "-"
			if many && r.N(6) == 0 && phase[i] == 0 {
				for k := 0; k < 30+r.N(40); k++ {
					h.Ops = append(h.Ops, Op{Op: "add", I: i + 1, X: r.N(span), V: 1 + r.N(60), P: "-"})
					length++
				}
			}
		} else if w < 12 || phase[i] == 0 && w < 64 {
			op.Op, op.X, op.V, op.P = "build", []int{1, 1, 2, 3, 5, 11, -1}[r.N(7)], []int{1, 1, 2, 3, 4, 7, -1, 0}[r.N(8)], "-"
			if (h.Extr || span > 5000) && op.X == -1 {
				op.X = 1
			}
			phase[i] = 1
		} else if w < 12 || phase[i] != 0 && w < 45 || w < 72 && w > 68 {
			op.Op = "save"
			if phase[i] > 0 {
				phase[i] = 2
				good[op.P] = true
			}
		} else if phase[i] != 0 && w < 68 || w < 82 {
			op.Op = "load"
			if !good[op.P] && r.N(3) > 0 {
				op.P = h.Paths[r.N(len(h.Paths))]
			}
			phase[i] = 0
			if good[op.P] {
				phase[i] = 2
			}
		} else if w < 86 {
			op.Op, op.P = "close", "-"
			phase[i] = 0
		} else if w < 88 {
			op.Op, op.X, op.V, op.P = "addbad", id, r.N(2), "-"
		} else if w < 90 {
			op.Op, op.V, op.P = "qbad", r.N(2), "-"
		} else if w < 92 {
			op.Op, op.X, op.P = "get", []int{id, span, span + 5, 1 << 20, 1<<31 - 1}[r.N(5)], "-"
		} else if w == 92 {
			op.Op, op.P = "all", "-"
		} else if w == 93 {
			op.Op = "saveno"
		} else if w < 96 {
			op.Op, op.I = "rm", 0
			good[op.P] = false
		} else {
			op.Op, op.I = "put-"+badKinds[r.N(len(badKinds))], 0
			if focus == "C16" || focus == "C15" {
				op.P = h.Paths[r.N(3)]
			}
			good[op.P] = false
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}
