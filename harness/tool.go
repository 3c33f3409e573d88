package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"time"
)

// Runs of the precision tool. Checked against spec/ToolTrace.tla.

var (
	reAsked = regexp.MustCompile(`(?m)^finding nbs for (\d+)$`)
	reSaid  = regexp.MustCompile(`(?m)^limit = (\d+), precision = ([-+.0-9A-Za-z]+),`)
)

// mark tells whether a file is there: 0 no, 1 as before, 2 otherwise.
func markOf(p, before string) int {
	switch h := fileHash(p); {
	case h == "absent":
		return 0
	case h == before:
		return 1
	}
	if b, err := os.ReadFile(p); err != nil || bytes.Contains(b, []byte("before")) {
		return 3 // a mixture
	}
	return 2
}

func toolCase(cm *Common, r *Rand, i int, exe string) {
	n := []int{1, 2, 5, 9, 10, 11, 40, 99, 100, 120, 300, 1000, 1100}[r.N(13)]
	d := []int{1, 2, 3, 5, 8, 15, 40}[r.N(7)]
	prec := 1 + r.N(30)
	if n*d > 5000 {
		d = 5
	}
	keep, file, gc, verbose := r.N(4) > 0, r.Bool(), r.Bool(), n < 20 && r.N(3) == 0
	cm.out.Put(M{"op": "cfg", "case": i, "n": n, "d": d, "prec": prec, "keep": keep, "file": file, "gc": gc, "verbose": verbose})
	dir := filepath.Join(cm.dir, fmt.Sprint("tool", i))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	p := func(s string) string { return filepath.Join(dir, s) }
	must(os.WriteFile(p("bystander.ann"), []byte("x"), 0o644))
	if r.Bool() {
		must(os.WriteFile(p("results.txt"), bytes.Repeat([]byte("before\n"), 9000), 0o644))
	}
	if r.Bool() {
		must(os.WriteFile(p("test.ann"), []byte("before"), 0o644))
	}
	ann0, res0 := fileHash(p("test.ann")), fileHash(p("results.txt"))
	args := []string{"-items", strconv.Itoa(n), "-length", strconv.Itoa(d), "-prec", strconv.Itoa(prec)}
	for _, o := range []struct {
		on   bool
		flag string
	}{{keep, "-keep"}, {file, "-file"}, {gc, "-use-memory-index-allocator"}, {verbose, "-verbose"}} {
		if o.on {
			args = append(args, o.flag)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	rc := 0
	if err := cmd.Run(); err != nil {
		rc = 1
	}
	text := so.Bytes()
	if file {
		text, _ = os.ReadFile(p("results.txt"))
	}
	asked, limits, said := []int{}, []int{}, []int{}
	for _, m := range reAsked.FindAllSubmatch(text, -1) {
		x, _ := strconv.Atoi(string(m[1]))
		asked = append(asked, x)
	}
	for _, m := range reSaid.FindAllSubmatch(text, -1) {
		x, _ := strconv.Atoi(string(m[1]))
		y, err := strconv.ParseFloat(string(m[2]), 64)
		if err != nil || y != y || math.Abs(y) > 3 {
			y = -1
		}
		limits, said = append(limits, x), append(said, int(math.Round(y*1e6)))
	}
	b, _ := os.ReadFile(p("bystander.ann"))
	es, _ := os.ReadDir(dir)
	other := string(b) == "x"
	for _, e := range es {
		if s := e.Name(); s != "bystander.ann" && s != "results.txt" && s != "test.ann" {
			other = false
		}
	}
	ev := M{"op": "ran", "rc": rc, "err": string(se.Bytes()[:int(math.Min(300, float64(se.Len())))]), "n": n, "d": d, "prec": prec,
		"keep": keep, "file": file, "verbose": verbose, "stdout": so.Len(), "other": other,
		"ann0": markOf0(ann0), "ann": markOf(p("test.ann"), ann0), "res0": markOf0(res0), "res": markOf(p("results.txt"), res0),
		"asked": asked, "limits": limits, "said": said, "found": []int{}, "index": "none", "items": 0, "trees": 0}
	if keep && rc == 0 {
		toolIndex(ev, p("test.ann"), n, d, asked, limits)
	}
	cm.out.Put(ev)
}

func markOf0(h string) int {
	if h == "absent" {
		return 0
	}
	return 1
}

// toolIndex asks the index that the tool has left what the tool asked it.
func toolIndex(ev M, path string, n, d int, asked, limits []int) {
	c := Cfg{TV: "f32", TIX: "u32", Dist: "ang", Dim: d, Loader: "gc", Multi: true}
	x := Make(c, nil)
	defer x.Close()
	ev["index"] = "bad"
	if x.Load(path) != nil {
		return
	}
	f, err := readFile(c, path)
	if err != nil {
		return
	}
	ev["index"] = "ok"
	items := 0
	for i := 0; i < f.N && f.nd(i) == 1; i++ {
		items++
	}
	ev["items"], ev["trees"] = items, f.rootCount(n)
	if n == 1 { // then roots and items look alike
		ev["items"], ev["trees"] = 1, (f.N-1)/2
	}
	ctx := x.Ctx()
	found := []int{}
	for _, j := range asked {
		if j >= n {
			return
		}
		near, _ := x.ByItem(uint64(j), 10, n, ctx)
		is := map[uint64]bool{}
		for _, id := range near {
			is[id] = true
		}
		for _, lim := range limits {
			got, _ := x.ByItem(uint64(j), lim, -1, ctx)
			h := 0
			for _, id := range got {
				if is[id] {
					h++
				}
			}
			found = append(found, h)
		}
	}
	ev["found"] = found
}

func init() {
	// tool -exe FILE
	cmds["tool"] = func(args []string) {
		fl, cm := common("tool")
		exe := fl.String("exe", "", "")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 61)
			cm.mark.Set(M{"case": i})
			cm.attempt(150*time.Second, func() { toolCase(cm, r, i, *exe) })
		}
		cm.out.Close()
	}
}
