package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// One save, in a process of its own that is traced, killed or disturbed from
// outside (lib/savefs.py); and saves with a limit on the size of files. Judged
// by spec/SaveFSTrace.tla.

// saveScene is what is saved where.
type saveScene struct {
	Cfg   Cfg    `json:"cfg"`
	N     int    `json:"n"`
	Q     int    `json:"q"`
	Phase string `json:"phase"` // built, loaded (from other), self (loaded from the target)
	Old   string `json:"old"`   // absent, index, junk
	Seed  uint64 `json:"seed"`
}

func sceneOf(r *Rand, i int) saveScene {
	c := genCfg(r)
	c.Bld, c.Multi, c.Verbose = false, false, false
	c.Dim = []int{2, 5, 17}[r.N(3)]
	s := saveScene{Cfg: c, N: 1 + r.N(60), Q: 1 + r.N(3), Seed: r.U64() % 1000}
	s.Phase = []string{"built", "built", "loaded", "self"}[i%4]
	s.Old = []string{"index", "absent", "junk"}[(i/4)%3]
	if i%9 == 4 {
		s.N = 3000
	}
	if s.Phase == "self" {
		s.Old = "index"
	}
	return s
}

// prepare makes the directory: the target with its old content, and the index.
func (s saveScene) prepare(dir string) (x Ix, qs []query, order []int) {
	target := filepath.Join(dir, "target")
	r := NewRand(s.Seed)
	mk := func(n int, tag uint64) (Ix, map[int][]float64, []int) {
		rr := r.Fork(tag)
		order := spread(rr, n, "dense")
		vs := data(rr, n, s.Cfg.Dim, "generic")
		items := map[int][]float64{}
		for k, id := range order {
			items[id] = vs[k]
		}
		x := Make(s.Cfg, nil)
		fill(x, items, order)
		x.Build(s.Q, 1)
		return x, items, order
	}
	switch s.Old {
	case "index":
		o, _, _ := mk(s.N+7, 1)
		need(o.Save(target))
		o.Close()
	case "junk":
		need(os.WriteFile(target, []byte(strings.Repeat("junk ", 1000)), 0o644))
	}
	x, items, order := mk(s.N, 2)
	switch s.Phase {
	case "loaded":
		other := filepath.Join(dir, "other")
		need(x.Save(other))
		x.Close()
		x = Make(s.Cfg, nil)
		need(x.Load(other))
	case "self":
		x.Close()
		x = Make(s.Cfg, nil)
		need(x.Load(target))
		order = spread(NewRand(1), s.N+7, "dense")
		items = map[int][]float64{}
		for _, id := range order {
			items[id] = x.Get(uint64(id))
		}
	}
	qs = queries(NewRand(s.Seed+5), s.Cfg, items, order, s.Q, len(order)*s.Q, false, 12)
	return x, qs, order
}

func answersHash(x Ix, qs []query) string {
	ctx := x.Ctx()
	s := ""
	for _, q := range qs {
		a := ask(x, q, "", ctx)
		if a.out != "ok" {
			return "failed: " + a.msg
		}
		s += a.hash()
	}
	return hash(s)
}

func strays(dir string) []string {
	res := []string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if n := e.Name(); n != "target" && n != "other" && n != "result" && n != "again" {
			res = append(res, n)
		}
	}
	sort.Strings(res)
	return res
}

func fileHash(p string) string {
	b, err := os.ReadFile(p)
	if errors.Is(err, os.ErrNotExist) {
		return "absent"
	}
	if err != nil {
		return "unreadable"
	}
	return hash(b)
}

// trySave saves and tells what is left of the index afterwards.
func trySave(x Ix, qs []query, order []int, dir string, before, after func()) M {
	target := filepath.Join(dir, "target")
	i0, a0 := itemsHash(x, order), answersHash(x, qs)
	before()
	out, msg := guard(func() error { return x.Save(target) })
	after()
	res := M{"out": out, "msg": msg, "target": fileHash(target), "stray": len(strays(dir))}
	var i1, a1 string
	o2, m2 := guard(func() error { i1, a1 = itemsHash(x, order), answersHash(x, qs); return nil })
	res["search"] = o2 == "ok" && i1 == i0 && a1 == a0
	res["why"] = m2
	again := filepath.Join(dir, "again")
	o3, m3 := guard(func() error { return x.Save(again) })
	for k := 0; k < 6 && o3 != "ok"; k++ { // the disturbance ends after a few calls
		o3, m3 = guard(func() error { return x.Save(again) })
	}
	res["again"], res["why2"] = o3 == "ok", m3
	if o3 == "ok" {
		guard(func() error { a1 = answersHash(x, qs); return nil })
		res["again"] = a1 == a0
	}
	res["againhash"] = fileHash(again)
	return res
}

func init() {
	// strace counts calls per thread
	if len(os.Args) > 1 && os.Args[1] == "savekid" {
		runtime.LockOSThread()
	}
	// savelater SCENE DIR: another index is saved there, whatever is there.
	cmds["savelater"] = func(args []string) {
		var s saveScene
		must(json.Unmarshal([]byte(args[0]), &s))
		s.Phase, s.Old = "built", "as is"
		x, qs, order := s.prepare(args[1])
		res := trySave(x, qs, order, args[1], func() {}, func() {})
		if res["out"] != "ok" || res["target"] != res["againhash"] || res["search"] != true || res["again"] != true {
			b, _ := json.Marshal(res)
			fmt.Println(string(b))
			os.Exit(1)
		}
	}
	// savekid SCENE DIR: DIR must be empty.
	cmds["savekid"] = func(args []string) {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
		var s saveScene
		must(json.Unmarshal([]byte(args[0]), &s))
		dir := args[1]
		x, qs, order := s.prepare(dir)
		old := fileHash(filepath.Join(dir, "target"))
		res := trySave(x, qs, order, dir,
			func() { os.Lstat("/vh-mark-begin") }, func() { os.Lstat("/vh-mark-end") })
		res["old"] = old
		b, _ := json.Marshal(res)
		for k := 0; k < 8; k++ { // this may be disturbed, too
			if os.WriteFile(filepath.Join(dir, "result"), b, 0o644) == nil {
				os.Exit(0)
			}
		}
		os.Exit(4)
	}
	cmds["scenes"] = func(args []string) {
		fl, cm := common("scenes")
		fl.Parse(args)
		cm.open()
		for i := cm.lo; i < cm.hi; i++ {
			cm.out.Put(sceneOf(cm.rand(i, 8), i))
		}
		cm.out.Close()
	}
	// Writes that stop at a limit on the size of files, after a part of them.
	cmds["savelimit"] = func(args []string) {
		fl, cm := common("savelimit")
		fl.Parse(args)
		cm.open()
		cm.out.FlushEach = true
		var lim0 syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim0))
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 9)
			s := sceneOf(r, i)
			cm.mark.Set(M{"case": i, "scene": s})
			cm.out.Put(M{"op": "cfg", "case": i, "scene": s})
			dir := filepath.Join(cm.dir, fmt.Sprint("l", i))
			must(os.MkdirAll(dir, 0o755))
			cm.attempt(100*time.Second, func() {
				probe, _, _ := s.prepare(dir)
				full := filepath.Join(dir, "full")
				need(probe.Save(full))
				fi, err := os.Stat(full)
				need(err)
				size := fi.Size()
				want := fileHash(full)
				probe.Close()
				for _, n := range []string{"full", "target", "other"} {
					os.Remove(filepath.Join(dir, n))
				}
				lims := []int64{0, 1, size / 2, size - 1, size, int64(r.N(int(size)))}
				for _, lim := range lims {
					x, qs, order := s.prepare(dir)
					old := fileHash(filepath.Join(dir, "target"))
					// only the save proper is limited
					res := trySave(x, qs, order, dir, func() {
						l := lim0
						l.Cur = uint64(lim)
						must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
					}, func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim0)) })
					res["op"], res["sys"], res["old"], res["new"] = "fault", "limit", old, want
					res["mustfail"] = lim < size
					cm.out.Put(res)
					x.Close()
					for _, n := range append(strays(dir), "target", "other", "again") {
						os.Remove(filepath.Join(dir, n))
					}
				}
			})
			os.RemoveAll(dir)
		}
		cm.out.Close()
	}
}
