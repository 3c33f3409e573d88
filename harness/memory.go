package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Build allocators and loaders on their own. Checked against spec/MemTrace.tla.

type memCall struct {
	Op string
	P  string
	X  int
	V  int
}

func (m *memCall) UnmarshalJSON(b []byte) error {
	var a []any
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	m.Op = a[0].(string)
	if s, ok := a[1].(string); ok { // files
		m.P, m.X = s, int(a[2].(float64))
	} else {
		m.X, m.V = int(a[1].(float64)), int(a[2].(float64))
	}
	return nil
}

// bytesOf is the content with the number t.
func bytesOf(t int, salt uint64) []byte {
	contentsMu.Lock()
	defer contentsMu.Unlock()
	k := [2]uint64{uint64(t), salt}
	if contents[k] == nil {
		if len(contents) > 16 {
			contents = map[[2]uint64][]byte{}
		}
		contents[k] = makeBytes(t, salt)
	}
	return contents[k]
}

var (
	contentsMu sync.Mutex
	contents   = map[[2]uint64][]byte{}
)

func makeBytes(t int, salt uint64) []byte {
	r := NewRand(salt*31 + uint64(t))
	n := []int{1, 7, 4095, 4096, 4097, 60000, 300000}[r.N(7)]
	if r.N(40) == 0 {
		n = 3 << 20
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return append(b, byte(t)) // no two are the same
}

func memRandom(r *Rand, files bool) (cs []memCall) {
	for n := 8 + r.N(60); n > 0; n-- {
		if files {
			p := string(rune('a' + r.N(3)))
			switch r.N(5) {
			case 0:
				cs = append(cs, memCall{Op: "file", P: p, X: []int{0, -1, 1, 2, 3, 4}[r.N(6)]})
			case 1, 2, 3:
				cs = append(cs, memCall{Op: "open", P: p})
			default:
				cs = append(cs, memCall{Op: "close", X: 1 + r.N(20)})
			}
			continue
		}
		switch k := r.N(12); {
		case k < 5:
			cs = append(cs, memCall{Op: "alloc", X: 1 + r.N(1+r.N(60))})
		case k < 11:
			cs = append(cs, memCall{Op: "put", X: 1 + r.N(1+r.N(60)), V: 1 + r.N(250)})
		default:
			cs = append(cs, memCall{Op: "free"})
		}
	}
	return
}

func memBuild(cm *Common, r *Rand, cs []memCall) {
	a := interfaces.BuildIndexAllocator(memory.GoGCIndexAllocator())
	unit := []int{1, 3, 16, 100, 5000, 100000}[r.N(6)]
	if r.N(40) == 0 {
		unit = []int{1 << 20, 1<<20 + 13}[r.N(2)]
	}
	if cs == nil { // more than 2 GB
		unit, cs = 100<<20, []memCall{{Op: "alloc", X: 11}, {Op: "put", X: 1, V: 3}, {Op: "put", X: 11, V: 4},
			{Op: "alloc", X: 23}, {Op: "put", X: 23, V: 5}, {Op: "put", X: 22, V: 6}, {Op: "alloc", X: 24}, {Op: "free"}, {Op: "alloc", X: 2}}
	}
	asked := 0
	var ptr unsafe.Pointer
	for n, c := range cs {
		switch c.Op {
		case "alloc":
			ptr = a.Reallocate(c.X * unit)
			asked = c.X
		case "put":
			if c.X > asked {
				continue
			}
			b := unsafe.Slice((*byte)(ptr), asked*unit)
			for i := (c.X - 1) * unit; i < c.X*unit; i++ {
				b[i] = byte(c.V)
			}
		case "free":
			a.Free()
			if r.Bool() {
				a.Free()
			}
			asked, ptr = 0, nil
		}
		if r.N(6) == 0 && asked*unit < 10<<20 {
			runtime.GC()
			x := make([][]byte, 20) // who uses it wrongly, loses it
			for i := range x {
				x[i] = bytes.Repeat([]byte{255}, 1+asked*unit)
			}
			runtime.KeepAlive(x)
		}
		cells := []int{}
		if asked > 0 {
			b := unsafe.Slice((*byte)(ptr), asked*unit)
			for k := 0; k < asked; k++ {
				v := int(b[k*unit])
				if u := b[k*unit : (k+1)*unit]; !bytes.Equal(u[1:], u[:unit-1]) {
					v = 999
				}
				cells = append(cells, v)
			}
		}
		cm.out.Put(M{"op": c.Op, "x": c.X, "v": c.V, "cells": cells, "n": n})
	}
	a.Free()
}

// memPath is where the file called a, b or c is: all have the same name.
func memPath(dir, p string) string {
	return filepath.Join(dir, map[string]string{"a": "f", "b": "d/f", "c": "d/d/f"}[p])
}

func memPut(dir, p string, x int, salt uint64, r *Rand) {
	f := memPath(dir, p)
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	if st, err := os.Lstat(f); err == nil && (st.IsDir() || x <= 0) {
		must(os.RemoveAll(f))
	}
	switch {
	case x > 0:
		must(os.WriteFile(f+".new", bytesOf(x, salt), 0o644))
		must(os.Rename(f+".new", f))
	case x == -1 && r.Bool():
		must(os.Mkdir(f, 0o755))
	case x == -1:
		must(os.WriteFile(f, nil, 0o644))
	}
}

func memFiles(cm *Common, r *Rand, kind, dir string, paths []string, cs []memCall) {
	ld := newLoader(kind)
	salt := uint64(r.N(1000))
	type opened struct {
		x    interfaces.AllocatedIndex
		open bool
	}
	var os_ []opened
	for n, c := range cs {
		out, msg := "ok", ""
		switch c.Op {
		case "file":
			memPut(dir, c.P, c.X, salt, r)
		case "open":
			var x interfaces.AllocatedIndex
			out, msg = guard(func() (err error) { x, err = ld.Open(memPath(dir, c.P)); return })
			if out != "ok" {
				x = nil
			}
			os_ = append(os_, opened{x, x != nil})
		case "close":
			if c.X > len(os_) || os_[c.X-1].x == nil {
				continue
			}
			out, msg = guard(func() error { return os_[c.X-1].x.Close() })
			os_[c.X-1].open = false
		}
		if r.N(6) == 0 {
			runtime.GC()
		}
		has := []int{}
		for _, o := range os_ {
			v := 0
			if o.open {
				v = -2
				b := unsafe.Slice((*byte)(o.x.Ptr()), int(o.x.Size()))
				for t := 1; t <= 4; t++ {
					if bytes.Equal(b, bytesOf(t, salt)) {
						v = t
					}
				}
			}
			has = append(has, v)
		}
		says := []int{}
		for _, p := range paths {
			v := 0
			if x, ok := ld.Get(memPath(dir, p)); ok {
				v = -1
				for k, o := range os_ {
					if o.open && x != nil && o.x.Ptr() == x.Ptr() && o.x.Size() == x.Size() {
						v = k + 1
					}
				}
			}
			says = append(says, v)
		}
		cm.out.Put(M{"op": c.Op, "p": c.P, "x": c.X, "out": out, "msg": msg, "has": has, "says": says, "paths": paths, "n": n})
		if out == "fault" {
			break
		}
	}
	for _, o := range os_ {
		if o.x != nil {
			o.x.Close()
		}
	}
}

// memCrowd uses a loader from several goroutines.
func memCrowd(cm *Common, r *Rand, kind, dir string) {
	ld := newLoader(kind)
	paths := []string{"a", "b", "c"}
	salt := uint64(r.N(1000))
	for i, p := range paths {
		memPut(dir, p, i+1, salt, r)
	}
	var mu sync.Mutex
	wrong, errs, unknown, left := 0, 0, 0, 0
	var wg sync.WaitGroup
	for g := 2 + r.N(5); g > 0; g-- {
		wg.Add(1)
		go func(r *Rand) {
			defer wg.Done()
			for n := 0; n < 12; n++ {
				i := r.N(len(paths))
				p := memPath(dir, paths[i])
				var x interfaces.AllocatedIndex
				out, _ := guard(func() (err error) { x, err = ld.Open(p); return })
				if out != "ok" {
					mu.Lock()
					errs++
					mu.Unlock()
					continue
				}
				_, known := ld.Get(p)
				ok := bytes.Equal(unsafe.Slice((*byte)(x.Ptr()), int(x.Size())), bytesOf(i+1, salt))
				if r.Bool() {
					runtime.Gosched()
				}
				out, _ = guard(func() error { return x.Close() })
				mu.Lock()
				if !ok {
					wrong++
				}
				if !known {
					unknown++
				}
				if out != "ok" {
					errs++
				}
				mu.Unlock()
			}
		}(r.Fork(uint64(g)))
	}
	wg.Wait()
	for _, p := range paths {
		if _, ok := ld.Get(memPath(dir, p)); ok {
			left++
		}
	}
	cm.out.Put(M{"op": "crowd", "wrong": wrong, "errs": errs, "unknown": unknown, "left": left})
}

func init() {
	// memory [-in calls of TLC] [-what build|files|crowd]
	cmds["memory"] = func(args []string) {
		fl, cm := common("memory")
		in := fl.String("in", "", "")
		what := fl.String("what", "build", "")
		fl.Parse(args)
		debug.SetGCPercent(200)
		cm.open()
		var calls [][]memCall
		if *in != "" {
			lines(*in, func(b []byte) {
				var cs []memCall
				must(json.Unmarshal(b, &cs))
				calls = append(calls, cs)
			})
		}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 41)
			cs := memRandom(r, *what == "files")
			if calls != nil {
				cs = calls[i%len(calls)]
			} else if i == 11 && *what == "build" {
				cs = nil
			}
			kind := []string{"mmap", "gc"}[r.N(2)]
			paths := []string{"a", "b", "c"}
			cm.mark.Set(M{"case": i, "what": *what, "loader": kind})
			cm.out.Put(M{"op": "cfg", "case": i, "what": *what, "loader": kind, "paths": paths})
			dir := filepath.Join(cm.dir, fmt.Sprintf("mem%d", i))
			must(os.MkdirAll(dir, 0o755))
			cm.attempt(60*time.Second, func() {
				switch *what {
				case "build":
					memBuild(cm, r, cs)
				case "files":
					memFiles(cm, r, kind, dir, paths, cs)
				case "crowd":
					memCrowd(cm, r, kind, dir)
				}
			})
			os.RemoveAll(dir)
		}
		cm.out.Close()
	}
}
