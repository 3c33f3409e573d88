package main

import (
	"encoding/json"
	"math"
	"strconv"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// The random generators. Judged by spec/RngTrace.tla.

type gen interface {
	draw(kind string, n uint64) uint64
	seed() uint64
	set(s uint64)
	clone() gen
}

type genT[TIX interfaces.IndexTypes] struct {
	r interfaces.Random[TIX]
}

func (g *genT[TIX]) draw(kind string, n uint64) uint64 {
	switch kind {
	case "next":
		return uint64(g.r.Next())
	case "side":
		return uint64(g.r.NextSide())
	case "bool":
		if b, ok := g.r.(interface{ NextBool() bool }); ok && b.NextBool() {
			return 1
		}
		return 0
	default:
		return uint64(g.r.NextIndex(TIX(n)))
	}
}
func (g *genT[TIX]) seed() uint64 { return uint64(g.r.GetSeed()) }
func (g *genT[TIX]) set(s uint64) { g.r.SetSeed(TIX(s)) }
func (g *genT[TIX]) clone() gen   { return &genT[TIX]{g.r.CloneAndReset()} }

type genGo struct{ r *random.GoRandom }

func (g *genGo) draw(kind string, n uint64) uint64 {
	switch kind {
	case "next":
		return uint64(g.r.Next())
	case "side":
		return uint64(g.r.NextSide())
	case "bool":
		if g.r.NextBool() {
			return 1
		}
		return 0
	case "norm":
		return math.Float64bits(g.r.NormFloat64())
	default:
		return uint64(g.r.NextIndex(uint32(n)))
	}
}
func (g *genGo) seed() uint64 { return uint64(g.r.GetSeed()) }
func (g *genGo) set(s uint64) { g.r.SetSeed(uint32(s)) }
func (g *genGo) clone() gen {
	var c any = g.r.CloneAndReset()
	return &genGo{c.(*random.GoRandom)}
}

var genKinds = []string{"kiss32", "kiss32 of 64 bits", "kiss64", "go"}

func newGen(kind int, seed uint64) gen {
	switch kind {
	case 0:
		return &genT[uint32]{random.NewKiss32Random(uint32(seed))}
	case 1:
		return &genT[uint64]{random.NewKiss32Random(seed)}
	case 2:
		return &genT[uint64]{random.NewKiss64Random(seed)}
	default:
		return &genGo{random.NewGoRandomWithSeed(uint32(seed))}
	}
}
func wide(kind int) bool { return kind == 1 || kind == 2 }

func limbs(v uint64) []int {
	return []int{int(v >> 48), int(v >> 32 & 0xffff), int(v >> 16 & 0xffff), int(v & 0xffff)}
}

type rcall struct {
	op   string
	g, a int
}

func seedsFor(r *Rand, kind int) []uint64 {
	s := []uint64{0, 1, 2, 123456789, 1234567890987654321, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<64 - 1, 1 << 63, r.U64(), r.U64(), r.U64()}
	for i := range s {
		if !wide(kind) {
			s[i] = uint64(uint32(s[i]))
		}
	}
	for i := len(s) - 1; i > 0; i-- {
		j := r.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
	return s
}

func rngHistory(cm *Common, r *Rand, kind int, calls []rcall) {
	gs := map[int]gen{}
	seeds := seedsFor(r, kind)
	num := func(a int) uint64 {
		if a == 0 {
			return 0
		}
		return seeds[a%len(seeds)]
	}
	dec := func(v uint64) string { return strconv.FormatUint(v, 10) }
	kinds := []string{"next", "next", "side", "index", "bool"}
	if kind == 3 {
		kinds = append(kinds, "norm")
	}
	if r.N(3) == 0 {
		kinds = append(kinds, "block")
	}
	for _, c := range calls {
		g := gs[c.g]
		switch c.op {
		case "new":
			gs[c.g] = newGen(kind, num(c.a))
			cm.out.Put(M{"op": "start", "g": c.g, "asked": dec(num(c.a)), "seed": dec(gs[c.g].seed())})
		case "seed":
			if g != nil {
				g.set(num(c.a))
				cm.out.Put(M{"op": "start", "g": c.g, "asked": dec(num(c.a)), "seed": dec(g.seed())})
			}
		case "clone":
			if g != nil && c.a != c.g {
				gs[c.a] = g.clone()
				cm.out.Put(M{"op": "clone", "g": c.a, "of": c.g, "seed": dec(gs[c.a].seed()), "orig": dec(g.seed())})
			}
		case "draw":
			if g == nil {
				continue
			}
			for n := 1 + r.N(2)*r.N(4); n > 0; n-- {
				k := kinds[r.N(len(kinds))]
				arg := uint64(0)
				if k == "index" {
					top := uint64(1<<31 - 1)
					if kind == 0 {
						top = 1<<32 - 1
					} else if wide(kind) {
						top = 1<<64 - 1
					}
					arg = []uint64{1, 2, 3, 10, 1 << 16, 1<<31 - 1, top, 1 + r.U64()%top}[r.N(8)]
					if r.N(3) > 0 { // the same again
						arg = 7
					}
				}
				var v uint64
				if k == "block" { // many at once
					for j := 0; j < 3000; j++ {
						v = v*0x9E3779B97F4A7C15 + g.draw("next", 0)
					}
				} else {
					v = g.draw(k, arg)
				}
				cm.out.Put(M{"op": "draw", "g": c.g, "kind": k, "n": limbs(arg), "v": limbs(v), "seed": dec(g.seed())})
			}
		}
	}
}

func sameClass(kind int, a, b uint64) bool {
	if kind == 3 { // math/rand takes seeds modulo 2^31-1, and 0 as 89482311
		f := func(s uint64) uint64 {
			s %= 1<<31 - 1
			if s == 0 {
				s = 89482311
			}
			return s
		}
		return f(a) == f(b)
	}
	def := uint64(123456789)
	if kind == 2 {
		def = 1234567890987654321
	}
	if a == 0 {
		a = def
	}
	if b == 0 {
		b = def
	}
	return a == b
}

func rngFacts(cm *Common, r *Rand, kind int) {
	seeds := seedsFor(r, kind)
	near := seeds[0] + uint64(1+r.N(3))
	if !wide(kind) {
		near = uint64(uint32(near))
	}
	for _, p := range [][2]uint64{{seeds[0], seeds[1]}, {seeds[2], seeds[3]}, {seeds[0], near}} {
		if sameClass(kind, p[0], p[1]) {
			continue
		}
		var v [2][][]int
		for s := range p {
			g := newGen(kind, p[s])
			for n := 0; n < 6; n++ {
				v[s] = append(v[s], limbs(g.draw("next", 0)))
			}
		}
		cm.out.Put(M{"op": "apart", "a": strconv.FormatUint(p[0], 10), "b": strconv.FormatUint(p[1], 10), "va": v[0], "vb": v[1]})
	}
	g := newGen(kind, seeds[4])
	n := []int{1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 31, 32, 64, 100}[r.N(14)]
	seen, sides := map[int]bool{}, map[int]bool{}
	for i := 0; i < 60*n+200; i++ {
		seen[int(g.draw("index", uint64(n)))] = true
		sides[int(g.draw("side", 0))] = true
	}
	cm.out.Put(M{"op": "reach", "n": n, "seen": keysOf(seen), "sides": keysOf(sides)})
	// large ranges: all eighths are drawn from
	top := uint64(1<<31 - 1)
	if wide(kind) {
		top = 1<<64 - 1
	}
	if r.Bool() {
		top = 1000 + r.U64()%(top-1000)
	}
	seen = map[int]bool{}
	for i := 0; i < 600; i++ {
		x := int(g.draw("index", top) / (top/8 + 1))
		seen[x] = true
	}
	cm.out.Put(M{"op": "reach", "n": 8, "seen": keysOf(seen), "sides": []int{0, 1}, "of": strconv.FormatUint(top, 10)})
	// and all remainders
	m := 2 + r.N(9)
	seen = map[int]bool{}
	for i := 0; i < 600; i++ {
		seen[int(g.draw("index", top)%uint64(m))] = true
	}
	cm.out.Put(M{"op": "reach", "n": m, "seen": keysOf(seen), "sides": []int{0, 1}, "of": strconv.FormatUint(top, 10) + " modulo"})
}

func keysOf(m map[int]bool) []int {
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	return r
}

func init() {
	cmds["rng"] = func(args []string) {
		fl, cm := common("rng")
		in := fl.String("in", "", "")
		fl.Parse(args)
		cm.open()
		var ins [][]rcall
		if *in != "" {
			lines(*in, func(b []byte) {
				var x [][]any
				must(json.Unmarshal(b, &x))
				h := []rcall{}
				for _, c := range x {
					h = append(h, rcall{c[0].(string), int(c[1].(float64)), int(c[2].(float64))})
				}
				ins = append(ins, h)
			})
		}
		for i := cm.lo; i < cm.hi; i++ {
			r := cm.rand(i, 18)
			var h []rcall
			if ins != nil {
				h = ins[i]
			} else {
				n := 1 + r.N(4)
				for g := 0; g < n; g++ {
					h = append(h, rcall{"new", g, r.N(3)})
				}
				for k := r.N(50); k > 0; k-- {
					switch r.N(12) {
					case 0:
						h = append(h, rcall{"new", r.N(n), r.N(3)})
					case 1, 2:
						h = append(h, rcall{"seed", r.N(n), r.N(3)})
					case 3, 4:
						h = append(h, rcall{"clone", r.N(n), r.N(n)})
					default:
						h = append(h, rcall{"draw", r.N(n), 0})
					}
				}
			}
			cm.mark.Set(M{"case": i, "calls": len(h)})
			for kind := range genKinds {
				if ins != nil && kind != i%4 {
					continue
				}
				cm.out.Put(M{"op": "cfg", "case": i, "gen": genKinds[kind]})
				cm.attempt(20*time.Second, func() {
					rngHistory(cm, r.Fork(uint64(kind)), kind, h)
					if ins == nil {
						rngFacts(cm, r.Fork(9), kind)
					}
				})
			}
		}
		cm.out.Close()
	}
}
