package main

import (
	"math"
	"sort"

	"verif/sim/simrt"
)

// props lists the properties this simulator decides, with the violation
// classes that refute each (panic, deadlock and livelock refute all of them).
var props = map[string][]string{
	"C01": {"result", "contents", "badread", "reopen", "durable", "dangling", "discardlive"},
	"C02": {"lin", "dump", "contents", "result", "snapshot", "badread", "durable", "dangling", "discardlive", "atomic"},
	"C03": {"durable", "badread", "dangling", "contents", "result", "discardlive", "reopen", "format"},
	"C04": {"discard", "leak", "badread", "discardlive", "dangling", "durable"},
	"C05": {"atomic", "result", "contents", "shape", "durable", "discard", "badread", "dangling", "leak", "discardlive", "reopen", "format"},
	"C06": {"result", "contents", "stats", "bound", "lin", "badread", "durable", "dangling", "discardlive", "discard", "leak", "snapshot", "reopen"},
	"C07": {"shape"},
	"C08": {"touch", "contents", "result", "leak", "durable", "dangling", "discardlive"},
	"C09": {"layout", "contents", "result", "discard", "durable", "leak"},
	"C10": {"format", "contents", "result", "dangling", "durable", "reopen"},
	"C11": {"stalled"},
	"C12": {"undetected", "falsealarm", "shape"},
	"C13": {"snapshot", "lin", "durable", "dangling", "format"},
	"C14": {"lin", "dump", "result", "contents", "atomic"},
	"C15": {"shape", "cmpcount"},
	"C17": {"dump", "contents", "result", "lin"},
	"C18": {"io"},
	"C19": {"memory"},
	"C20": {"race"},
	"C21": {"compares"},
	"C22": {"release"},
	"C23": {"work"},
}

func accepts(prop, class string) bool {
	switch class {
	case "panic", "deadlock", "livelock":
		return true
	}
	for _, c := range props[prop] {
		if c == class {
			return true
		}
	}
	return false
}

func propNum(prop string) uint64 {
	n := uint64(0)
	for i := 0; i < len(prop); i++ {
		n = n*131 + uint64(prop[i])
	}
	return n
}

type gen struct {
	r     *simrt.RNG
	cs    *Case
	id    int
	est   []int // estimated items per tree
	v     int
	pF    float64 // probability that a call may see faults
	mix   []wop
	tot   int
	prop  string
	roomy bool
}

type wop struct {
	k string
	w int
}

// runSeed is the seed of run i of a property.
func runSeed(seed uint64, prop string, i int) uint64 {
	return simrt.Mix(seed, propNum(prop), uint64(i), 0xD57)
}

// Generate builds the case of one seed. The returned generator drives the
// schedule and fault choices of the search-mode execution.
func Generate(prop string, seed uint64, index int) (*Case, *simrt.RNG) {
	r := simrt.NewRNG(seed)
	g := &gen{r: r.Split(), prop: prop, cs: &Case{Prop: prop, Seed: seed, Index: index}}
	ex := r.Split()
	g.cs.Cfg.MapSeed = g.r.Uint64() | 1
	g.cs.Cfg.PickSeed = g.r.Uint64()
	g.cs.Cfg.KeySeed = g.r.Uint64()
	if prop == "C20" { // the runs of another property, judged for races
		g.prop = pick(g.r, "C02", "C02", "C06", "C06", "C11", "C11", "C13", "C14", "C14", "C17", "C05", "C08", "C09", "C19")
		if g.prop != "C14" && g.r.Bool(0.6) {
			prop = "C02" // several callers of a tree
		} else {
			prop = g.prop
		}
	}
	switch prop {
	case "C02", "C13":
		g.shared()
	case "C11":
		if g.r.Bool(0.15) {
			g.llrbShared()
		} else {
			g.shared()
		}
	case "C14":
		if g.r.Bool(0.15) {
			g.llrbSolo()
		} else {
			g.llrbShared()
		}
	case "C15":
		if g.r.Bool(0.35) {
			g.llrbSolo()
		} else {
			g.llrbShared()
		}
	case "C17":
		switch x := g.r.Intn(20); {
		case x < 3:
			g.llrbSolo()
		case x < 7:
			g.llrbShared()
		case x < 12:
			g.shared()
		default:
			g.solo()
		}
	case "C22", "C23":
		switch x := g.r.Intn(20); {
		case x < 2:
			g.llrbSolo()
		case x < 4:
			g.llrbShared()
		case x < 7:
			g.shared()
		default:
			g.solo()
		}
	case "C06":
		if g.r.Bool(0.25) {
			g.shared()
		} else {
			g.solo()
		}
	default:
		if p := map[string]float64{"C03": 0.12, "C04": 0.15, "C05": 0.1, "C07": 0.1, "C08": 0.15, "C09": 0.15, "C10": 0.06, "C18": 0.15, "C19": 0.15, "C21": 0.15}[prop]; g.r.Bool(p) {
			g.shared()
		} else {
			g.solo()
		}
	}
	return g.cs, ex
}

func pick[T any](r *simrt.RNG, l ...T) T { return l[r.Intn(len(l))] }

func (g *gen) maxKeys() int {
	switch g.r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return 4
	case 5, 6:
		return 6
	case 7:
		return 8
	case 8:
		return 2 * g.r.Range(5, 10)
	}
	return pick(g.r, 4, 10, 16, 32, 64, 100)
}

func (g *gen) limits() (int, int) {
	r := g.r
	if g.roomy { // rereading wide nodes for every lookup takes too long to simulate
		h := r.Range(12, 40)
		return r.Range(8, h), h
	}
	if r.Bool(0.06) { // as good as no limit
		h := pick(r, -1, math.MinInt, math.MaxInt, math.MaxInt-1, 1<<32, math.MaxUint32, math.MaxInt32, -2)
		return pick(r, r.Range(0, 10), r.Range(0, 10), h), h
	}
	switch r.Intn(8) {
	case 0:
		return 0, 0
	case 1:
		h := r.Range(0, 3)
		return r.Range(0, h), h
	case 2, 3:
		h := r.Range(1, 10)
		return r.Range(0, h), h
	case 4, 5:
		h := r.Range(5, 40)
		return r.Range(0, h), h
	case 6:
		h := r.Range(5, 40)
		return h, h
	}
	return 1000, 2000
}

func (g *gen) strategy(solo bool) simrt.Strategy {
	r := g.r
	switch r.Intn(10) {
	case 0:
		if solo {
			return simrt.Strategy{Kind: "none"}
		}
		fallthrough
	case 1, 2:
		return simrt.Strategy{Kind: "pct", Mean: pick(r, 20, 100, 500)}
	case 3, 4:
		return simrt.Strategy{Kind: "event", PEvent: pick(r, 0.05, 0.2, 0.5, 0.9), BgBias: pick(r, 0, 0, 0.5, 0.9)}
	}
	return simrt.Strategy{Kind: "rand", Mean: pick(r, 4, 12, 40, 150, 600, 3000), PEvent: pick(r, 0.02, 0.1, 0.4), BgBias: pick(r, 0, 0, 0.3, 0.8)}
}

func (g *gen) common() {
	c, r := &g.cs.Cfg, g.r
	c.KeyKind = keyKinds[r.Intn(len(keyKinds))]
	c.Reverse = r.Bool(0.15)
	c.CmpMag = pick(r, 0, 0, 0, 1, 2)
	c.ValKind = pick(r, "u64", "u64", "u64", "str", "str", "none", "none", "bytes")
	c.Alloc = pick(r, "node", "node", "log", "log", "reuse")
	c.AllocHi = r.Bool(0.15)
	c.SegBytes = pick(r, 64, 256, 1000, 4096, 100000)
	c.SharedObjs = r.Bool(0.3)
	c.Retain = r.Bool(0.4)
	c.Arena = r.Bool(0.25)
	c.NoCache = r.Bool(0.15)
	c.Low, c.High = g.limits()
	if g.prop == "C22" {
		c.ValKind, c.Retain, c.NoCache = "box", false, r.Bool(0.25)
		if r.Bool(0.7) {
			c.KeyKind = "box"
		}
		if c.Arena = false; c.KeyKind == "bytes" {
			c.KeyKind = "string" // a client whose keys are parts of the images keeps those itself
		}
	}
	if r.Bool(0.4) {
		c.PLat = pick(r, 0.05, 0.3, 0.8)
		c.MaxLat = pick(r, int64(1000), int64(1000000), int64(3000000000))
	}
}

// faults turns on a random subset of fault kinds.
func (g *gen) faults(kinds ...string) {
	c, r := &g.cs.Cfg, g.r
	c.PFault = map[string]float64{}
	g.pF = pick(r, 0.15, 0.4, 0.8)
	p := pick(r, 0.01, 0.05, 0.2, 0.6)
	n := 0
	for _, k := range kinds {
		if r.Bool(0.6) {
			q := p
			if k == "packkey" || k == "unpackkey" || k == "packvalue" || k == "unpackvalue" {
				q = p * pick(r, 0.05, 0.2, 1)
			}
			c.PFault[k] = q
			n++
		}
	}
	if n == 0 {
		c.PFault[kinds[r.Intn(len(kinds))]] = p
	}
}

var allFaults = []string{"get", "put", "discard", "packkey", "unpackkey", "packvalue", "unpackvalue", "dumpkey", "dumpvalue"}
var ioFaults = []string{"get", "put", "discard"}

func (g *gen) op(k string, a, b, v int) Op {
	g.id++
	return Op{ID: g.id, K: k, A: a, B: b, V: v}
}

func (g *gen) val() int { g.v++; return g.v }

// idx is an index argument, mostly valid, sometimes just outside.
func (g *gen) idx(t int) int {
	n := g.est[t]
	switch g.r.Intn(12) {
	case 0:
		if g.r.Bool(0.3) {
			return pick(g.r, math.MinInt, math.MinInt32, math.MinInt32-1, -1<<32, -1<<32+1, -128, -256, -65536)
		}
		return -1 - g.r.Intn(2)
	case 1:
		if g.r.Bool(0.3) {
			return pick(g.r, math.MaxInt, math.MaxInt32, math.MaxUint32, 1<<32, 1<<32+1, 1<<31, 1<<40+2, 256, 65536)
		}
		return n + g.r.Intn(3)
	case 2:
		return 0
	}
	return g.r.Intn(n + 1)
}

func (g *gen) key() int {
	n := g.cs.Cfg.KeyN
	if g.r.Bool(0.1) {
		return pick(g.r, 0, n-1, 1)
	}
	return g.r.Intn(n)
}

// noStorage are the calls a tree without callbacks can serve.
var noStorage = map[string]bool{"put": true, "delk": true, "deli": true, "patchk": true, "patchi": true, "get": true, "geti": true, "bl": true, "br": true, "len": true, "fill": true, "drain": true,
	"scan": true, "validate": true, "bad": true, "touch": true, "touchitem": true, "dims": true, "layout": true, "limits": true, "stats": true, "quiesce": true, "floc": true, "lookupdims": true}

// soloMix returns operation weights for a single caller per tree.
func (g *gen) soloMix() []wop {
	w := map[string]int{
		"put": 14, "delk": 6, "deli": 6, "patchk": 4, "patchi": 3, "get": 6, "geti": 5, "bl": 4, "br": 4, "len": 2,
		"fill": 4, "drain": 3, "scan": 1, "validate": 1, "bad": 1, "flush": 4, "purge": 4, "prune": 2, "touch": 1,
		"touchitem": 2, "reopen": 1, "floc": 1, "layout": 1, "dims": 1, "quiesce": 1, "sleep": 1, "limits": 1, "stats": 1,
	}
	switch g.prop {
	case "C03":
		w["flush"], w["prune"], w["purge"], w["reopen"], w["discard"] = 8, 3, 5, 2, 1
	case "C04":
		w["flush"], w["prune"], w["purge"], w["reopen"], w["discard"], w["touch"], w["touchitem"] = 8, 8, 4, 2, 2, 2, 4
	case "C05":
		w["flush"], w["prune"], w["purge"], w["reopen"], w["discard"], w["validate"], w["dump"], w["scan"], w["bad"], w["layout"], w["dims"] = 6, 4, 7, 2, 2, 2, 2, 2, 3, 2, 2
		w["delk"], w["deli"], w["drain"] = 10, 10, 5
	case "C06":
		w["limits"], w["stats"], w["purge"], w["flush"], w["quiesce"], w["bound"], w["recency"], w["discard"] = 4, 3, 6, 6, 3, 4, 1, 1
		w["get"], w["geti"], w["bl"], w["br"] = 10, 8, 6, 6
		w["dims"], w["lookupdims"] = 4, 3
	case "C07":
		w["lookupdims"], w["dims"], w["drain"], w["fill"], w["purge"], w["validate"], w["reopen"] = 12, 4, 8, 7, 6, 4, 2
	case "C08":
		w = map[string]int{"fill": 6, "drain": 3, "put": 3, "delk": 2, "patchk": 2, "flush": 2, "purge": 2, "touchall": 6, "sweepcycle": 12, "prune": 1, "reopen": 1}
	case "C09":
		w["layout"], w["flush"], w["prune"], w["touchitem"], w["purge"] = 12, 8, 3, 3, 5
	case "C10":
		w["flush"], w["reopen"], w["purge"] = 7, 4, 4
	case "C19":
		w["flush"], w["purge"], w["get"], w["geti"], w["patchk"], w["patchi"] = 10, 14, 16, 14, 5, 5
		w["prune"], w["reopen"], w["dump"], w["discard"], w["limits"] = 1, 2, 1, 1, 2
		if !g.cs.Cfg.NoCache {
			w["quiesce"] = 8
		}
	case "C18":
		w["flush"], w["purge"], w["patchk"], w["patchi"], w["put"], w["delk"], w["deli"], w["dims"], w["touchitem"] = 14, 8, 8, 5, 10, 8, 8, 5, 3
		w["prune"], w["reopen"], w["len"], w["dump"], w["discard"] = 3, 2, 3, 1, 1
	case "C22":
		w["flush"], w["purge"], w["fill"], w["drain"], w["patchk"], w["quiesce"], w["reopen"], w["discard"], w["limits"] = 6, 6, 7, 6, 6, 2, 2, 1, 2
	case "C21", "C23":
		w["get"], w["bl"], w["br"], w["geti"], w["patchk"], w["patchi"], w["purge"], w["reopen"] = 16, 12, 12, 8, 6, 3, 3, 2
	case "C17":
		w["dump"], w["flush"], w["purge"], w["drain"], w["touchitem"] = 14, 6, 6, 5, 3
	case "C12":
		w = map[string]int{"fill": 6, "drain": 3, "put": 2, "delk": 2, "flush": 2, "purge": 2, "corrupt": 14, "touchitem": 1, "validate": 2, "reopen": 1, "patchk": 1}
	}
	switch g.prop {
	case "C01", "C03", "C06", "C10":
		w["snapread"] = 2
	case "C05", "C07", "C09", "C18", "C19":
		w["snapread"] = 1
	}
	if g.prop != "C04" && g.prop != "C05" && g.prop != "C03" && g.prop != "C06" {
		if g.r.Bool(0.1) {
			w["discard"] = 1
		}
	}
	if g.prop == "C03" || g.prop == "C04" {
		if g.r.Intn(25) == 0 {
			w["hoard"] = 2
		}
	}
	names := make([]string, 0, len(w))
	for k := range w {
		names = append(names, k)
	}
	sort.Strings(names)
	var out []wop
	for _, k := range names {
		n := w[k] * 4
		switch g.r.Intn(6) { // swarm: every run stresses another subset
		case 0:
			n = 0
		case 1:
			n *= 3
		}
		if g.must(k) && n == 0 {
			n = w[k] * 4
		}
		if n > 0 {
			out = append(out, wop{k, n})
		}
	}
	return out
}

func (g *gen) must(k string) bool {
	switch g.prop {
	case "C08":
		return k == "sweepcycle" || k == "fill"
	case "C12":
		return k == "corrupt" || k == "fill"
	case "C17":
		return k == "dump" || k == "fill"
	case "C09":
		return k == "layout" || k == "flush"
	case "C07":
		return k == "lookupdims" || k == "fill"
	case "C03", "C10":
		return k == "flush"
	case "C18", "C19":
		return k == "flush" || k == "purge"
	case "C04":
		return k == "flush" || k == "prune"
	}
	return k == "put" || k == "flush"
}

func (g *gen) draw(m []wop) string {
	t := 0
	for _, w := range m {
		t += w.w
	}
	x := g.r.Intn(t)
	for _, w := range m {
		if x < w.w {
			return w.k
		}
		x -= w.w
	}
	return m[0].k
}

// soloOps appends one drawn operation (occasionally a short idiom).
func (g *gen) soloOps(t int, k string, big int) []Op {
	r := g.r
	grow := func(d int) {
		g.est[t] += d
		if g.est[t] < 0 {
			g.est[t] = 0
		}
		if n := g.cs.Cfg.KeyN; g.est[t] > n {
			g.est[t] = n
		}
	}
	var out []Op
	add := func(o Op) {
		if g.pF > 0 && r.Bool(g.pF) {
			switch o.K {
			case "limits", "stats", "sleep", "quiesce", "bad", "bound", "recency", "cachecheck", "corrupt", "settle", "release":
			default:
				o.F = true
			}
		}
		out = append(out, o)
		if o.F && r.Bool(0.3) { // the same call again, after the failure
			p := o
			g.id++
			p.ID = g.id
			p.F = r.Bool(0.3)
			out = append(out, p)
		}
	}
	switch k {
	case "put":
		grow(1)
		add(g.op("put", g.key(), 0, g.val()))
	case "fill":
		b := r.LogUniform(big)
		grow(b)
		add(g.op("fill", r.Intn(1<<20), b, r.Intn(3)))
	case "drain":
		b := r.LogUniform(big)
		if r.Bool(0.3) && g.est[t] < 10000 {
			b = g.est[t]
		}
		grow(-b)
		add(g.op("drain", r.Intn(1<<20), b, r.Intn(5)))
	case "delk":
		grow(-1)
		add(g.op(k, g.key(), 0, 0))
	case "deli":
		grow(-1)
		add(g.op(k, g.idx(t), 0, 0))
	case "patchk":
		add(g.op(k, g.key(), 0, g.val()))
	case "patchi":
		add(g.op(k, g.idx(t), 0, g.val()))
	case "get", "bl", "br":
		add(g.op(k, g.key(), 0, 0))
	case "geti":
		add(g.op(k, g.idx(t), 0, 0))
	case "touchitem":
		i := g.idx(t)
		if i < 0 {
			i = 0
		}
		add(g.op(k, i, 0, 0))
	case "bad":
		add(g.op(k, r.Intn(6), 0, 1))
	case "flush":
		add(g.op(k, r.Intn(2), 0, 0))
		if r.Bool(0.4) {
			add(g.op("prune", 1, 0, 0))
		} else if r.Bool(0.3) {
			add(g.op("purge", 1, 0, 0))
		}
	case "purge":
		add(g.op(k, r.Intn(2), r.Intn(2), 0))
	case "hoard":
		add(g.op(k, r.LogUniform(3500), 0, 0))
	case "prune":
		a := 1
		if r.Bool(0.15) {
			a = 0
		}
		add(g.op(k, a, 0, 0))
	case "touchall":
		add(g.op(k, r.Intn(8), r.Intn(1000), 0))
	case "sweepcycle":
		out = append(out, g.op("sweep", r.Intn(2), 0, 0))
		for i := r.Range(1, 14); i > 0; i-- {
			switch r.Intn(12) {
			case 0:
				add(g.op("get", g.key(), 0, 0))
			case 1:
				add(g.op("geti", g.idx(t), 0, 0))
			case 2:
				add(g.op("flush", r.Intn(2), 0, 0))
			case 3:
				add(g.op("purge", r.Intn(2), 0, 0))
			case 4:
				add(g.op("prune", r.Intn(2), 0, 0))
			case 5:
				add(g.op(pick(r, "bl", "br"), g.key(), 0, 0))
			case 6:
				add(g.op(pick(r, "layout", "dims", "validate", "len", "scan", "quiesce"), 0, 0, 0))
			default:
				add(g.op("sweep", 0, r.LogUniform(40), 0))
			}
		}
		out = append(out, g.op("sweep", 0, 3000, 0))
	case "limits":
		lo, hi := g.limits()
		out = append(out, g.op(k, lo, hi, 0))
	case "sleep":
		out = append(out, g.op(k, r.Intn(3000), 0, 0))
	case "layout":
		add(g.op(k, r.Intn(2), 0, 0))
	case "lookupdims":
		if r.Bool(0.5) {
			add(g.op("purge", r.Intn(2), 0, 0))
		}
		add(g.op(k, r.Intn(1<<20), r.Intn(4), 0))
	case "discard":
		add(g.op(k, r.Intn(3), 0, 0))
		g.est[t] = 0
	case "reopen":
		a := 0
		if r.Bool(0.3) {
			a = r.Range(1, 5)
		}
		add(g.op(k, a, 0, 0))
	case "snapread":
		add(g.op(k, r.Intn(1<<20), r.Intn(16), g.val()))
	case "recency":
		out = append(out, g.op(k, r.Intn(1<<20), r.Intn(40), r.Intn(2)))
	case "bound":
		out = append(out, g.op(k, r.Intn(1<<20), r.Intn(3)/2, 0))
	case "corrupt":
		out = append(out, g.op(k, r.Intn(1<<24), 0, 0))
	default:
		add(g.op(k, 0, 0, 0))
	}
	return out
}

// solo: one caller per tree, an ideal map checked at every call.
func (g *gen) solo() {
	c, r := &g.cs.Cfg, g.r
	g.common()
	c.Engine = "bt"
	c.Trees = 1
	multi := 0.15
	switch g.prop {
	case "C06":
		multi = 0.6
	case "C04", "C09":
		multi = 0.3
	case "C07", "C12", "C08":
		multi = 0.05
	}
	if r.Bool(multi) {
		c.Trees = r.Range(2, 4)
	}
	big := pick(r, 12, 40, 40, 120, 400)
	c.KeyN = big * pick(r, 1, 2, 4)
	if g.prop == "C08" || g.prop == "C12" {
		big = pick(r, 12, 40, 120, 300)
		c.KeyN = big * pick(r, 1, 2)
	}
	special := 0
	kind := r.Intn(120)
	if (g.prop == "C21" || g.prop == "C23") && r.Bool(0.15) {
		kind = 0
	}
	if g.prop == "C23" && r.Bool(0.2) {
		kind = pick(r, 1, 1, 3)
	}
	switch kind {
	case 0: // wide nodes
		special, c.Trees, g.roomy = 1, 1, true
		c.Low, c.High = g.limits()
		big = pick(r, 400, 800, 1600)
		c.KeyN = big * pick(r, 1, 2)
	case 1: // deep trees
		special, c.Trees, g.roomy = 2, 1, true
		c.Low, c.High = g.limits()
		if g.prop == "C23" && r.Bool(0.6) { // with all of it in memory
			c.Low, c.High = r.Range(500, 4000), 4000
		}
		big = pick(r, 1000, 2500)
		c.KeyN = big * pick(r, 1, 2)
	case 2: // large values, so large nodes
		special, c.Trees = 3, 1
		big = pick(r, 12, 40, 120)
		c.KeyN = big * pick(r, 1, 2)
		if g.prop != "C22" {
			c.ValKind = "big"
		}
	case 5: // nodes that never fill up
		special, c.Trees = 5, 1
	case 3, 4: // another release's large tree
		if special == 0 && (g.prop == "C01" || g.prop == "C07" || g.prop == "C10" || g.prop == "C08" || g.prop == "C17" || g.prop == "C18" || g.prop == "C19" || g.prop == "C21" || g.prop == "C23") && (g.prop == "C23" || r.Intn(4) == 0) {
			special, c.Trees, g.roomy = 4, 1, true
			c.Low, c.High = g.limits()
			big = 200
			c.KeyN = pick(r, 20000, 30000, 50000, 80000)
		}
	}
	if c.KeyN < 20 {
		c.KeyN = 20
	}
	g.caches()
	for i := 0; i < c.Trees; i++ {
		mk := g.maxKeys()
		switch special {
		case 1:
			mk = pick(r, 126, 128, 200, 254, 256, 258, 300, 512, 1000)
		case 2:
			mk = pick(r, 4, 4, 6)
		case 3:
			mk = pick(r, 4, 16, 32, 64)
		case 4:
			mk = pick(r, 256, 256, 256, 258, 300, 300, 512, 512, 66000, 140000)
			if r.Bool(0.15) || g.prop == "C17" && r.Bool(0.5) { // up to ten levels, if written with the fewest keys per node
				mk, c.KeyN = 4, pick(r, 20000, 35000)
			}
		case 5:
			mk = pick(r, 32766, 32768, 65534, 65536, 65538, 1<<20, 1<<31, 1<<32, 1<<32+4, 1<<40, math.MaxInt-1)
		}
		c.MaxKeys = append(c.MaxKeys, mk)
		c.TreeOf = append(c.TreeOf, i)
		g.est = append(g.est, 0)
	}
	switch g.prop {
	case "C01":
		if r.Bool(0.2) {
			g.foreign(0.5)
		}
		c.Stats = r.Bool(0.3) && c.Trees == 1
	case "C06":
		c.NoCache = false
		if c.Trees == 1 {
			c.Stats = true
		}
	case "C03":
		if r.Bool(0.45) {
			g.faults(ioFaults...)
		}
	case "C04":
		if r.Bool(0.5) {
			g.faults(ioFaults...)
		}
		if r.Bool(0.3) {
			c.Alloc = "reuse"
		}
	case "C05":
		g.faults(allFaults...)
		if r.Bool(0.2) {
			g.foreign(0.3)
		}
	case "C07":
		if r.Bool(0.3) {
			g.faults(ioFaults...)
		}
		if r.Bool(0.25) {
			g.foreign(0.7)
		}
	case "C08":
		if r.Bool(0.25) {
			g.faults("get", "put")
		}
		if r.Bool(0.2) {
			g.foreign(0.7)
		}
	case "C09":
		if r.Bool(0.25) {
			g.faults(ioFaults...)
		}
		if r.Bool(0.7) {
			c.Alloc = pick(r, "log", "reuse")
			c.SegBytes = pick(r, 256, 1000, 4096, 100000)
		}
		if r.Bool(0.15) {
			g.foreign(0.7)
		}
	case "C10":
		g.foreign(0.7)
		if r.Bool(0.2) {
			g.faults(ioFaults...)
		}
	case "C12":
		if r.Bool(0.3) {
			g.foreign(0.7)
		}
	case "C19":
		if r.Bool(0.5) {
			c.NoCache = true
		} else if r.Bool(0.4) {
			h := pick(r, -1, math.MinInt, math.MaxInt, math.MaxInt-1, 1<<32, math.MaxInt32, -2)
			c.Low, c.High = pick(r, r.Range(0, 10), h), h
		}
		if r.Bool(0.3) {
			g.faults("get", "put", "unpackkey", "unpackvalue")
		}
		if r.Bool(0.2) {
			g.foreign(0.7)
		}
	case "C18", "C21", "C22", "C23":
		if r.Bool(0.2) {
			g.faults(ioFaults...)
		}
		if r.Bool(0.2) {
			g.foreign(0.7)
		}
	case "C17":
		if r.Bool(0.3) {
			g.faults("get", "put", "unpackkey", "unpackvalue", "dumpkey", "dumpvalue")
		}
		if r.Bool(0.15) {
			g.foreign(0.7)
		}
	}
	if len(c.Foreign) == 0 && c.PFault == nil && (g.prop == "C01" || g.prop == "C07" || g.prop == "C05") && r.Bool(0.03) {
		c.NilCB = true // a tree that stays in memory needs no callbacks
	}
	if special == 4 {
		c.Foreign = []int{r.Range(c.KeyN*7/10, c.KeyN)}
		g.est[0] = c.Foreign[0]
	}
	c.Strat = g.strategy(true)
	if special == 4 {
		c.Strat = simrt.Strategy{Kind: "none"}
	}
	if c.Trees == 1 && c.NoCache {
		c.Strat = simrt.Strategy{Kind: "none"}
	}
	g.mix = g.soloMix()
	rounds := r.Range(1, 4)
	if special == 4 {
		rounds = 1
		var mix []wop
		for _, x := range g.mix {
			if x.k == "dump" {
				x.w = 2 + x.w/20
			}
			if x.k != "snapread" && x.k != "scan" && x.k != "reopen" {
				mix = append(mix, x)
			}
		}
		if c.MaxKeys[0] == 4 { // the rebalancing of the deepest trees
			mix = append(mix, wop{"drain", 12}, wop{"delk", 40}, wop{"deli", 40}, wop{"put", 20})
		}
		g.mix = mix
	}
	if g.prop == "C03" {
		rounds = r.Range(2, 6)
	}
	for i := 0; i < rounds; i++ {
		rd := Round{}
		looking := g.prop == "C06" && c.Trees > 1 && r.Bool(0.3) // lookups only, from every side
		for t := 0; t < c.Trees; t++ {
			var ops []Op
			if i == 0 && c.foreignN(t) == 0 && r.Bool(0.85) {
				b := r.LogUniform(big * 2)
				g.est[t] = b
				if b > c.KeyN {
					g.est[t] = c.KeyN
				}
				ops = append(ops, g.op("fill", r.Intn(1<<20), b, r.Intn(3)))
				if !c.NilCB && r.Bool(0.7) {
					ops = append(ops, g.op("flush", r.Intn(2), 0, 0))
				}
			}
			mix := g.mix
			if looking {
				mix = []wop{{"get", 8}, {"geti", 8}, {"bl", 5}, {"br", 5}, {"purge", 2}, {"flush", 1}, {"limits", 1}, {"len", 1}}
				ops = append(ops, g.op("flush", r.Intn(2), 0, 0), g.op("dims", 0, 0, 0))
			}
			for n := r.LogUniform(50); n > 0; n-- {
				for _, o := range g.soloOps(t, g.draw(mix), big) {
					if !c.NilCB || noStorage[o.K] {
						ops = append(ops, o)
					}
				}
			}
			rd.Ops = append(rd.Ops, ops)
		}
		if c.NilCB {
			if i+1 == rounds || r.Bool(0.7) {
				for t := 0; t < c.Trees; t++ {
					for _, k := range []string{"scan", "validate", "dims"} {
						rd.End = append(rd.End, g.endOp(k, t, 0, 0, 0))
					}
				}
			}
			g.cs.Rounds = append(g.cs.Rounds, rd)
			continue
		}
		pcrash := 0.0
		switch g.prop {
		case "C03":
			pcrash = 0.75
		case "C04", "C05", "C01", "C10":
			pcrash = 0.12
		}
		if i+1 < rounds && r.Bool(pcrash) {
			rd.Crash = g.crash(&rd)
		} else {
			g.end(&rd, i+1 == rounds)
		}
		g.cs.Rounds = append(g.cs.Rounds, rd)
	}
}

func (c *Cfg) foreignN(t int) int {
	if t < len(c.Foreign) {
		return c.Foreign[t]
	}
	return 0
}

func (g *gen) foreign(p float64) {
	c := &g.cs.Cfg
	for t := 0; t < c.Trees; t++ {
		n := 0
		if g.r.Bool(p) {
			n = g.r.LogUniform(c.KeyN)
		}
		c.Foreign = append(c.Foreign, n)
		g.est[t] = n
	}
}

// crash picks an instant inside one of the round's calls, preferring calls
// that write or discard.
func (g *gen) crash(rd *Round) *Crash {
	r := g.r
	var all, hot []int
	for _, ops := range rd.Ops {
		for _, o := range ops {
			all = append(all, o.ID)
			switch o.K {
			case "flush", "prune", "discard", "touchall", "sweep", "reopen", "purge":
				hot = append(hot, o.ID)
			}
		}
	}
	if len(all) == 0 {
		return nil
	}
	c := &Crash{Op: all[r.Intn(len(all))]}
	if len(hot) > 0 && r.Bool(0.75) {
		c.Op = hot[r.Intn(len(hot))]
	}
	if r.Bool(0.5) {
		c.Step = r.LogUniform(30000)
	} else {
		c.Cb = r.LogUniform(25)
		c.After = r.Bool(0.5)
	}
	return c
}

// end adds the quiescent checks of a round.
func (g *gen) end(rd *Round, last bool) {
	c, r := &g.cs.Cfg, g.r
	for t := 0; t < c.Trees; t++ {
		if c.Engine == "llrb" {
			rd.End = append(rd.End, g.endOp("settle", t, 0, 0, 0))
			continue
		}
		if !last && r.Bool(0.3) {
			continue
		}
		fl := 1 | 4 | 32
		if r.Bool(0.3) {
			fl = r.Intn(8) | 32
		}
		if r.Bool(0.5) {
			fl |= 2
		}
		if r.Bool(0.3) {
			fl |= 8
		}
		if r.Bool(0.35) && !c.shared1(t) {
			fl |= 16
		}
		if r.Bool(0.15) {
			fl |= 64
		}
		rd.End = append(rd.End, g.endOp("settle", t, fl, 0, 0))
		if g.prop == "C06" && r.Bool(0.3) {
			rd.End = append(rd.End, g.endOp("recency", t, r.Intn(1<<20), r.Intn(40), r.Intn(2)))
		}
		if g.prop == "C06" && r.Bool(0.5) {
			rd.End = append(rd.End, g.endOp("bound", t, r.Intn(1<<20), r.Intn(2), 0))
		}
	}
	if g.prop == "C22" && r.Bool(0.8) {
		rd.End = append(rd.End, g.endOp("release", 0, r.Intn(16)|pick(r, 0, 0, 0, 16, 32), 0, 0))
	}
	if c.Engine == "bt" && !c.NoCache && (g.prop == "C06" || r.Bool(0.15)) {
		rd.End = append(rd.End, g.endOp("cachecheck", 0, r.Intn(8), 0, 0))
	}
}

func (c *Cfg) shared1(t int) bool {
	n := 0
	for _, x := range c.TreeOf {
		if x == t {
			n++
		}
	}
	return n > 1
}

func (g *gen) endOp(k string, t, a, b, v int) Op {
	o := g.op(k, a, b, v)
	o.T = t
	return o
}

// shared: several callers per B+Tree, histories judged by linearizability.
func (g *gen) shared() {
	c, r := &g.cs.Cfg, g.r
	g.common()
	c.Engine = "bt"
	c.Alloc = pick(r, "node", "log")
	c.NoCache = r.Bool(0.1)
	if g.prop == "C06" {
		c.NoCache = false
	}
	c.Trees = 1
	if g.prop == "C11" {
		c.Trees = r.Range(1, 4)
	} else if r.Bool(0.2) {
		c.Trees = 2
	}
	c.KeyN = pick(r, 4, 8, 16, 30, 60, 120)
	n := r.Range(2, 4)
	if g.prop == "C11" {
		n = r.Range(2, 6)
	}
	g.caches()
	for t := 0; t < c.Trees; t++ {
		c.MaxKeys = append(c.MaxKeys, pick(r, 4, 4, 4, 6, 8, 16))
		g.est = append(g.est, 0)
	}
	for i := 0; i < n; i++ {
		c.TreeOf = append(c.TreeOf, i%c.Trees)
	}
	if g.prop != "C11" && n > 2 && c.Trees == 2 { // one busy tree, one neighbour
		for i := range c.TreeOf {
			c.TreeOf[i] = 0
		}
		c.TreeOf[n-1] = 1
	}
	if (g.prop == "C02" || g.prop == "C11") && r.Bool(0.15) || g.prop == "C13" && r.Bool(0.3) {
		g.faults(ioFaults...)
	}
	switch g.prop {
	case "C03", "C04", "C09":
		if r.Bool(0.3) {
			g.faults(ioFaults...)
		}
	case "C05":
		g.faults(allFaults...)
	case "C17":
		if r.Bool(0.25) {
			g.faults("get", "put", "dumpkey", "dumpvalue")
		}
	}
	if r.Bool(0.1) || (g.prop == "C10" || g.prop == "C08") && r.Bool(0.3) {
		g.foreign(0.8)
	}
	c.Strat = g.strategy(false)
	w := []wop{{"put", 12}, {"delk", 7}, {"deli", 4}, {"patchk", 6}, {"patchi", 3}, {"get", 8}, {"geti", 6}, {"bl", 4}, {"br", 4}, {"len", 4}, {"dims", 2},
		{"flush", 5}, {"purge", 4}, {"touch", 1}, {"touchitem", 2}, {"validate", 1}, {"layout", 1}, {"limits", 1}, {"stats", 1}, {"floc", 2}, {"prune", 1}, {"sleep", 1}, {"quiesce", 1}}
	switch g.prop {
	case "C13":
		w = []wop{{"put", 12}, {"delk", 7}, {"deli", 3}, {"patchk", 8}, {"patchi", 3}, {"get", 3}, {"geti", 1}, {"len", 3}, {"flush", 14}, {"floc", 14}, {"purge", 3}, {"touch", 1}, {"touchitem", 2}, {"prune", 2}, {"limits", 1}}
	case "C11":
		w = append(w, wop{"dump", 1}, wop{"prune", 2}, wop{"limits", 4}, wop{"stats", 3}, wop{"purge", 6})
	case "C06":
		w = append(w, wop{"limits", 4}, wop{"stats", 3}, wop{"purge", 6})
	case "C03":
		w = append(w, wop{"flush", 8}, wop{"purge", 3})
	case "C04":
		w = append(w, wop{"flush", 8}, wop{"prune", 9}, wop{"purge", 3}, wop{"touch", 1}, wop{"touchitem", 2}, wop{"deli", 4})
	case "C05":
		w = append(w, wop{"dump", 1}, wop{"prune", 2}, wop{"flush", 3}, wop{"purge", 6}, wop{"layout", 1})
	case "C18", "C19":
		w = append(w, wop{"flush", 6}, wop{"purge", 6})
	case "C09":
		w = append(w, wop{"layout", 6}, wop{"flush", 4}, wop{"prune", 2})
	case "C02":
		w = append(w, wop{"dump", 1})
	case "C17":
		w = append(w, wop{"dump", 20}, wop{"purge", 3})
	}
	calmW := []wop{{"get", 6}, {"geti", 5}, {"bl", 2}, {"br", 2}, {"len", 1}, {"dims", 2}, {"flush", 6}, {"purge", 6}, {"prune", 3}, {"validate", 1}, {"layout", 3}, {"limits", 2}, {"stats", 1}, {"quiesce", 1}, {"floc", 2}, {"sleep", 1}}
	pCalm := 0.1
	switch g.prop {
	case "C06":
		calmW = append(calmW, wop{"get", 8}, wop{"geti", 5}, wop{"bl", 4}, wop{"br", 4})
		pCalm = 0.35
	case "C08":
		calmW = append(calmW, wop{"touchitem", 5}, wop{"touch", 2}, wop{"sweep", 3})
		pCalm = 0.8
	case "C09":
		calmW = append(calmW, wop{"layout", 12})
		pCalm = 0.6
	}
	keep := func(k string) bool {
		return g.prop == "C13" && (k == "flush" || k == "floc") || g.prop == "C17" && k == "dump" || g.prop == "C04" && (k == "flush" || k == "prune") || g.prop == "C03" && k == "flush"
	}
	var mix []wop
	for _, x := range w {
		x.w *= 4
		switch r.Intn(6) {
		case 0:
			if !keep(x.k) {
				x.w = 0
			}
		case 1:
			x.w *= 3
		}
		if x.w > 0 {
			mix = append(mix, x)
		}
	}
	if len(mix) == 0 {
		mix = w
	}
	useBad := r.Bool(0.15) && len(c.Foreign) == 0
	if g.prop == "C11" && c.MaxLat > 1000000 {
		c.MaxLat = 1000000
	}
	rounds := r.Range(1, 5)
	if g.prop == "C03" {
		rounds = r.Range(2, 6)
	}
	for i := 0; i < rounds; i++ {
		rd := Round{}
		calm := r.Bool(pCalm)
		mx := mix
		if calm {
			mx = calmW
		}
		for t := 0; t < c.Trees; t++ {
			var ops []Op
			if i == 0 && c.foreignN(t) == 0 {
				b := r.LogUniform(c.KeyN * 2)
				if g.prop == "C08" && r.Bool(0.5) {
					b = c.KeyN
				}
				ops = append(ops, g.op("fill", r.Intn(1<<20), b, r.Intn(3)))
				g.est[t] = b
				if b > c.KeyN {
					g.est[t] = c.KeyN
				}
			}
			switch x := r.Intn(4); {
			case x == 0 && !calm:
			case x == 1 || x == 0 && r.Bool(0.5):
				ops = append(ops, g.op("flush", 0, 0, 0))
			default:
				ops = append(ops, g.op("flush", 1, 0, 0))
			}
			rd.Setup = append(rd.Setup, ops)
		}
		room := make([]int, c.Trees)
		per := r.LogUniform(12) + 1
		stalled := false
		for cl := 0; cl < n; cl++ {
			t := c.TreeOf[cl]
			sh := c.shared1(t)
			var ops []Op
			if calm && g.prop == "C08" && sh && (cl == 0 || r.Bool(0.3)) {
				ops = append(ops, g.op("sweep", r.Intn(4), 0, 0))
			}
			if !stalled && g.prop == "C11" && r.Bool(0.3) {
				stalled = true
				g.noPurge(&ops, "flush", 1)
				o := g.op(pick(r, "get", "geti", "scan", "put", "bl", "flush", "validate", "touch"), g.key(), 0, g.val())
				if sh && o.K == "scan" {
					o.K = "get"
				}
				o.S = true
				switch r.Intn(8) {
				case 0, 1:
					o.SC = r.LogUniform(40)
					if r.Bool(0.5) {
						o.K = pick(r, "dump", "flush", "get", "geti")
					}
				case 2, 3:
					o.SC = -r.LogUniform(12)
				}
				ops = append(ops, o)
				room[t] += 2
			}
			for j := 0; j < per; j++ {
				if sh && room[t] > 54 {
					break
				}
				k := g.draw(mx)
				if k == "sweep" && !sh {
					k = "touchitem"
				}
				if k == "quiesce" && g.prop == "C11" {
					k = "stats" // eviction may have to wait for a stalled callback
				}
				var o Op
				switch k {
				case "put", "patchk":
					o = g.op(k, g.key(), 0, g.val())
				case "delk":
					o = g.op(k, g.key(), 0, 0)
				case "deli":
					o = g.op(k, g.idx(t), 0, 0)
				case "get", "bl", "br":
					o = g.op(k, g.key(), 0, 0)
				case "patchi":
					o = g.op(k, g.idx(t), 0, g.val())
				case "geti":
					o = g.op(k, g.idx(t), 0, 0)
				case "touchitem":
					a := g.idx(t)
					if a < 0 {
						a = 0
					}
					o = g.op(k, a, 0, 0)
				case "flush", "purge":
					o = g.op(k, r.Intn(2), 0, 0)
				case "sweep":
					o = g.op(k, r.Intn(4), 0, 0)
				case "limits":
					lo, hi := g.limits()
					o = g.op(k, lo, hi, 0)
				case "sleep":
					o = g.op(k, r.Intn(3000), 0, 0)
				default:
					o = g.op(k, 0, 0, 0)
				}
				if useBad && !calm && r.Bool(0.08) {
					o = g.op("bad", r.Intn(6), 0, 1)
				}
				if g.pF > 0 && r.Bool(g.pF) && o.K != "bad" {
					o.F = true
				}
				room[t]++
				ops = append(ops, o)
			}
			rd.Ops = append(rd.Ops, ops)
		}
		pc := map[string]float64{"C03": 0.75, "C04": 0.1, "C05": 0.1, "C10": 0.1}[g.prop]
		if i+1 < rounds && r.Bool(pc) {
			rd.Crash = g.crash(&rd)
		} else {
			g.end(&rd, i+1 == rounds)
		}
		g.cs.Rounds = append(g.cs.Rounds, rd)
	}
}

// caches sometimes gives the trees of a run two caches.
func (g *gen) caches() {
	if c := &g.cs.Cfg; c.Trees > 1 && g.r.Bool(0.3) {
		c.Caches = 2
	}
}

func (g *gen) noPurge(ops *[]Op, k string, a int) { *ops = append(*ops, g.op(k, a, 0, 0)) }

// llrbShared: several callers of one in-memory map.
func (g *gen) llrbShared() {
	c, r := &g.cs.Cfg, g.r
	g.common()
	c.Engine = "llrb"
	c.NoCache = true
	c.Trees = 1
	if r.Bool(0.1) {
		c.Trees = 2
	}
	c.KeyN = pick(r, 3, 6, 12, 25, 60)
	if g.prop == "C15" {
		c.KeyN = pick(r, 6, 20, 60, 200)
		c.CmpBound = true
	}
	n := r.Range(2, 5)
	for t := 0; t < c.Trees; t++ {
		c.MaxKeys = append(c.MaxKeys, 4)
		g.est = append(g.est, 0)
	}
	for i := 0; i < n; i++ {
		c.TreeOf = append(c.TreeOf, 0)
	}
	if c.Trees == 2 {
		c.TreeOf[n-1] = 1
	}
	if r.Bool(0.2) {
		g.faults("dumpkey", "dumpvalue")
	}
	c.Strat = g.strategy(false)
	useBad := r.Bool(0.25)
	useReset := r.Bool(0.35)
	w := []wop{{"put", 12}, {"delk", 8}, {"deli", 6}, {"patchk", 5}, {"patchi", 4}, {"get", 7}, {"geti", 6}, {"bl", 5}, {"br", 5}, {"len", 4}, {"validate", 1}, {"dump", 1}, {"sleep", 1}}
	if g.prop == "C15" {
		w = append(w, wop{"put", 10}, wop{"delk", 8})
	}
	if g.prop == "C17" {
		w = append(w, wop{"dump", 20})
	}
	if useReset {
		w = append(w, wop{"reset", pick(r, 1, 4)})
	}
	var mix []wop
	for _, x := range w {
		x.w *= 4
		switch r.Intn(6) {
		case 0:
			if x.k != "put" {
				x.w = 0
			}
		case 1:
			x.w *= 3
		}
		if x.w > 0 {
			mix = append(mix, x)
		}
	}
	rounds := r.Range(1, 6)
	for i := 0; i < rounds; i++ {
		rd := Round{}
		for t := 0; t < c.Trees; t++ {
			var ops []Op
			if i == 0 {
				b := r.LogUniform(c.KeyN * 2)
				ops = append(ops, g.op("fill", r.Intn(1<<20), b, r.Intn(3)))
				g.est[t] = b
				if b > c.KeyN {
					g.est[t] = c.KeyN
				}
			}
			rd.Setup = append(rd.Setup, ops)
		}
		room := 0
		per := r.LogUniform(14) + 1
		for cl := 0; cl < n; cl++ {
			t := c.TreeOf[cl]
			var ops []Op
			for j := 0; j < per && room < 54; j++ {
				k := g.draw(mix)
				var o Op
				switch k {
				case "put", "patchk":
					o = g.op(k, g.key(), 0, g.val())
				case "delk":
					o = g.op(k, g.key(), 0, 0)
				case "deli":
					o = g.op(k, g.idx(t), 0, 0)
				case "get", "bl", "br":
					o = g.op(k, g.key(), 0, 0)
				case "patchi":
					o = g.op(k, g.idx(t), 0, g.val())
				case "geti":
					o = g.op(k, g.idx(t), 0, 0)
				case "sleep":
					o = g.op(k, r.Intn(3000), 0, 0)
				default:
					o = g.op(k, 0, 0, 0)
				}
				if useBad && r.Bool(0.1) {
					o = g.op("bad", r.Intn(6), 0, 1)
				}
				if g.pF > 0 && o.K == "dump" {
					o.F = true
				}
				room++
				ops = append(ops, o)
			}
			rd.Ops = append(rd.Ops, ops)
		}
		g.end(&rd, true)
		g.cs.Rounds = append(g.cs.Rounds, rd)
	}
}

// llrbSolo: long single-caller histories of an in-memory map.
func (g *gen) llrbSolo() {
	c, r := &g.cs.Cfg, g.r
	g.common()
	c.Engine = "llrb"
	c.NoCache = true
	c.Trees = 1
	c.TreeOf = []int{0}
	c.MaxKeys = []int{4}
	g.est = []int{0}
	big := pick(r, 20, 100, 400, 1000)
	if r.Intn(60) == 0 {
		big = pick(r, 5000, 20000)
	}
	if g.prop == "C23" && r.Bool(0.5) {
		big = pick(r, 2000, 5000)
	}
	c.KeyN = big * pick(r, 1, 2)
	c.CmpBound = g.prop == "C15"
	c.Strat = simrt.Strategy{Kind: "none"}
	if r.Bool(0.1) && g.prop != "C17" {
		c.NilCB = true
	}
	w := []wop{{"put", 14}, {"delk", 8}, {"deli", 8}, {"patchk", 5}, {"patchi", 4}, {"get", 7}, {"geti", 6}, {"bl", 6}, {"br", 6}, {"len", 2}, {"bad", 2}, {"fill", 5}, {"drain", 4}, {"validate", 1}, {"reset", 1}, {"scan", 1}, {"dump", 1}}
	if g.prop == "C15" {
		w = append(w, wop{"validate", 6}, wop{"drain", 6})
	}
	if g.prop == "C17" {
		w = append(w, wop{"dump", 20})
	}
	var mix []wop
	for _, x := range w {
		if (r.Intn(6) != 0 || x.k == "put") && !(c.NilCB && x.k == "dump") {
			mix = append(mix, x)
		}
	}
	rounds := r.Range(1, 4)
	for i := 0; i < rounds; i++ {
		rd := Round{}
		var ops []Op
		for n := r.LogUniform(60); n > 0; n-- {
			ops = append(ops, g.soloOps(0, g.draw(mix), big)...)
		}
		rd.Ops = append(rd.Ops, ops)
		g.end(&rd, true)
		g.cs.Rounds = append(g.cs.Rounds, rd)
	}
}
