package main

import "verif/sim/simrt"

// Op is one scripted call. Meaning of A, B and V depends on K.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	V  int    `json:"v,omitempty"`
	T  int    `json:"t,omitempty"`  // tree, for round-end operations
	S  bool   `json:"s,omitempty"`  // a callback of this call stalls for an hour:
	SC int    `json:"sc,omitempty"` // the first storage callback (0), the SC-th other callback, or the -SC-th comparison
	F  bool   `json:"f,omitempty"`  // callback faults may be injected during this call
}

// Round: setup (by the coordinator, one tree after the other), then all
// clients concurrently, then a quiescent check of every tree.
type Round struct {
	Setup [][]Op `json:"setup,omitempty"` // per tree
	Ops   [][]Op `json:"ops"`             // per client
	End   []Op   `json:"end,omitempty"`   // quiescent checks, by the coordinator; A selects the tree
	Crash *Crash `json:"crash,omitempty"`
}

// Crash kills the process inside operation Op: at local statement Step, or at
// the Cb-th storage callback (before or after its effect), or when the
// operation ends without having reached that point.
type Crash struct {
	Op    int  `json:"op"`
	Step  int  `json:"step,omitempty"`
	Cb    int  `json:"cb,omitempty"`
	After bool `json:"after,omitempty"`
}

// Fault makes the Nth callback of a kind inside operation Op fail.
type Fault struct {
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	Nth  int    `json:"nth"`
	Type string `json:"type"`
	N    int    `json:"n,omitempty"`
}

// Lat makes a callback take simulated time.
type Lat struct {
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	Nth  int    `json:"nth"`
	NS   int64  `json:"ns"`
}

// Cfg is the swarm configuration of one run.
type Cfg struct {
	Engine     string `json:"engine"` // "bt" or "llrb"
	MaxKeys    []int  `json:"maxKeys"`
	KeyKind    string `json:"keyKind"`
	KeyN       int    `json:"keyN"`
	KeySeed    uint64 `json:"keySeed"`
	Reverse    bool   `json:"reverse,omitempty"`
	CmpMag     int    `json:"cmpMag,omitempty"`
	ValKind    string `json:"valKind"`
	NoCache    bool   `json:"noCache,omitempty"`
	Caches     int    `json:"caches,omitempty"` // number of node caches (tree t uses cache t mod Caches); 0: one
	Low        int    `json:"low"`
	High       int    `json:"high"`
	Alloc      string `json:"alloc"`
	AllocHi    bool   `json:"allocHigh,omitempty"`
	SegBytes   int    `json:"segBytes,omitempty"`
	SharedObjs bool   `json:"sharedObjects,omitempty"`
	Trees      int    `json:"trees"`
	TreeOf     []int  `json:"treeOf"`            // per client
	Foreign    []int  `json:"foreign,omitempty"` // per tree: number of items of a foreign image to start from (0: new tree)
	MapSeed    uint64 `json:"mapSeed"`
	PickSeed   uint64 `json:"pickSeed"`        // which valid location is reopened after a crash
	Stats      bool   `json:"stats,omitempty"` // single caller: check cache statistics per lookup
	CmpBound   bool   `json:"cmpBound,omitempty"`
	Retain     bool   `json:"retain,omitempty"`       // storage keeps the very slices it is handed and hands them out again
	Arena      bool   `json:"arena,omitempty"`        // packed keys and values lie next to each other in the client's memory
	NilCB      bool   `json:"nilCallbacks,omitempty"` // trees without callbacks, never stored
	Strict     bool   `json:"strict,omitempty"`
	// search mode only
	Strat  simrt.Strategy     `json:"strategy"`
	PFault map[string]float64 `json:"pFault,omitempty"`
	PLat   float64            `json:"pLat,omitempty"`
	MaxLat int64              `json:"maxLat,omitempty"`
}

// Case is everything that determines one execution.
type Case struct {
	Prop      string           `json:"property"`
	Seed      uint64           `json:"seed"`
	Index     int              `json:"index"`
	Cfg       Cfg              `json:"cfg"`
	Rounds    []Round          `json:"rounds"`
	Faults    []Fault          `json:"faults,omitempty"`
	Lats      []Lat            `json:"latencies,omitempty"`
	Sched     []simrt.Decision `json:"schedule,omitempty"`
	Violation string           `json:"violation,omitempty"`
	Class     string           `json:"class,omitempty"`
	Digest    string           `json:"digest,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
}

func (c *Case) shared(tree int) bool {
	n := 0
	for _, t := range c.Cfg.TreeOf {
		if t == tree {
			n++
		}
	}
	return n > 1
}
