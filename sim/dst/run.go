package main

import (
	"fmt"
	"os"
	"regexp"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
	"verif/sim/simsync"
)

// Checkpoint is a root location an acknowledged flush returned.
type Checkpoint struct {
	loc  Loc
	kv   []KV
	gens map[int]bool
}

// TreeState is the harness view of one tree.
type TreeState struct {
	id              int
	sm              sortedmap.SortedMap
	bt              sortedmap.BPlusTree
	ll              sortedmap.LLRBTree
	m               *Model
	dirty           int // 0: no unflushed change, 1: some, 2: cannot be told (a failed call)
	cks             []*Checkpoint
	shared          bool
	hist            []*HistOp
	inflight        []*OpCtx
	lenNow          int
	sweep           *sweepState
	foreign         bool
	gen             int // incarnation
	loadedSinceRest bool
	lastPruned      bool
	calm            bool    // this round has no call that changes the map
	still           *Walked // this round changes neither the map nor its stored nodes: what those are
	pruneSeq        int     // prune calls started
	pruning         int     // prune calls in flight
	hadFail         bool    // an earlier call failed because a callback did
	mt              *meter
	height          int            // as last reported, 0 once it may have changed
	spelt           map[int]string // the spelling a present key was inserted with, where that is certain
	cache           *Cache         // nil: none
	gone            sortedmap.BPlusTree
}

type sweepState struct {
	next  int
	old   map[int]bool // write generations referenced when the sweep began
	calls int
}

// Cache is a node cache and what is known about it.
type Cache struct {
	bp                sortedmap.BPlusTreeCache
	low, high         int
	minHigh           uint64 // lowest high limit there has been
	calm              calm
	limCalls, limBusy int
	limAmbig          bool
	trees             []*TreeState
	// hits and misses of the running round
	s0         *sortedmap.BPlusTreeCacheStats
	reads      int  // nodes read by lookups and modifications
	found      int  // nodes lookups found in memory, at least
	otherReads bool // other calls read nodes, or calls failed
}

// Run is one execution of a case.
type Run struct {
	cs           *Case
	w            *World
	trees        []*TreeState
	caches       []*Cache
	round        int
	bar          *simrt.Barrier
	seq          int // history stamps
	arrived      []bool
	epoch        int
	stats        *Stats
	res          *Result
	sim          *simrt.Sim
	search       *simrt.RNG
	keep         bool
	lastEpochNow int64
	recov        bool
}

// Result of one execution.
type Result struct {
	Fail   *simrt.Failure
	Digest uint64
	Sig    uint64
	Sched  []simrt.Decision
	Faults []Fault
	Lats   []Lat
	Trace  []string
	Stats  *Stats
}

// Stats counted over runs.
type Stats struct {
	Runs, Ops, Crashes, Switches, Preempts, Blocks, Spawns, Events int64
	SimNS                                                          int64
	Fired                                                          map[string]int64
	OpKinds                                                        map[string]int64
	Calls                                                          map[string]int64
	Probes                                                         map[string]int64
	Foreign                                                        map[string]int64
	LinOps, LinStates, LinUnknown                                  int64
	Replayed                                                       int64
}

func NewStats() *Stats {
	return &Stats{Fired: map[string]int64{}, OpKinds: map[string]int64{}, Calls: map[string]int64{}, Probes: map[string]int64{}, Foreign: map[string]int64{}}
}

func (s *Stats) Add(o *Stats) {
	s.Runs += o.Runs
	s.Ops += o.Ops
	s.Crashes += o.Crashes
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	s.Blocks += o.Blocks
	s.Spawns += o.Spawns
	s.Events += o.Events
	s.SimNS += o.SimNS
	s.LinOps += o.LinOps
	s.LinStates += o.LinStates
	s.LinUnknown += o.LinUnknown
	s.Replayed += o.Replayed
	for _, p := range [][2]map[string]int64{{s.Fired, o.Fired}, {s.OpKinds, o.OpKinds}, {s.Calls, o.Calls}, {s.Probes, o.Probes}, {s.Foreign, o.Foreign}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
}

// Execute runs a case; search==nil means replay from the case's records.
func Execute(cs *Case, search *simrt.RNG, keep bool) *Result {
	r := &Run{cs: cs, search: search, keep: keep, stats: NewStats(), res: &Result{}}
	r.stats.Runs = 1
	var schedRNG, faultRNG *simrt.RNG
	if search != nil {
		schedRNG = search.Split()
		faultRNG = search.Split()
	}
	r.w = NewWorld(cs, faultRNG)
	simrt.Races = cs.Prop == "C20"
	if simrt.Races && !simrt.RaceBuilt {
		fmt.Fprintln(os.Stderr, "this build does not report memory accesses")
		os.Exit(2)
	}
	simsync.ResetPools()
	simrt.MapOrderSeed = cs.Cfg.MapSeed
	for i := 0; i < cs.Cfg.Trees; i++ {
		r.trees = append(r.trees, &TreeState{id: i, m: &Model{}, shared: cs.shared(i)})
	}
	digest := uint64(0)
	for r.round < len(cs.Rounds) {
		sim := simrt.New(schedRNG, cs.Cfg.Strat, cs.Sched)
		sim.KeepTrace = keep
		for t := range cs.Cfg.Foreign {
			per := 10000 // one call may visit everything
			if cs.Prop == "C23" {
				per = 1500 // see meter.enter
			}
			sim.OpStepLimit += per * cs.Cfg.foreignN(t)
		}
		r.sim = sim
		sim.CrashAt = map[int]int{}
		sim.BaseOp = -2000000000 - r.epoch
		r.newMemory()
		r.setCrash()
		n := len(cs.Cfg.TreeOf)
		r.bar = simrt.NewBarrier(n)
		for c := 0; c < n; c++ {
			c := c
			sim.Spawn(fmt.Sprintf("c%d", c), func() { r.client(c) })
		}
		sim.Run()
		digest = simrt.Mix(digest, sim.Digest())
		r.res.Sig = simrt.Mix(r.res.Sig, sim.InterSig)
		r.res.Sched = append(r.res.Sched, sim.Recorded...)
		if keep {
			r.res.Trace = append(r.res.Trace, sim.Trace...)
		}
		st := r.stats
		st.Switches += sim.NSwitch
		st.Preempts += sim.NPreempt
		st.Blocks += sim.NBlock
		st.Spawns += sim.NSpawn
		st.Events += sim.NEvents
		st.SimNS += int64(sim.Now())
		if n, k := sim.RaceAccesses(); n > 0 {
			st.Probes["memory-accesses-judged"] += n
			st.Probes["memory-locations-judged"] += k
		}
		if sim.Fail != nil {
			r.res.Fail = sim.Fail
			break
		}
		if sim.Crashed {
			st.Crashes++
			r.w.inCall = [64]int{}
			r.epoch++
			if keep {
				r.res.Trace = append(r.res.Trace, "---- process crash: memory lost ----")
			}
			if p := r.recover(); p != nil {
				r.res.Fail = &simrt.Failure{Class: p.Class, Msg: p.Msg}
				break
			}
			r.round++
			continue
		}
		break
	}
	if r.res.Fail != nil {
		r.res.Fail.Msg = sanitize(r.res.Fail.Msg)
	}
	for k, v := range r.w.Fired {
		r.stats.Fired[k] += v
	}
	for i, v := range r.w.Calls {
		r.stats.Calls[cbNames[i]] += v
	}
	for k, v := range r.w.Soft {
		r.stats.Foreign["continued:"+k] += v
	}
	r.res.Digest = digest
	r.res.Faults = r.w.RecFaults
	r.res.Lats = r.w.RecLats
	r.res.Stats = r.stats
	return r.res
}

var hexPtr = regexp.MustCompile(`0x[0-9a-f]{6,}`)
var gorout = regexp.MustCompile(`\+0x[0-9a-f]+|goroutine \d+`)

func sanitize(s string) string { return gorout.ReplaceAllString(hexPtr.ReplaceAllString(s, "PTR"), "") }

// newMemory creates the volatile objects of an epoch.
func (r *Run) newMemory() {
	r.caches = nil
	for _, ts := range r.trees {
		ts.sm, ts.bt, ts.ll, ts.cache = nil, nil, nil, nil
		ts.hist = nil
		ts.sweep = nil
		ts.inflight = nil
	}
}

func (r *Run) setCrash() {
	r.w.crash = nil
	for i := r.round; i < len(r.cs.Rounds); i++ {
		if c := r.cs.Rounds[i].Crash; c != nil {
			r.w.crash = c
			if c.Step > 0 {
				r.sim.CrashAt[c.Op] = c.Step
			}
			break
		}
	}
}

// recover is the restart after a crash: it checks every location that must
// still be good and picks, per tree, the one the client reopens.
func (r *Run) recover() *Problem {
	for _, ts := range r.trees {
		if p := r.checkCheckpoints(ts); p != nil {
			p.Msg = "after a crash: " + p.Msg
			return p
		}
		r.stats.Probes["crash-with-"+plural(len(ts.cks), "location")]++
		if len(ts.cks) == 0 {
			for _, st := range r.w.all {
				if st.Live && st.Tree == ts.id {
					r.w.remove(st)
				}
			}
			ts.m = &Model{}
			ts.height = 0
			ts.dirty = 1
			ts.gen++
			continue
		}
		i := len(ts.cks) - 1
		if h := simrt.Mix(r.cs.Cfg.PickSeed, uint64(r.epoch), uint64(ts.id)); h%3 == 0 {
			i = int(h>>8) % len(ts.cks)
		}
		r.adopt(ts, ts.cks[i])
	}
	return nil
}

func plural(n int, s string) string {
	if n > 3 {
		return "many-" + s + "s"
	}
	return fmt.Sprintf("%d-%ss", n, s)
}

// adopt makes a checkpoint the state of the tree: storage not reachable from
// it is garbage the client reclaims.
func (r *Run) adopt(ts *TreeState, ck *Checkpoint) {
	for _, st := range r.w.all {
		if st.Live && st.Tree == ts.id && !ck.gens[st.Gen] {
			r.w.remove(st)
		}
	}
	ts.cks = []*Checkpoint{ck}
	ts.m = &Model{append([]KV(nil), ck.kv...)}
	ts.height = 0
	ts.dirty = 0
	ts.gen++
}

// checkCheckpoints verifies, from stored bytes alone, that every location that
// has to be good still denotes its contents.
func (r *Run) checkCheckpoints(ts *TreeState) *Problem {
	for i, ck := range ts.cks {
		wk, p := r.w.codec.Walk(ck.loc, r.w.get)
		if p != nil {
			return &Problem{"durable", fmt.Sprintf("tree %d: location %v returned by flush (%d of %d still promised) is damaged: %s", ts.id, ck.loc, i+1, len(ts.cks), p.Msg)}
		}
		if !kvEqual(wk.KVs, ck.kv) {
			return &Problem{"durable", fmt.Sprintf("tree %d: location %v returned by flush no longer denotes its contents: %s", ts.id, ck.loc, kvDiff(wk.KVs, ck.kv))}
		}
	}
	return nil
}

func kvDiff(got, want []KV) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	g, w := "end", "end"
	if i < len(got) {
		g = fmt.Sprint(got[i])
	}
	if i < len(want) {
		w = fmt.Sprint(want[i])
	}
	return fmt.Sprintf("%d items (expected %d); at index %d: %s (expected %s)", len(got), len(want), i, g, w)
}

// ctx plumbing -------------------------------------------------------------

func (r *Run) begin(ts *TreeState, op *Op) *OpCtx {
	c := &OpCtx{op: op}
	if ts != nil {
		c.tree = ts.id
		if ts.shared {
			ts.inflight = append(ts.inflight, c)
			c.hw = ts.lenNow + len(r.cs.Cfg.TreeOf)
		}
	}
	simrt.Cur().User = c
	simrt.Cur().Cmp = 0
	simrt.EnterOp(op.ID)
	r.stats.Ops++
	r.stats.OpKinds[op.K]++
	if r.keep {
		r.sim.Comment("call %s a=%d b=%d v=%d", op.K, op.A, op.B, op.V)
	}
	return c
}

func (r *Run) end(ts *TreeState, c *OpCtx) {
	if r.w.crash != nil && r.w.crash.Op == c.op.ID {
		// the chosen instant was not reached inside the call: die at its end
		r.w.Fired["crash"]++
		r.sim.Crash()
	}
	r.account(ts, c)
	if ts != nil && ts.shared {
		for i, x := range ts.inflight {
			if x == c {
				ts.inflight = append(ts.inflight[:i], ts.inflight[i+1:]...)
				break
			}
		}
	}
	simrt.Cur().User = nil
	simrt.EnterOp(-1000 - c.op.ID)
}

func (r *Run) stamp() int { r.seq++; return r.seq }

// client is the body of one simulated caller.
func (r *Run) client(c int) {
	if c == 0 {
		simrt.Start()
		r.open()
	}
	for r.round < len(r.cs.Rounds) {
		rd := &r.cs.Rounds[r.round]
		if c == 0 {
			r.arrived = make([]bool, len(r.cs.Cfg.TreeOf))
			for t, ops := range rd.Setup {
				for i := range ops {
					r.solo(r.trees[t], &ops[i])
				}
			}
			r.armStalls(rd)
			r.startRound(rd)
		}
		r.bar.Wait()
		ts := r.trees[r.cs.Cfg.TreeOf[c]]
		if c < len(rd.Ops) {
			for i := range rd.Ops[c] {
				op := &rd.Ops[c][i]
				if ts.shared {
					r.sharedOp(ts, c, op)
				} else {
					r.solo(ts, op)
				}
			}
		}
		r.arrived[c] = true
		r.bar.Wait()
		if c == 0 {
			r.checkAccounts()
			r.quiet(rd)
			r.round++
		}
		r.bar.Wait()
	}
}
