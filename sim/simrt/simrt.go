// Package simrt is the deterministic scheduler the simulated build of sortedmap
// runs under.
//
// Every task (client caller or goroutine started by the code under test) is a
// real goroutine, but exactly one of them runs at any moment: the one holding
// the token. The token moves only at points the simulator owns: a yield
// inserted before each statement of the instrumented package, an operation of
// the simulated sync package, a storage callback, a simulated sleep, a
// spawn or the end of a task. Who gets the token is decided by a Chooser: a
// seeded generator in search mode, a recorded list of decisions in replay
// mode. Nothing here reads a real clock or a real random source.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Decision says: when task T, inside its operation Op, has counted S local
// steps, hand the token to task To. Points without a recorded decision use the
// default policy (keep running; if impossible, lowest numbered runnable task).
type Decision struct {
	T  string `json:"t"`
	Op int    `json:"op"`
	S  int    `json:"s"`
	To string `json:"to"`
}

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stSleeping
	stQuiesce // waits until no background task is alive
	stJoin    // waits until a given set of clients is done/parked (barrier)
	stDone
)

// Task is one simulated thread.
type Task struct {
	Name   string
	id     int
	bg     bool // started by the code under test
	ch     chan struct{}
	state  taskState
	wake   int64
	why    string
	op     int
	step   int
	stop   int // local step at which Y must take the slow path
	pre    int // next preemption point (search mode)
	limit  int
	spawns int
	prio   uint64
	Nth    map[string]int // per operation counters, for fault keys
	plan   []Decision     // replay: decisions of the current op, ascending S
	crash  int
	idle   bool // blocked until another task hands it something to do
	sleeps int  // times it went to sleep
	spin   int  // next local step at which others must get a turn
	gotV   any  // what the last channel receive returned
	gotOK  bool
	User   interface{} // harness data of the running operation
	Cmp    int64       // comparator calls made by the task (harness use)
	vc     VC
}

// Background tells a goroutine the code under test started from a caller's.
func (t *Task) Background() bool { return t.bg }

// Op returns the id of the operation the task is executing.
func (t *Task) Op() int { return t.op }

// Strategy configures the search-mode scheduler.
type Strategy struct {
	Kind   string  `json:"kind"`   // "none", "rand", "pct", "event"
	Mean   int     `json:"mean"`   // mean local steps between random preemptions
	PEvent float64 `json:"pEvent"` // probability of switching at a sync/callback event
	BgBias float64 `json:"bgBias"` // probability that a random pick prefers a background task
	Depth  int     `json:"depth"`  // pct: number of priority change points per operation (expected, x1/8)
}

const (
	fairAfter = 20000
	spinAfter = 2000000 // statements without a break after which others get a turn
	restAfter = 40      // a background task that went to sleep this often since has nothing left to do
)

// Failure is a violation seen during a run.
type Failure struct {
	Class string
	Msg   string
	Stack string
}

// Sim is one simulated execution.
type Sim struct {
	rng       *RNG // nil in replay mode
	strat     Strategy
	tasks     []*Task
	now       int64 // simulated nanoseconds
	stopping  bool
	Fail      *Failure
	Crashed   bool
	doneCh    chan struct{}
	plan      map[string]map[int][]Decision
	Recorded  []Decision
	hash      uint64
	Trace     []string // filled only when KeepTrace
	KeepTrace bool

	nextID     int
	sinceSwtch int
	// statistics
	NPreempt, NSwitch, NBlock, NSpawn, NEvents int64
	Steps                                      int64
	MaxEvents                                  int   // without a call beginning
	evBase                                     int64 // events when the latest call of a client began
	OpStepLimit                                int
	live                                       int
	InterSig                                   uint64 // hash over the order in which tasks got the token
	// BaseOp is the operation id tasks start with.
	BaseOp int
	// Hold keeps background tasks off the token (used by probes that need
	// eviction to run only at chosen points).
	Hold     bool
	timers   []*timer
	timerSeq int64
	// bookkeeping of background tasks that never end
	restMark              map[*Task]int
	timerFires, timerMark int
	idleJumps             int // clock jumps since a task last ran
	ended                 bool
	race                  *raceState
	spawnVC               *VC
	// CrashAt maps an operation id to the local step at which the process dies.
	CrashAt map[int]int
}

// TraceSwitches adds every context switch to kept traces (debugging).
var TraceSwitches bool

var cur *Task
var sim *Sim

// Active reports whether the calling code runs inside a simulated task.
func Active() bool { return cur != nil }

// Cur returns the running task (nil outside a run).
func Cur() *Task { return cur }

// S returns the running simulation.
func S() *Sim { return sim }

// New creates a simulation. rng==nil means replay of the given decisions.
func New(rng *RNG, strat Strategy, decisions []Decision) *Sim {
	s := &Sim{rng: rng, strat: strat, doneCh: make(chan struct{}, 1), hash: 14695981039346656037, MaxEvents: 40000000, OpStepLimit: 30000000}
	s.newRace()
	s.plan = map[string]map[int][]Decision{}
	for _, d := range decisions {
		m := s.plan[d.T]
		if m == nil {
			m = map[int][]Decision{}
			s.plan[d.T] = m
		}
		m[d.Op] = append(m[d.Op], d)
	}
	for _, m := range s.plan {
		for _, l := range m {
			sort.SliceStable(l, func(i, j int) bool { return l[i].S < l[j].S })
		}
	}
	return s
}

// Note adds an event to the run digest (and the trace when kept).
func (s *Sim) Note(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	s.hashString(msg)
	if s.KeepTrace {
		n := "-"
		if cur != nil {
			n = fmt.Sprintf("%s#%d", cur.Name, cur.op)
		}
		s.Trace = append(s.Trace, fmt.Sprintf("t=%v %s %s", time.Duration(s.now), n, msg))
	}
}

// Comment adds a line to the kept trace only; the digest does not depend on it.
func (s *Sim) Comment(format string, a ...interface{}) {
	if s.KeepTrace {
		n := "-"
		if cur != nil {
			n = fmt.Sprintf("%s#%d", cur.Name, cur.op)
		}
		s.Trace = append(s.Trace, fmt.Sprintf("t=%v %s %s", time.Duration(s.now), n, fmt.Sprintf(format, a...)))
	}
}

// Mark is a cheap Note.
func (s *Sim) Mark(kind string, a, b, c uint64) {
	s.hashString(kind)
	s.hashInt(a)
	s.hashInt(b)
	s.hashInt(c)
	if s.KeepTrace {
		n := "-"
		if cur != nil {
			n = fmt.Sprintf("%s#%d", cur.Name, cur.op)
		}
		s.Trace = append(s.Trace, fmt.Sprintf("t=%v %s %s %d %d %d", time.Duration(s.now), n, kind, a, b, c))
	}
}

func (s *Sim) hashString(m string) {
	h := s.hash
	for i := 0; i < len(m); i++ {
		h ^= uint64(m[i])
		h *= 1099511628211
	}
	s.hash = h
}

func (s *Sim) hashInt(v uint64) {
	s.hash ^= v
	s.hash *= 1099511628211
	s.hash ^= s.hash >> 29
}

// Digest identifies the execution: every switch, event, callback and result.
func (s *Sim) Digest() uint64 { return s.hash }

// Now is the simulated clock.
func (s *Sim) Now() time.Duration { return time.Duration(s.now) }

// Spawn registers a client task before or during the run.
func (s *Sim) Spawn(name string, f func()) *Task { return s.spawn(name, false, f) }

func (s *Sim) spawn(name string, bg bool, f func()) *Task {
	t := &Task{Name: name, id: s.nextID, bg: bg, ch: make(chan struct{}, 1), Nth: map[string]int{}, op: s.BaseOp, limit: s.OpStepLimit}
	if s.rng != nil {
		t.prio = s.rng.Uint64()
	}
	s.nextID++
	if s.race != nil {
		switch {
		case s.spawnVC != nil:
			t.vc.join(*s.spawnVC)
		case cur != nil:
			Release(&t.vc)
		}
		t.tick()
	}
	s.tasks = append(s.tasks, t)
	s.live++
	t.enterOp(s, s.BaseOp)
	go func() {
		<-t.ch
		defer func() {
			// A task of a run that is over ends by runtime.Goexit, which
			// the code under test cannot mistake for a panic of its own; a
			// panic in what it still defers means nothing (its locks are
			// no-ops by now).
			if r := recover(); r != nil && !s.stopping {
				s.failPanic(t, r)
			}
			s.finish(t)
		}()
		if s.stopping {
			return
		}
		f()
	}()
	return t
}

func (s *Sim) failPanic(t *Task, r interface{}) {
	if s.Fail == nil {
		s.Fail = &Failure{Class: "panic", Msg: fmt.Sprintf("panic in %s during op %d: %v", t.Name, t.op, r), Stack: string(debug.Stack())}
	}
	s.stopping = true
}

// Violate records a violation and ends the run.
func (s *Sim) Violate(class, format string, a ...interface{}) {
	if s.Fail == nil {
		s.Fail = &Failure{Class: class, Msg: fmt.Sprintf(format, a...)}
	}
	s.Note("VIOLATE %s", class)
	s.Stop()
}

// Stop ends the run from inside a task (crash or violation): all tasks unwind.
func (s *Sim) Stop() {
	s.stopping = true
	if cur != nil {
		runtime.Goexit()
	}
}

// Crash ends the run as a process crash: memory is lost, storage stays.
func (s *Sim) Crash() {
	s.Crashed = true
	s.Note("CRASH")
	s.Stop()
}

// Run executes until every task is done (or the run was stopped). It returns
// when no simulated goroutine of this Sim is left.
func (s *Sim) Run() {
	sim = s
	if len(s.tasks) == 0 {
		return
	}
	first := s.pickDefault(nil)
	if s.rng != nil {
		if n := s.pickRandom(nil); n != first {
			first = n
			s.Recorded = append(s.Recorded, Decision{"", s.BaseOp, 0, n.Name})
		}
	} else if l := s.plan[""][s.BaseOp]; len(l) > 0 {
		for _, t := range s.tasks {
			if t.Name == l[0].To {
				first = t
				s.Recorded = append(s.Recorded, l[0])
			}
		}
	}
	s.transfer(first)
	<-s.doneCh
	cur = nil
	sim = nil
}

func (s *Sim) transfer(t *Task) {
	cur = t
	s.NSwitch++
	s.sinceSwtch = 0
	s.idleJumps = 0
	s.hashInt(uint64(t.id) + 0x9e37)
	s.InterSig = (s.InterSig ^ (uint64(t.id)*1099 + uint64(t.op+2)*31 + uint64(t.step)*1000003)) * 0x9E3779B97F4A7C15
	s.InterSig ^= s.InterSig >> 31
	if TraceSwitches && s.KeepTrace {
		s.Trace = append(s.Trace, fmt.Sprintf("t=%v switch to %s#%d.%d", time.Duration(s.now), t.Name, t.op, t.step))
	}
	t.ch <- struct{}{}
}

// finish runs in the ending task's goroutine.
func (s *Sim) finish(t *Task) {
	t.state = stDone
	s.live--
	for i, u := range s.tasks {
		if u == t {
			s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
			break
		}
	}
	if s.live == 0 {
		s.doneCh <- struct{}{}
		return
	}
	if s.stopping {
		for _, u := range s.tasks {
			if u.state != stDone {
				s.transfer(u)
				return
			}
		}
	}
	t.step++
	if s.over() {
		s.stopping = true
		s.transfer(s.tasks[0])
		return
	}
	n := s.choose(t, false)
	s.transfer(n)
}

// park gives the token away and waits to get it back.
func (s *Sim) park(t, n *Task) {
	if n == t {
		return
	}
	s.transfer(n)
	<-t.ch
	if s.stopping {
		runtime.Goexit()
	}
}

// bgBusy reports whether a background task still has something to do: it can
// run, waits for a lock or sleeps. One that waits to be handed work (channel,
// condition variable) is at rest, and so is one that only polls.
func (s *Sim) bgBusy() bool {
	for _, t := range s.tasks {
		if !t.bg || t.state == stDone || t.state == stBlocked && t.idle {
			continue
		}
		if t.state == stSleeping && t.wake > s.now && t.sleeps-s.restMark[t] > restAfter {
			continue
		}
		return true
	}
	for _, t := range s.timers {
		if t.fired <= restAfter && s.timerFires-s.timerMark <= 4*restAfter {
			return true
		}
	}
	return false
}

// mark starts a new count of polls.
func (s *Sim) mark() {
	s.restMark = map[*Task]int{}
	for _, t := range s.tasks {
		s.restMark[t] = t.sleeps
	}
	for _, t := range s.timers {
		t.fired = 0
	}
	s.timerMark = s.timerFires
}

// over reports that only background tasks without work are left.
func (s *Sim) over() bool {
	n := 0
	for _, t := range s.tasks {
		if t.state != stDone {
			if !t.bg {
				return false
			}
			n++
		}
	}
	if n == 0 {
		return false
	}
	if !s.ended {
		s.ended = true
		s.mark()
	}
	return !s.bgBusy()
}

// runnable refreshes waiting states and lists runnable tasks in id order.
func (s *Sim) runnable() []*Task {
	var out []*Task
	for _, t := range s.tasks {
		if s.Hold && t.bg {
			continue
		}
		switch t.state {
		case stRunnable:
			out = append(out, t)
		case stSleeping:
			if t.wake <= s.now {
				t.state = stRunnable
				out = append(out, t)
			}
		case stQuiesce:
			if !s.bgBusy() {
				t.state = stRunnable
				out = append(out, t)
			}
		}
	}
	return out
}

// ready returns runnable tasks, advancing the clock when all are asleep.
func (s *Sim) ready() []*Task {
	r := s.runnable()
	for len(r) == 0 {
		var next int64 = -1
		if t := s.nextTimer(); t != nil && !s.Hold {
			next = t.when
		}
		for _, t := range s.tasks {
			if s.Hold && t.bg {
				continue
			}
			if t.state == stSleeping && (next < 0 || t.wake < next) {
				next = t.wake
			}
		}
		if next < 0 {
			if !s.Hold {
				return nil
			}
			s.Hold = false
		} else {
			if next > s.now {
				s.now = next
			}
			if s.idleJumps++; s.idleJumps > 1000000 {
				return nil
			}
		}
		s.fireTimers()
		r = s.runnable()
	}
	return r
}

func (s *Sim) pickDefault(t *Task) *Task {
	r := s.ready()
	if len(r) == 0 {
		return nil
	}
	if t != nil && t.state == stRunnable {
		return t
	}
	return r[0]
}

func (s *Sim) pickRandom(t *Task) *Task {
	r := s.ready()
	if len(r) == 0 {
		return nil
	}
	if s.strat.Kind == "pct" {
		best := r[0]
		for _, u := range r[1:] {
			if u.prio > best.prio {
				best = u
			}
		}
		return best
	}
	if s.strat.Kind == "none" {
		if t != nil && t.state == stRunnable {
			return t
		}
		return r[0]
	}
	if s.strat.BgBias > 0 && s.rng.Float64() < s.strat.BgBias {
		var b []*Task
		for _, u := range r {
			if u.bg {
				b = append(b, u)
			}
		}
		if len(b) > 0 {
			return b[s.rng.Intn(len(b))]
		}
	}
	return r[s.rng.Intn(len(r))]
}

// choose decides who runs next at the current point of t and records the
// decision when it differs from the default policy.
func (s *Sim) choose(t *Task, fair bool) *Task {
	if t.bg && s.ended && s.over() {
		s.stopping = true
		for _, u := range s.tasks {
			if u.state != stDone && u != t {
				return u
			}
		}
		return t
	}
	def := s.pickDefault(t)
	if def == nil {
		s.deadlock()
		// everybody unwinds; t itself may be finishing
		for _, u := range s.tasks {
			if u.state != stDone && u != t {
				return u
			}
		}
		return t
	}
	forced := false
	if fair && s.sinceSwtch > fairAfter && def == t {
		// fairness: nobody keeps the token forever
		forced = true
		s.sinceSwtch = 0
		r := s.ready()
		for i, u := range r {
			if u == t {
				def = r[(i+1)%len(r)]
				break
			}
		}
	}
	n := def
	if forced {
		return n
	}
	if s.rng != nil {
		n = s.pickRandom(t)
		if n != def {
			s.Recorded = append(s.Recorded, Decision{t.Name, t.op, t.step, n.Name})
		}
	} else if d, ok := t.decision(); ok {
		for _, u := range s.ready() {
			if u.Name == d.To {
				n = u
				break
			}
		}
		if n != def {
			s.Recorded = append(s.Recorded, Decision{t.Name, t.op, t.step, n.Name})
		}
	}
	return n
}

// decision pops the replay decision for the task's current point.
func (t *Task) decision() (Decision, bool) {
	for len(t.plan) > 0 && t.plan[0].S < t.step {
		t.plan = t.plan[1:]
	}
	if len(t.plan) > 0 && t.plan[0].S == t.step {
		d := t.plan[0]
		t.plan = t.plan[1:]
		t.arm(nil)
		return d, true
	}
	return Decision{}, false
}

func (s *Sim) deadlock() {
	var w []string
	for _, t := range s.tasks {
		if t.state != stDone {
			w = append(w, fmt.Sprintf("%s(op %d) waits for %s", t.Name, t.op, t.why))
		}
	}
	if s.Fail == nil {
		s.Fail = &Failure{Class: "deadlock", Msg: "no task can proceed: " + strings.Join(w, "; ")}
	}
	s.stopping = true
}

// enterOp starts a new operation for fault/schedule keys.
func (t *Task) enterOp(s *Sim, id int) {
	t.op = id
	t.step = 0
	t.Nth = map[string]int{}
	t.limit = s.OpStepLimit
	if t.bg {
		t.limit *= 8 // may serve the needs of many calls
	} else {
		s.evBase = s.NEvents
	}
	t.plan = nil
	t.crash = s.CrashAt[id]
	if s.rng == nil {
		if m := s.plan[t.Name]; m != nil {
			t.plan = m[id]
		}
	}
	t.pre = 0
	t.spin = spinAfter
	t.arm(s)
}

// arm computes the next local step at which Y leaves its fast path.
func (t *Task) arm(s *Sim) {
	t.stop = t.limit
	if t.spin < t.stop {
		t.stop = t.spin
	}
	if t.crash > 0 && t.crash < t.stop {
		t.stop = t.crash
	}
	if s == nil {
		s = sim
	}
	if s == nil {
		return
	}
	if s.rng == nil {
		if len(t.plan) > 0 && t.plan[0].S < t.stop {
			t.stop = t.plan[0].S
		}
		return
	}
	gap := 0
	switch s.strat.Kind {
	case "rand":
		gap = s.rng.Geometric(s.strat.Mean)
	case "pct":
		// log-uniform change points
		gap = s.rng.LogUniform(s.strat.Mean * 8)
	}
	if gap > 0 {
		t.pre = t.step + gap
		if t.pre < t.stop {
			t.stop = t.pre
		}
	} else {
		t.pre = 0
	}
}

// EnterOp marks the start of operation id on the running task.
func EnterOp(id int) {
	if cur == nil || sim.stopping {
		return
	}
	cur.enterOp(sim, id)
	sim.Steps++
}

// Progress restarts the running task's statement budget: one operation of the
// harness may consist of many calls.
func Progress() {
	t := cur
	if t == nil || sim.stopping {
		return
	}
	old := t.limit
	sim.evBase = sim.NEvents
	t.limit = t.step + sim.OpStepLimit
	if t.stop == old {
		t.stop = t.limit
	}
}

// Y is the yield the instrumenter inserts before every statement.
func Y() {
	t := cur
	if t == nil {
		return
	}
	t.step++
	if t.step < t.stop {
		return
	}
	slowY(t)
}

// YV is a yield after an expression was evaluated.
func YV[T any](v T) T {
	Y()
	return v
}

func slowY(t *Task) {
	s := sim
	if s.stopping {
		return
	}
	if t.crash > 0 && t.step >= t.crash {
		s.Crash()
	}
	if t.step >= t.limit {
		s.Violate("livelock", "%s executed %d statements inside op %d without returning", t.Name, t.step, t.op)
	}
	if t.step >= t.spin { // a busy wait must not keep the others from running
		t.spin = t.step + spinAfter
		s.sinceSwtch = fairAfter + 1
		n := s.choose(t, true)
		t.arm(s)
		s.park(t, n)
		return
	}
	s.NPreempt++
	if s.rng != nil {
		if s.strat.Kind == "pct" && t.pre > 0 {
			t.prio = s.rng.Uint64() >> 16 // demote
		}
		n := s.choose(t, false)
		t.arm(s)
		s.park(t, n)
		return
	}
	n := s.choose(t, false)
	t.arm(s)
	s.park(t, n)
}

// Event is a potential switch point (sync operation, callback, spawn).
func Event() {
	t := cur
	if t == nil || sim.stopping {
		return
	}
	s := sim
	t.step++
	s.now += 50
	s.NEvents++
	s.sinceSwtch++
	if len(s.timers) > 0 { // here and when the clock jumps: the same points in search and replay
		s.fireTimers()
	}
	if t.crash > 0 && t.step >= t.crash {
		s.Crash()
	}
	if int(s.NEvents-s.evBase) > s.MaxEvents {
		s.Violate("livelock", "no call completed within %d scheduling events; %s is in op %d", s.MaxEvents, t.Name, t.op)
	}
	if s.rng != nil {
		sw := false
		switch s.strat.Kind {
		case "none":
		case "pct":
			sw = true
		default:
			sw = s.rng.Float64() < s.strat.PEvent
		}
		if t.stop <= t.step {
			t.arm(s)
		}
		if sw || s.sinceSwtch > fairAfter {
			s.park(t, s.choose(t, true))
		}
		return
	}
	if (len(t.plan) > 0 && t.plan[0].S <= t.step) || s.sinceSwtch > fairAfter {
		n := s.choose(t, true)
		t.arm(s)
		s.park(t, n)
	}
}

// Block parks the running task until Wake; why is for deadlock reports.
func Block(why string) {
	t := cur
	s := sim
	if s.stopping {
		runtime.Goexit()
	}
	t.step++
	s.NBlock++
	s.NEvents++
	if int(s.NEvents-s.evBase) > s.MaxEvents {
		s.Violate("livelock", "no call completed within %d scheduling events; %s is in op %d", s.MaxEvents, t.Name, t.op)
	}
	t.state = stBlocked
	t.why = why
	n := s.choose(t, false)
	t.arm(s)
	s.parkBlocked(t, n)
	t.why = ""
}

// BlockIdle is Block for a wait that ends only when another task hands this
// one something to do.
func BlockIdle(why string) {
	t := cur
	t.idle = true
	Block(why)
	t.idle = false
}

// Unwind ends the running task when the run is being torn down.
func Unwind() {
	if sim != nil && sim.stopping {
		runtime.Goexit()
	}
}

func (s *Sim) parkBlocked(t, n *Task) {
	if s.stopping { // deadlock was declared
		runtime.Goexit()
	}
	s.park(t, n)
}

// Wake makes a blocked task runnable.
func Wake(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
	}
}

// Sleep suspends the running task for d of simulated time.
func Sleep(d time.Duration) {
	t := cur
	if t == nil || sim.stopping {
		return
	}
	s := sim
	t.step++
	t.state = stSleeping
	t.sleeps++
	t.wake = s.now + int64(d)
	t.why = "clock"
	n := s.choose(t, false)
	t.arm(s)
	s.parkBlocked(t, n)
	t.state = stRunnable
	t.why = ""
}

// Quiesce suspends the running task until no background task is alive.
func Quiesce() {
	t := cur
	if t == nil || sim.stopping {
		return
	}
	s := sim
	s.mark()
	if !s.bgBusy() {
		return
	}
	t.step++
	t.state = stQuiesce
	t.why = "background eviction to come to rest"
	n := s.choose(t, false)
	t.arm(s)
	s.parkBlocked(t, n)
	t.state = stRunnable
	t.why = ""
}

// Go replaces the go statement.
func Go(f func()) {
	t := cur
	if t == nil {
		return // package initialisation: runs again in every simulated process
	}
	s := sim
	if s.stopping {
		return
	}
	t.spawns++
	name := fmt.Sprintf("%s/%d.g%d", t.Name, t.op, t.Nth["spawn"])
	t.Nth["spawn"]++
	if strings.Count(name, "/") > 4 {
		name = fmt.Sprintf("g%d", s.NSpawn)
	}
	s.NSpawn++
	s.spawn(name, true, f)
	Event()
}

// Stopping reports that the run is unwinding (mutexes become no-ops).
func Stopping() bool { return sim != nil && sim.stopping }

// Barrier lets n tasks wait for each other.
type Barrier struct {
	n, arrived int
	waiting    []*Task
	vc         VC
}

func NewBarrier(n int) *Barrier { return &Barrier{n: n} }

func (b *Barrier) Wait() {
	if sim.stopping {
		runtime.Goexit()
	}
	b.arrived++
	Sync(&b.vc)
	if b.arrived >= b.n {
		w := b.waiting
		b.waiting = nil
		b.arrived = 0
		for _, t := range w {
			Wake(t)
		}
		return
	}
	b.waiting = append(b.waiting, cur)
	Block("barrier")
	Acquire(&b.vc)
}

// Leave removes a finished participant.
func (b *Barrier) Leave() {
	b.n--
	if b.n > 0 && b.arrived >= b.n {
		w := b.waiting
		b.waiting = nil
		b.arrived = 0
		for _, t := range w {
			Wake(t)
		}
	}
}

// Step is how many statements of the code under test (and scheduling points)
// the task has executed in its current operation.
func (t *Task) Step() int { return t.step }
