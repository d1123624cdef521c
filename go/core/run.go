package core

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/simrt"
)

// Scenario decides (part of) one property.
type Scenario struct {
	Name   string
	Weight int
	// Gen draws a plan.
	Gen func(r *simrt.RNG, thorough bool) *Plan
	// Exec runs it; it is the simulation's main task.
	Exec func(e *Env)
	// Coop scenarios switch tasks only where a task blocks or ends.
	Coop bool
	// Race scenarios also look for unsynchronised access to shared memory.
	Race bool
	// Budget is the step limit of one run.
	Budget uint64
	// Fixed are hand-written plans run before the seeded search.
	Fixed func() []*Plan
	fixed []*Plan
}

// Check is everything about one property.
type Check struct {
	Prop      string
	Title     string
	Quick     int // runs
	Thorough  int
	Rule      string
	Real      []string
	Stub      []string
	Faults    []string // fault kinds the plans can contain
	Assume    []string
	Scenarios []*Scenario
}

// Main holds the checks of a binary.
type Main struct {
	Checks []*Check
	Reinit func()
	Sites  []string

	progress *os.File
}

func mixSeed(parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return binary.BigEndian.Uint64(h[:8])
}

// planFor returns run number i of a check.
func (m *Main) planFor(c *Check, seed int64, i int, thorough bool) (*Plan, *Scenario) {
	// fixed plans first
	k := i
	for _, s := range c.Scenarios {
		if s.Fixed == nil {
			continue
		}
		if s.fixed == nil {
			s.fixed = s.Fixed()
		}
		fx := s.fixed
		if k < len(fx) {
			p := fx[k].clone()
			p.Prop, p.Scenario = c.Prop, s.Name
			if p.Seed == 0 {
				p.Seed = mixSeed("fixed", c.Prop, i)
			}
			return p, s
		}
		k -= len(fx)
	}
	rs := mixSeed("run", seed, c.Prop, i)
	r := simrt.NewRNG(rs)
	tot := 0
	for _, s := range c.Scenarios {
		tot += s.Weight
	}
	n := r.Intn(tot)
	var sc *Scenario
	for _, s := range c.Scenarios {
		if n < s.Weight {
			sc = s
			break
		}
		n -= s.Weight
	}
	p := sc.Gen(r, thorough)
	p.Prop, p.Scenario, p.Seed = c.Prop, sc.Name, rs
	if p.Gap == 0 && p.HotMod == 0 && !sc.Coop {
		switch r.Intn(6) {
		case 0: // no preemption: only blocking switches
		case 1:
			p.Gap = 1 + r.Intn(4)
		case 2:
			p.Gap = 5 + r.Intn(40)
		case 3:
			p.Gap = 50 + r.Intn(400)
		case 4:
			p.HotMod, p.HotSalt = uint32(5+r.Intn(60)), uint32(r.Next())
		case 5:
			p.Gap = 500 + r.Intn(4000)
		}
	}
	return p, sc
}

func (c *Check) scenario(name string) *Scenario {
	for _, s := range c.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Result of one run.
type Result struct {
	Viol     *Violation
	Env      *Env
	Steps    uint64
	Switches uint64
	Hash     uint64
	Path     uint64
	SimNS    int64
	Trace    []simrt.Switch
	Log      []string
}

// siteHits accumulates instrumentation points reached by this process.
var siteHits []uint32

func (s *Scenario) budget() uint64 {
	if s.Budget == 0 {
		return 20_000_000
	}
	return s.Budget
}

func (m *Main) exec(sc *Scenario, p *Plan, keepLog bool) *Result {
	m.Reinit()
	simrt.ResetChans()
	budget := sc.budget()
	pol := simrt.Policy{Gap: p.Gap, HotMod: p.HotMod, HotSalt: p.HotSalt}
	s := simrt.New(p.Seed, pol, budget, p.Sched, p.Recorded)
	if siteHits == nil {
		siteHits = make([]uint32, len(m.Sites))
	}
	s.Sites = siteHits
	if sc.Race {
		s.DetectRaces()
	}
	if keepLog {
		s.KeepLog()
	}
	e := &Env{Sim: s, Plan: p, Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]string{}, States: map[uint64]struct{}{}}
	out := s.Run(func() { sc.Exec(e) })
	r := &Result{Env: e, Viol: e.Viol, Steps: s.Steps(), Switches: s.Switches(), Hash: s.Hash(), Path: s.PathHash(), SimNS: s.SimNow(), Trace: s.Trace, Log: s.Log}
	if r.Viol == nil {
		switch {
		case out.Race != nil:
			what := map[bool]string{false: "reads", true: "writes"}
			x := out.Race
			r.Viol = &Violation{"data race", fmt.Sprintf("%s %s at %s what %s %s at %s, with no synchronisation in between",
				x.TaskB, what[x.WB], m.siteName(x.B), x.TaskA, what[x.WA], m.siteName(x.A))}
		case out.Panic != "":
			r.Viol = &Violation{"panic", "uncaught panic: " + out.Panic + " at " + out.Stack}
		case out.Deadlock != "":
			r.Viol = &Violation{"deadlock", "no task can run: " + out.Deadlock}
		case out.Exhausted:
			r.Viol = &Violation{"livelock", fmt.Sprintf("no end after %d statements", budget)}
		}
	}
	if r.Viol != nil && keepLog {
		r.Log = append(r.Log, "RESULT "+r.Viol.Class+": "+r.Viol.Msg)
	}
	return r
}

func (m *Main) siteName(i int32) string {
	if i >= 0 && int(i) < len(m.Sites) {
		return m.Sites[i]
	}
	return "the harness"
}

// workerOut is what a worker reports.
type workerOut struct {
	Runs     int               `json:"runs"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	SimNS    int64             `json:"sim_ns"`
	Longest  uint64            `json:"longest"`
	Peak     float64           `json:"peak"`
	Faults   map[string]int    `json:"faults"`
	FaultRun map[string]int    `json:"fault_runs"`
	Probes   map[string]int    `json:"probes"`
	Known    map[string]string `json:"known"`
	Paths    []uint64          `json:"paths"`
	States   []uint64          `json:"states"`
	Hashes   []uint64          `json:"hashes"`
	Trivial  int               `json:"trivial"`
	OpCounts map[string]int    `json:"ops"`
	SiteHits []uint32          `json:"site_hits"`
	LogHash  []string          `json:"log_hash,omitempty"`
	Samples  []string          `json:"samples"`
	FailIx   int               `json:"fail_ix"`
	Fail     *Plan             `json:"fail"`
	Viol     *Violation        `json:"viol"`
	TimedOut bool              `json:"timed_out"`
}

func (m *Main) worker(c *Check, seed int64, from, to, stride int, thorough bool, deadline time.Time, hashes bool) *workerOut {
	w := &workerOut{Faults: map[string]int{}, FaultRun: map[string]int{}, Probes: map[string]int{}, Known: map[string]string{}, OpCounts: map[string]int{}, FailIx: -1}
	paths, states, hs := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	for i := from; i < to; i += stride {
		if time.Now().After(deadline) {
			w.TimedOut = true
			break
		}
		p, sc := m.planFor(c, seed, i, thorough)
		if m.progress != nil {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(i)+1)
			m.progress.WriteAt(b[:], 0)
		}
		r := m.exec(sc, p, false)
		if os.Getenv("VERIF_TRACE_RUNS") != "" {
			fmt.Fprintf(os.Stderr, "run %d steps %d ops %d switches %d %v\n", i, r.Steps, len(p.Ops), r.Switches, r.Viol)
		}
		w.Runs++
		w.Steps += r.Steps
		w.Longest = max(w.Longest, r.Steps)
		w.Peak = max(w.Peak, float64(r.Steps)/float64(sc.budget()))
		w.Switches += r.Switches
		w.SimNS += r.SimNS
		nf := 0
		for k, v := range r.Env.Faults {
			w.Faults[k] += v
			w.FaultRun[k]++
			nf += v
		}
		for k, v := range r.Env.Probes {
			w.Probes[k] += v
		}
		for k, v := range r.Env.Known {
			w.Known[k] = v
		}
		for _, o := range p.Ops {
			w.OpCounts[o.K]++
		}
		paths[r.Path] = struct{}{}
		for h := range r.Env.States {
			if len(states) < 400000 {
				states[h] = struct{}{}
			}
		}
		if len(p.Ops) >= 2 && (nf > 0 || r.Switches > 2) {
			hs[r.Hash] = struct{}{}
		} else {
			w.Trivial++
		}
		if hashes {
			w.LogHash = append(w.LogHash, fmt.Sprintf("%d:%x:%x:%d:%d", i, r.Hash, r.Path, r.Steps, r.SimNS))
		}
		if len(w.Samples) < 2 && len(p.Ops) > 0 && i >= from+20 {
			w.Samples = append(w.Samples, sample(i, p, r))
		}
		if r.Viol != nil {
			p.Recorded, p.Sched = false, nil
			w.FailIx, w.Fail, w.Viol = i, p, r.Viol
			break
		}
	}
	w.Paths, w.States, w.Hashes = keys(paths), keys(states), keys(hs)
	w.SiteHits = siteHits
	return w
}

func sample(i int, p *Plan, r *Result) string {
	var ops []string
	for k, o := range p.Ops {
		if k >= 12 {
			ops = append(ops, fmt.Sprintf("… %d more", len(p.Ops)-k))
			break
		}
		s := o.String()
		if len(s) > 160 {
			s = s[:160] + "…"
		}
		ops = append(ops, s)
	}
	return fmt.Sprintf("run %d scenario %s seed %d: %d ops, %d statements, %d switches, %d ns simulated: %s",
		i, p.Scenario, p.Seed, len(p.Ops), r.Steps, r.Switches, r.SimNS, strings.Join(ops, "; "))
}

func keys(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// minimise shrinks a failing plan while the violation class stays.
func (m *Main) minimise(sc *Scenario, p *Plan, v *Violation, deadline time.Time) (*Plan, *Violation, int) {
	tries := 0
	test := func(q *Plan) *Violation {
		tries++
		r := m.exec(sc, q, false)
		if r.Viol != nil && r.Viol.Class == v.Class {
			return r.Viol
		}
		return nil
	}
	cur := p.clone()
	// pin the schedule
	first := m.exec(sc, cur, false)
	if first.Viol == nil || first.Viol.Class != v.Class {
		return p, v, tries // not reproducible in this process; report as found
	}
	pin := cur.clone()
	pin.Recorded, pin.Sched = true, first.Trace
	if x := test(pin); x != nil {
		cur, v = pin, x
	} else {
		return p, v, tries
	}
	over := func() bool { return time.Now().After(deadline) }
	// no switches at all?
	if q := cur.clone(); len(q.Sched) > 0 {
		q.Sched = nil
		if x := test(q); x != nil {
			cur, v = q, x
		}
	}
	for round := 0; round < 4 && !over(); round++ {
		changed := false
		// drop operations, in blocks
		for sz := (len(cur.Ops) + 1) / 2; sz >= 1 && !over(); sz /= 2 {
			for at := 0; at+sz <= len(cur.Ops) && !over(); {
				q := cur.clone()
				q.Ops = append(append([]Op(nil), q.Ops[:at]...), q.Ops[at+sz:]...)
				if x := test(q); x != nil {
					cur, v, changed = q, x, true
				} else {
					at += sz
				}
			}
		}
		// drop schedule switches, in blocks
		for sz := (len(cur.Sched) + 1) / 2; sz >= 1 && !over(); sz /= 2 {
			for at := 0; at+sz <= len(cur.Sched) && !over(); {
				q := cur.clone()
				q.Sched = append(append([]simrt.Switch(nil), q.Sched[:at]...), q.Sched[at+sz:]...)
				if x := test(q); x != nil {
					cur, v, changed = q, x, true
				} else {
					at += sz
				}
			}
		}
		// drop faults
		for i := 0; i < len(cur.Ops) && !over(); i++ {
			for j := 0; j < len(cur.Ops[i].F); {
				q := cur.clone()
				q.Ops[i].F = append(append([]Fault(nil), q.Ops[i].F[:j]...), q.Ops[i].F[j+1:]...)
				if x := test(q); x != nil {
					cur, v, changed = q, x, true
				} else {
					j++
				}
			}
		}
		// shrink numbers and strings
		for i := 0; i < len(cur.Ops) && !over(); i++ {
			for j := range cur.Ops[i].A {
				for _, nv := range []int64{0, 1, cur.Ops[i].A[j] / 2} {
					if nv == cur.Ops[i].A[j] || abs(nv) >= abs(cur.Ops[i].A[j]) {
						continue
					}
					q := cur.clone()
					q.Ops[i].A[j] = nv
					if x := test(q); x != nil {
						cur, v, changed = q, x, true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return cur, v, tries
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// replayFile is the counterexample format.
type replayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Plan      *Plan      `json:"plan"`
	VerifSeed int64      `json:"verif_seed"`
	RunIndex  int        `json:"run_index"`
	Found     string     `json:"found"`
	Minimised string     `json:"minimised"`
	Log       []string   `json:"log"`
	HowTo     string     `json:"how_to_replay"`
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

// Main runs the command line.
func (m *Main) Main() {
	if len(os.Args) < 2 {
		fatal("usage: check|worker|replay|hashes ...")
	}
	get := func(name, def string) string {
		for i := 2; i+1 < len(os.Args); i++ {
			if os.Args[i] == "-"+name {
				return os.Args[i+1]
			}
		}
		return def
	}
	geti := func(name string, def int) int {
		var v int
		if _, err := fmt.Sscan(get(name, fmt.Sprint(def)), &v); err != nil {
			fatal("bad -%s", name)
		}
		return v
	}
	var c *Check
	for _, x := range m.Checks {
		if x.Prop == get("prop", "") {
			c = x
		}
	}
	switch os.Args[1] {
	case "list":
		for _, x := range m.Checks {
			fmt.Println(x.Prop)
		}
		return
	case "replay":
		m.replay(get("file", ""))
		return
	}
	if c == nil {
		fatal("unknown property %q", get("prop", ""))
	}
	seed := int64(geti("seed", 1))
	thorough := get("tier", "quick") == "thorough"
	runs := c.Quick
	if thorough {
		runs = c.Thorough
	}
	runs = geti("runs", runs)
	limit := geti("limit", 420)
	if thorough {
		limit = geti("limit", 3000)
	}
	switch os.Args[1] {
	case "worker":
		go watchdog()
		debug.SetMaxStack(128 << 20)
		if pf := get("progress", ""); pf != "" {
			m.progress, _ = os.Create(pf)
		}
		w := m.worker(c, seed, geti("from", 0), geti("to", runs), geti("stride", 1), thorough, time.Now().Add(time.Duration(limit)*time.Second), get("hashes", "") != "")
		b, _ := json.Marshal(w)
		if err := os.WriteFile(get("out", "/dev/stdout"), b, 0o644); err != nil {
			fatal("%v", err)
		}
	case "check":
		m.check(c, seed, runs, thorough, limit, geti("workers", 8), get("evidence", ""), get("replays", "/tmp"), get("known", ""))
	case "min":
		// minimise one run index in this process
		p, sc := m.planFor(c, seed, geti("ix", 0), thorough)
		r := m.exec(sc, p, false)
		if r.Viol == nil {
			fmt.Println("run holds")
			return
		}
		b, _ := json.MarshalIndent(m.counterexample(c, sc, p, r.Viol, seed, geti("ix", 0)), "", " ")
		os.WriteFile(get("out", "/dev/stdout"), b, 0o644)
	default:
		fatal("unknown mode %s", os.Args[1])
	}
}

// watchdog ends the process when it makes no progress at all (a loop inside
// uninstrumented code); that is an error of the check, never a violation.
func watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(20 * time.Second)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintln(os.Stderr, "check error: worker uses too much memory")
			os.Exit(4)
		}
	}
}

func (m *Main) counterexample(c *Check, sc *Scenario, p *Plan, v *Violation, seed int64, ix int) *replayFile {
	mp, mv, tries := m.minimise(sc, p, v, time.Now().Add(25*time.Second))
	r := m.exec(sc, mp, true)
	if r.Viol != nil {
		mv = r.Viol
	}
	lg := r.Log
	if len(lg) > 400 {
		lg = append(lg[:200:200], lg[len(lg)-200:]...)
	}
	return &replayFile{
		Property: c.Prop, Violation: mv, Plan: mp, VerifSeed: seed, RunIndex: ix,
		Found:     fmt.Sprintf("%d operations, run %d", len(p.Ops), ix),
		Minimised: fmt.Sprintf("%d operations, %d schedule switches, after %d executions", len(mp.Ops), len(mp.Sched), tries),
		Log:       lg,
		HowTo:     "cd /verif && ./check.sh " + c.Prop + " --replay <this file>",
	}
}

func (m *Main) replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	for _, c := range m.Checks {
		if c.Prop != rf.Property {
			continue
		}
		sc := c.scenario(rf.Plan.Scenario)
		if sc == nil {
			fatal("no scenario %s", rf.Plan.Scenario)
		}
		if rf.Violation.Class == "process died" && os.Getenv("VERIF_INNER") == "" {
			self, _ := os.Executable()
			cmd := exec.Command(self, "replay", "-file", file)
			cmd.Env = append(os.Environ(), "VERIF_INNER=1")
			o, err := cmd.CombinedOutput()
			if why := fatalLine(string(o)); err != nil && why != "" {
				fmt.Println("REPLAY: process died: " + why)
				os.Exit(1)
			}
			fmt.Println("REPLAY: the process did not die")
			return
		}
		debug.SetMaxStack(128 << 20)
		r := m.exec(sc, rf.Plan, true)
		for _, l := range r.Log {
			fmt.Println(l)
		}
		if r.Viol == nil {
			fmt.Println("REPLAY: the property held")
			return
		}
		fmt.Printf("REPLAY: %s: %s\n", r.Viol.Class, r.Viol.Msg)
		if r.Viol.Class == rf.Violation.Class {
			os.Exit(1)
		}
		os.Exit(5)
	}
	fatal("no check for %s", rf.Property)
}

func (m *Main) check(c *Check, seed int64, runs int, thorough bool, limit, workers int, evidence, replays, known string) {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+c.Prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	type proc struct {
		cmd *exec.Cmd
		out string
		err *bytes.Buffer
	}
	var ps []proc
	for w := 0; w < workers; w++ {
		// worker w takes every workers-th run, so that the fixed plans, which
		// come first, are shared out as well
		if w >= runs {
			continue
		}
		out := filepath.Join(tmp, fmt.Sprintf("w%d.json", w))
		var stderr bytes.Buffer
		cmd := exec.Command(self, "worker", "-prop", c.Prop, "-seed", fmt.Sprint(seed), "-tier", tier, "-runs", fmt.Sprint(runs),
			"-from", fmt.Sprint(w), "-to", fmt.Sprint(runs), "-stride", fmt.Sprint(workers), "-limit", fmt.Sprint(limit), "-out", out, "-progress", out+".ix")
		cmd.Stderr = &stderr
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		ps = append(ps, proc{cmd, out, &stderr})
	}
	killer := time.AfterFunc(time.Duration(limit+90)*time.Second, func() {
		for _, p := range ps {
			p.cmd.Process.Kill()
		}
	})
	tot := &workerOut{Faults: map[string]int{}, FaultRun: map[string]int{}, Probes: map[string]int{}, Known: map[string]string{}, OpCounts: map[string]int{}, FailIx: -1}
	paths, states, hs := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	hits := make([]uint32, len(m.Sites))
	bad := ""
	for _, p := range ps {
		if err := p.cmd.Wait(); err != nil {
			if ix, why, ok := m.died(c, seed, thorough, p.out, p.err.String()); ok {
				if tot.FailIx < 0 || ix < tot.FailIx {
					tot.Fail, _ = m.planFor(c, seed, ix, thorough)
					tot.FailIx, tot.Viol = ix, &Violation{"process died", why}
				}
				continue
			}
			os.Stderr.Write(p.err.Bytes())
			bad = fmt.Sprintf("worker: %v", err)
			continue
		}
		b, err := os.ReadFile(p.out)
		if err != nil {
			bad = err.Error()
			continue
		}
		w := &workerOut{}
		if err := json.Unmarshal(b, w); err != nil {
			bad = err.Error()
			continue
		}
		tot.Runs += w.Runs
		tot.Steps += w.Steps
		tot.Longest = max(tot.Longest, w.Longest)
		tot.Peak = max(tot.Peak, w.Peak)
		tot.Switches += w.Switches
		tot.SimNS += w.SimNS
		tot.Trivial += w.Trivial
		tot.TimedOut = tot.TimedOut || w.TimedOut
		for k, v := range w.Faults {
			tot.Faults[k] += v
		}
		for k, v := range w.FaultRun {
			tot.FaultRun[k] += v
		}
		for k, v := range w.Probes {
			tot.Probes[k] += v
		}
		for k, v := range w.OpCounts {
			tot.OpCounts[k] += v
		}
		for k, v := range w.Known {
			tot.Known[k] = v
		}
		for _, h := range w.Paths {
			paths[h] = struct{}{}
		}
		for _, h := range w.States {
			states[h] = struct{}{}
		}
		for _, h := range w.Hashes {
			hs[h] = struct{}{}
		}
		for i, h := range w.SiteHits {
			if i < len(hits) {
				hits[i] += h
			}
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, w.Samples...)
		}
		if w.Viol != nil && (tot.FailIx < 0 || w.FailIx < tot.FailIx) {
			tot.FailIx, tot.Fail, tot.Viol = w.FailIx, w.Fail, w.Viol
		}
	}
	killer.Stop()
	wall := time.Since(start)
	if tot.Viol == nil && bad != "" {
		fatal("%s", bad)
	}
	if tot.Viol == nil && tot.Runs == 0 {
		fatal("no run was executed")
	}
	exit := 0
	if tot.Viol != nil {
		sc := c.scenario(tot.Fail.Scenario)
		var rf *replayFile
		if tot.Viol.Class == "process died" {
			rf = &replayFile{Property: c.Prop, Violation: tot.Viol, Plan: tot.Fail, VerifSeed: seed, RunIndex: tot.FailIx,
				Found: fmt.Sprintf("%d operations, run %d", len(tot.Fail.Ops), tot.FailIx), Minimised: "not minimised: the run ends the process",
				HowTo: "cd /verif && ./check.sh " + c.Prop + " --replay <this file>"}
		} else {
			rf = m.counterexample(c, sc, tot.Fail, tot.Viol, seed, tot.FailIx)
		}
		os.MkdirAll(replays, 0o755)
		path := filepath.Join(replays, fmt.Sprintf("%s-seed%d-run%d.json", c.Prop, seed, tot.FailIx))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal("%v", err)
		}
		// the file must fail the same way in a fresh process
		rc := exec.Command(self, "replay", "-file", path)
		o, rerr := rc.CombinedOutput()
		if rerr == nil || rc.ProcessState.ExitCode() != 1 {
			// fall back to the unminimised run
			tot.Fail.Recorded, tot.Fail.Sched = false, nil
			rf.Plan, rf.Violation, rf.Minimised = tot.Fail, tot.Viol, "not minimised: the minimised plan did not reproduce in a fresh process"
			b, _ = json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			rc = exec.Command(self, "replay", "-file", path)
			o, _ = rc.CombinedOutput()
			if rc.ProcessState.ExitCode() != 1 {
				fmt.Fprintf(os.Stderr, "%s\n", tail(o, 2000))
				fatal("the failing run %d (%s: %s) does not reproduce", tot.FailIx, tot.Viol.Class, tot.Viol.Msg)
			}
		}
		fmt.Printf("%s: %s\n", rf.Violation.Class, rf.Violation.Msg)
		for i, o := range rf.Plan.Ops {
			if i < 40 {
				fmt.Printf("  %s\n", o)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		exit = 1
	}
	// known findings
	listed := readKnown(known, c.Prop)
	for _, k := range listed {
		what, seen := tot.Known[k.id]
		if seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; reproduced: %s)\n", c.Prop, k.text, k.id, what)
		} else if exit == 0 {
			fmt.Printf("note: known finding %s of %s did not show up in this run\n", k.id, c.Prop)
		}
	}
	if evidence != "" {
		nh := 0
		files := map[string][2]int{}
		for i, h := range hits {
			f := m.Sites[i][:strings.IndexByte(m.Sites[i], ':')]
			x := files[f]
			x[1]++
			if h > 0 {
				nh++
				x[0]++
			}
			files[f] = x
		}
		fc := map[string]string{}
		for f, x := range files {
			if x[0] > 0 {
				fc[f] = fmt.Sprintf("%d of %d statements", x[0], x[1])
			}
		}
		neverFired := []string{}
		for _, f := range c.Faults {
			if tot.Faults[f] == 0 {
				neverFired = append(neverFired, f)
			}
		}
		nv := 0
		if tot.Viol != nil {
			nv = 1
		}
		if len(tot.Samples) == 0 {
			p, sc := m.planFor(c, seed, 0, thorough)
			tot.Samples = []string{sample(0, p, m.exec(sc, p, false))}
		}
		hours := wall.Hours()
		cov := map[string]any{
			"evaluations":                tot.Runs,
			"distinct_nontrivial":        len(hs),
			"rule":                       c.Rule + " One evaluation is one simulated run of a plan drawn from (VERIF_SEED, property, run index). A run is non-trivial when it has at least two operations and either a fault fired or control moved between tasks more than twice; runs are distinct by the hash of their event log (every operation, result and fault with its simulated time).",
			"samples":                    tot.Samples,
			"simulated_runs_per_hour":    int64(float64(tot.Runs) / hours),
			"seeds_per_hour":             int64(float64(tot.Runs) / hours),
			"simulated_time_s":           float64(tot.SimNS) / 1e9,
			"statements_executed":        tot.Steps,
			"statements_longest_run":     tot.Longest,
			"step_budget_used_at_most":   tot.Peak,
			"task_switches":              tot.Switches,
			"distinct_interleavings":     len(paths),
			"interleaving_measure":       "hash of the sequence of (statement, task) pairs at which control moved",
			"distinct_states":            len(states),
			"state_measure":              "abstract state recorded by the scenario after each operation",
			"faults_injected":            tot.Faults,
			"runs_with_fault":            tot.FaultRun,
			"fault_kinds_not_fired":      neverFired,
			"probes":                     tot.Probes,
			"operations":                 tot.OpCounts,
			"library_statements_reached": fc,
			"real_components":            c.Real,
			"stub_components":            c.Stub,
			"workers":                    workers,
			"stopped_by_time_limit":      tot.TimedOut,
			"known_findings_seen":        tot.Known,
		}
		ev := map[string]any{
			"property": c.Prop, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": cov, "assumptions": c.Assume, "wall_s": wall.Seconds(), "violations": nv,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if exit == 0 {
		fmt.Printf("%s held: %d runs, %d distinct non-trivial, %d interleavings, %d states, %.1fs\n", c.Prop, tot.Runs, len(hs), len(paths), len(states), wall.Seconds())
	}
	os.RemoveAll(tmp)
	os.Exit(exit)
}

// died finds out whether a worker was ended by the run it was executing (a
// fatal error of the Go runtime, such as unbounded recursion).
func (m *Main) died(c *Check, seed int64, thorough bool, out, stderr string) (ix int, why string, ok bool) {
	b, err := os.ReadFile(out + ".ix")
	if err != nil || len(b) != 8 || fatalLine(stderr) == "" {
		return 0, "", false
	}
	ix = int(binary.BigEndian.Uint64(b)) - 1
	self, _ := os.Executable()
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cmd := exec.Command(self, "worker", "-prop", c.Prop, "-seed", fmt.Sprint(seed), "-tier", tier, "-runs", fmt.Sprint(ix+1),
		"-from", fmt.Sprint(ix), "-to", fmt.Sprint(ix+1), "-limit", "60", "-out", out+".again")
	o, err := cmd.CombinedOutput()
	why = fatalLine(string(o))
	return ix, why, err != nil && why != ""
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "out of memory") {
			return l
		}
	}
	return ""
}

type knownEntry struct{ id, text string }

// readKnown reads "finding: property=<id> id=<kf> <text>" lines.
func readKnown(file, prop string) []knownEntry {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "id=") {
			out = append(out, knownEntry{strings.TrimPrefix(f[2], "id="), strings.Join(f[3:], " ")})
		}
	}
	return out
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}
