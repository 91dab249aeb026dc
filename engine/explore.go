package main

// Path exploration: a pool of workers re-executes the program along decision prefixes; every path owns one solver scope.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RunConfig struct {
	Delays        int
	MaxSteps      int
	MaxThreads    int
	MaxPaths      int
	Races         bool
	RaceViolation bool
	Workers       int
	SolverMS      int
	Deadline      time.Time
	StopAfter     int // distinct violations
	Samples       int
}

type Explorer struct {
	cfg       RunConfig
	prog      *ssa.Program
	repo      string
	redirects map[string]*ssa.Function
	errString types.Type
	timeType  types.Type
	rtypeT    types.Type
	tAnyMap   types.Type
	tAnySlice types.Type
	ioEOF     *ssa.Global
	types     map[string]types.Type
	rootFn    *ssa.Function
	rootInfo  *fnInfo
	entry     *ssa.Function
	entryName string

	mu      sync.Mutex
	cond    *sync.Cond
	buckets [][]pathJob
	pending int
	active  int
	stop    bool
	stopWhy string
	known   func(key string) bool

	Paths       int
	Outcomes    map[string]int
	Reach       map[string]int
	Viols       []*Violation
	violKeys    map[string]int
	Notes       map[string]int
	Asserts     int
	SymAsserts  int
	Decisions   int
	SchedDec    int
	Uncertain   int
	Concretized int // paths on which a text was fixed to a representative
	MaxDepth    int
	PeakThr     int
	Steps       int64
	Samples     []PathSample
	RaceNotes   int
}

type PathSample struct {
	Entry  string
	Assign map[string]string
	Delays []DelayPoint
	Reach  []string
}

type Worker struct {
	id  int
	sol *Solver
}

// typ looks up "path.Name" among the loaded packages; nil when the package is not part of the program.
func (ex *Explorer) typ(name string) types.Type { return ex.types[name] }

func newExplorer(base *Explorer, entry *ssa.Function, cfg RunConfig) *Explorer {
	ex := &Explorer{prog: base.prog, repo: base.repo, redirects: base.redirects, errString: base.errString, timeType: base.timeType, rtypeT: base.rtypeT, tAnyMap: base.tAnyMap, tAnySlice: base.tAnySlice, ioEOF: base.ioEOF, types: base.types, rootFn: base.rootFn, rootInfo: base.rootInfo}
	ex.cfg = cfg
	ex.entry = entry
	ex.entryName = entry.Name()
	ex.mu = sync.Mutex{}
	ex.cond = sync.NewCond(&ex.mu)
	ex.Outcomes = map[string]int{}
	ex.Reach = map[string]int{}
	ex.Notes = map[string]int{}
	ex.violKeys = map[string]int{}
	return ex
}

func (ex *Explorer) push(m *Machine, prefix []int, delays int) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for len(ex.buckets) <= delays {
		ex.buckets = append(ex.buckets, nil)
	}
	ex.buckets[delays] = append(ex.buckets[delays], pathJob{prefix: prefix, delays: delays})
	ex.pending++
	ex.cond.Signal()
}

func (ex *Explorer) next() (pathJob, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return pathJob{}, false
		}
		if !ex.cfg.Deadline.IsZero() && time.Now().After(ex.cfg.Deadline) {
			ex.stop, ex.stopWhy = true, "time"
			ex.cond.Broadcast()
			return pathJob{}, false
		}
		if ex.cfg.MaxPaths > 0 && ex.Paths >= ex.cfg.MaxPaths {
			ex.stop, ex.stopWhy = true, "paths"
			ex.cond.Broadcast()
			return pathJob{}, false
		}
		for i := range ex.buckets {
			if n := len(ex.buckets[i]); n > 0 {
				j := ex.buckets[i][n-1]
				ex.buckets[i] = ex.buckets[i][:n-1]
				ex.pending--
				ex.active++
				return j, true
			}
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return pathJob{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) run(workers []*Worker) {
	ex.buckets = [][]pathJob{{{}}}
	ex.pending = 1
	var wg sync.WaitGroup
	for _, w := range workers {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j, ok := ex.next()
				if !ok {
					return
				}
				m := ex.runPath(w, j)
				ex.record(m)
				ex.mu.Lock()
				ex.active--
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func (ex *Explorer) exhaustive() bool {
	return ex.stopWhy == "" && ex.Outcomes["unsupported"] == 0 && ex.Outcomes["limit"] == 0 && ex.Outcomes["inconclusive"] == 0 && ex.Uncertain == 0 && ex.Concretized == 0
}

func newMachine(ex *Explorer, w *Worker, j pathJob) *Machine {
	return &Machine{ex: ex, facts: map[Op][]fact{}, w: w, sol: w.sol, abort: make(chan struct{}), finished: make(chan struct{}), prefix: j.prefix,
		inputIdx: map[string]*input{}, now: mkInt(0), reach: map[string]bool{}, visits: map[visitKey]int{},
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]int{}, side: map[interface{}]interface{}{},
		mutexes: map[*Cell]*mutexState{}, wgs: map[*Cell]*wgState{}, bindings: map[string]*Term{}, natives: map[string]interface{}{},
		curPanic: map[*Thread]*targetPanic{}}
}

func (ex *Explorer) runPath(w *Worker, j pathJob) *Machine {
	m := newMachine(ex, w, j)
	w.sol.begin()
	main := m.newThread("main", nil)
	main.isMain = true
	m.cur = main
	m.startThread(main, func() {
		root := &Frame{m: m, th: main, fn: ex.rootFn, info: ex.rootInfo}
		main.fr = root
		m.initPkg(root, ex.entry.Pkg)
		m.call(root, ex.entry, nil, nil)
	})
	main.resume <- struct{}{}
	<-m.finished
	m.wg.Wait()
	if m.outcome == "ok" && len(m.taken) >= 0 && ex.wantSample() {
		if r, a := m.assignment(nil); r == Sat {
			ex.addSample(PathSample{Entry: ex.entryName, Assign: a, Delays: m.delayLog, Reach: keys(m.reach)})
		}
	}
	w.sol.end()
	if w.sol.broken {
		if m.outcome == "ok" || m.outcome == "assume" {
			m.outcome = "inconclusive"
			m.note = "solver failure"
		}
	}
	return m
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func (ex *Explorer) wantSample() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.Samples) < ex.cfg.Samples {
		// spread over the exploration: the 1st, then paths 8, 64, 512, ...
		n := 1
		for i := 0; i < len(ex.Samples); i++ {
			n *= 6
		}
		return ex.Outcomes["ok"]+1 >= n
	}
	return false
}

func (ex *Explorer) addSample(s PathSample) {
	ex.mu.Lock()
	if len(ex.Samples) < ex.cfg.Samples {
		ex.Samples = append(ex.Samples, s)
	}
	ex.mu.Unlock()
}

var debugPaths = os.Getenv("VENGINE_DEBUG") != ""

func (ex *Explorer) record(m *Machine) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Paths++
	ex.Outcomes[m.outcome]++
	ex.Asserts += m.asserts
	ex.Decisions += len(m.taken) - len(m.prefix)
	ex.SchedDec += m.schedVars
	ex.Steps += int64(m.steps)
	ex.RaceNotes += m.races
	if len(m.taken) > ex.MaxDepth {
		ex.MaxDepth = len(m.taken)
	}
	if m.peakThr > ex.PeakThr {
		ex.PeakThr = m.peakThr
	}
	if m.uncertain {
		ex.Uncertain++
	}
	if m.concretized != "" {
		ex.Concretized++
		if m.outcome == "ok" {
			ex.Notes["followed on representatives: "+m.concretized]++
		}
	}
	if debugPaths {
		fmt.Fprintf(os.Stderr, "path %d %s %s taken=%v reach=%v steps=%d\n", ex.Paths, m.outcome, m.note, m.taken, keys(m.reach), m.steps)
	}
	for l := range m.reach {
		ex.Reach[l]++
	}
	if m.outcome != "ok" && m.outcome != "assume" && m.outcome != "violation" {
		n := m.note
		if len(n) > 900 {
			n = n[:900]
		}
		ex.Notes[m.outcome+": "+n]++
	}
	if m.viol != nil {
		k := m.viol.Kind + "|" + violMsgKey(m.viol.Msg)
		ex.violKeys[k]++
		if ex.violKeys[k] <= 4 {
			ex.Viols = append(ex.Viols, m.viol)
		}
		if ex.violKeys[k] == 1 && !ex.known(violMsgKey(m.viol.Msg)) {
			// what is found is replayed soon, rather than when everything is explored
			if d := time.Now().Add(20 * time.Second); d.Before(ex.cfg.Deadline) {
				ex.cfg.Deadline = d
			}
		}
		if ex.cfg.StopAfter > 0 && len(ex.violKeys) >= ex.cfg.StopAfter && ex.violKeys[k] >= 4 {
			ex.stop, ex.stopWhy = true, "violations"
			ex.cond.Broadcast()
		}
	}
}

func violMsgKey(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, " in "); i > 0 && strings.HasPrefix(s, "panic") {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}
