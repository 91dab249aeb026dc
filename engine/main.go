package main

// The check driver: loads the harness of one property together with the current tree, explores every Check function, replays
// what it finds against the compiled code, and writes the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type entry struct {
	fn    *ssa.Function
	name  string
	cfg   RunConfig
	doc   string
	share float64
}

type options struct {
	id, tier, verif, repo string
	only                  string
	seed                  int
	noReplay              bool
	verbose               bool
	budget                time.Duration
}

var atExit = func() {}

func main() {
	var o options
	flag.StringVar(&o.id, "id", "", "property")
	flag.StringVar(&o.tier, "tier", "", "quick or thorough")
	flag.StringVar(&o.verif, "verif", "/verif", "")
	flag.StringVar(&o.repo, "repo", "/repo", "")
	flag.StringVar(&o.only, "only", "", "run one entry")
	flag.BoolVar(&o.noReplay, "noreplay", false, "")
	flag.BoolVar(&o.verbose, "v", false, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if f := os.Getenv("VENGINE_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			atExit = pprof.StopCPUProfile
		}
	}
	if o.tier == "" {
		o.tier = os.Getenv("VERIF_TIER")
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	thoroughTier = o.tier == "thorough"
	o.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	o.budget = 240 * time.Second
	if o.tier == "thorough" {
		o.budget = 3600 * time.Second
	}
	if b, err := time.ParseDuration(os.Getenv("VERIF_BUDGET")); err == nil {
		o.budget = b
	}
	code, err := runCheck(&o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vengine:", err)
		os.Exit(2)
	}
	atExit()
	os.Exit(code)
}

func (o *options) pkg() string { return strings.ToLower(o.id) }

// harnessFiles maps virtual paths below the repository to the harness sources.
func (o *options) harnessFiles() (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(o.verif, "harness")
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !info.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(o.repo, "zzverif", rel)] = p
		}
		return nil
	})
	return out, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	return env
}

type program struct {
	base    *Explorer
	pkg     *packages.Package
	entries []*entry
	loadS   float64
	files   map[string]sourceFile // of the repository
}

type sourceFile struct {
	pkg  *packages.Package
	file *ast.File
}

func load(o *options, modfile string) (*program, error) {
	start := time.Now()
	hf, err := o.harnessFiles()
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, p := range hf {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: o.repo, Overlay: ov, Env: goEnv(), BuildFlags: []string{"-modfile=" + modfile}}
	pkgs, err := packages.Load(cfg, "./zzverif/"+o.pkg(), "./zzverif/model")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("the tree does not load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ex := &Explorer{prog: prog, repo: o.repo, redirects: map[string]*ssa.Function{}, types: map[string]types.Type{}}
	want := []string{"fmt.wrapError", "fmt.wrapErrors", "encoding/json.UnmarshalTypeError", "encoding/json.SyntaxError", "encoding/xml.Encoder", "encoding/xml.SyntaxError",
		"encoding/xml.Decoder", "encoding/xml.UnmarshalError", "encoding/xml.StartElement", "encoding/xml.EndElement", "encoding/xml.CharData", "encoding/xml.Comment",
		"encoding/xml.ProcInst", "encoding/xml.Directive", "encoding/xml.Attr", "encoding/xml.Name", "errors.errorString", "time.Time", "reflect.rtype"}
	for _, w := range want {
		i := strings.LastIndexByte(w, '.')
		if p := prog.ImportedPackage(w[:i]); p != nil {
			if t := p.Type(w[i+1:]); t != nil {
				ex.types[w] = t.Type()
			}
		}
	}
	ex.errString = ex.types["errors.errorString"]
	ex.timeType = ex.types["time.Time"]
	if t := ex.types["reflect.rtype"]; t != nil {
		ex.rtypeT = types.NewPointer(t)
	}
	anyT := types.NewInterfaceType(nil, nil)
	ex.tAnyMap = types.NewMap(types.Typ[types.String], anyT)
	ex.tAnySlice = types.NewSlice(anyT)
	if p := prog.ImportedPackage("io"); p != nil {
		ex.ioEOF = p.Var("EOF")
	}
	var hp *ssa.Package
	for i, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/"+o.pkg()) {
			hp = spkgs[i]
		}
		if !strings.HasSuffix(p.PkgPath, "zzverif/model") {
			continue
		}
		for _, d := range funcDocs(p) {
			for _, l := range d.lines {
				if strings.HasPrefix(l, "vp:redirect ") {
					for _, n := range strings.Split(strings.TrimPrefix(l, "vp:redirect "), "|") {
						ex.redirects[strings.TrimSpace(n)] = spkgs[i].Func(d.name)
					}
				}
			}
		}
	}
	pr := &program{base: ex}
	// a root frame for code that no function of the program calls
	ex.rootFn = hp.Func("init")
	ex.rootInfo = &fnInfo{fn: ex.rootFn, name: "root", slots: map[ssa.Value]int{}, synthetic: true}
	for i, p := range pkgs {
		if spkgs[i] != hp {
			continue
		}
		pr.pkg = p
		for _, d := range funcDocs(p) {
			if !strings.HasPrefix(d.name, "Check") || o.only != "" && !strings.HasPrefix(d.name, o.only) {
				continue
			}
			e := &entry{fn: hp.Func(d.name), name: d.name, share: 1}
			e.cfg = RunConfig{Delays: 0, MaxSteps: 600000, MaxThreads: 48, MaxPaths: 200000, Workers: runtime.NumCPU(), SolverMS: 5000, StopAfter: 12, Samples: 3}
			for _, l := range d.lines {
				if strings.HasPrefix(l, "vp:") {
					parseDirective(e, strings.TrimPrefix(l, "vp:"), o.tier)
				} else {
					e.doc += l + " "
				}
			}
			pr.entries = append(pr.entries, e)
		}
	}
	if len(pr.entries) == 0 {
		return nil, fmt.Errorf("no Check function for %s", o.id)
	}
	pr.files = map[string]sourceFile{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, f := range p.Syntax {
			pr.files[p.Fset.Position(f.Package).Filename] = sourceFile{p, f}
		}
	})
	pr.loadS = time.Since(start).Seconds()
	return pr, nil
}

// parseDirective reads "delays=2 thorough:delays=3 paths=1000 ...".
func parseDirective(e *entry, l, tier string) {
	for _, w := range strings.Fields(l) {
		if i := strings.IndexByte(w, ':'); i >= 0 {
			if w[:i] != tier {
				continue
			}
			w = w[i+1:]
		}
		kv := strings.SplitN(w, "=", 2)
		n := 1
		if len(kv) == 2 {
			n, _ = strconv.Atoi(kv[1])
		}
		switch kv[0] {
		case "delays":
			e.cfg.Delays = n
		case "steps":
			e.cfg.MaxSteps = n
		case "threads":
			e.cfg.MaxThreads = n
		case "paths":
			e.cfg.MaxPaths = n
		case "races":
			e.cfg.Races, e.cfg.RaceViolation = true, true
		case "samples":
			e.cfg.Samples = n
		case "solver":
			e.cfg.SolverMS = n
		case "share":
			e.share = float64(n)
		}
	}
}

type result struct {
	entry *entry
	ex    *Explorer
	wall  float64
}

func runCheck(o *options) (int, error) {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vengine-"+o.pkg()+"-")
	if err != nil {
		return 2, err
	}
	defer os.RemoveAll(tmp)
	modfile, err := copyMod(o, tmp)
	if err != nil {
		return 2, err
	}
	pr, err := load(o, modfile)
	if err != nil {
		return 2, err
	}
	// the native build runs beside the exploration
	nat := &native_{o: o, tmp: tmp, modfile: modfile, pr: pr}
	if !o.noReplay {
		nat.buildAsync()
	}
	nw := runtime.NumCPU()
	ms := 5000
	if o.tier == "thorough" {
		ms = 20000
	}
	var workers []*Worker
	for i := 0; i < nw; i++ {
		workers = append(workers, &Worker{id: i, sol: newSolver(ms)})
	}
	defer func() {
		for _, w := range workers {
			w.sol.close()
		}
	}()
	var res []*result
	rep := &reporter{o: o, nat: nat, kn: known(o), reported: map[string]bool{}}
	deadline := start.Add(o.budget)
	var total float64
	for _, e := range pr.entries {
		total += e.share
	}
	for _, e := range pr.entries {
		t0 := time.Now()
		left := time.Until(deadline)
		cfg := e.cfg
		cfg.Deadline = t0.Add(time.Duration(float64(left) * e.share / total))
		total -= e.share
		ex := newExplorer(pr.base, e.fn, cfg)
		name := e.name
		ex.known = func(key string) bool { return rep.finding(name, key) != nil }
		ex.run(workers)
		r := &result{entry: e, ex: ex, wall: time.Since(t0).Seconds()}
		res = append(res, r)
		fmt.Printf("%s %s: %d paths %v in %.1fs, %d assertions, depth %d, steps %d%s\n", o.id, e.name, ex.Paths, ex.Outcomes, r.wall, ex.Asserts, ex.MaxDepth, ex.Steps, exNote(ex))
		var ns []string
		for n := range ex.Notes {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for i, n := range ns {
			if i < 4 || o.verbose {
				fmt.Printf("  note (%d paths): %s\n", ex.Notes[n], n)
			}
		}
		if o.verbose {
			for l, n := range ex.Reach {
				fmt.Printf("  reach %s: %d\n", l, n)
			}
		}
		rep.confirm(r)
		if rep.code != 0 {
			break
		}
	}
	return report(o, pr, nat, res, start, rep)
}

func exNote(ex *Explorer) string {
	s := ""
	if ex.stopWhy != "" {
		s += " (stopped: " + ex.stopWhy + ")"
	}
	if ex.exhaustive() {
		s += " [exhaustive]"
	}
	return s
}

func copyMod(o *options, tmp string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(o.repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(tmp, "go.mod"), nil
}

type finding struct {
	prop, key, text string
}

// known reads the committed list of defects that are recorded rather than repaired.
func known(o *options) []finding {
	b, _ := os.ReadFile(filepath.Join(o.verif, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C12 at="<entry>: <message>" <what fails>
		var f finding
		rest := strings.TrimPrefix(l, "finding: property=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		f.prop = rest[:i]
		rest = strings.TrimSpace(rest[i:])
		if !strings.HasPrefix(rest, "at=\"") {
			continue
		}
		rest = rest[4:]
		j := strings.IndexByte(rest, '"')
		if j < 0 {
			continue
		}
		f.key, f.text = rest[:j], strings.TrimSpace(rest[j+1:])
		out = append(out, f)
	}
	return out
}

// reporter replays candidates on the compiled code and reports those that hold.
type reporter struct {
	o          *options
	nat        *native_
	kn         []finding
	reported   map[string]bool
	unrepro    []string
	violations int
	vioTexts   []string
	code       int
	spent      time.Duration
}

func (p *reporter) finding(entry, key string) *finding {
	for i, f := range p.kn {
		if f.prop == p.o.id && f.key == entry+": "+key {
			return &p.kn[i]
		}
	}
	return nil
}

func (p *reporter) confirm(r *result) {
	o := p.o
	began := time.Now()
	defer func() { p.spent += time.Since(began) }()
	deadline := began.Add(200*time.Second - p.spent)
	// shortest schedules first
	vs := append([]*Violation(nil), r.ex.Viols...)
	sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Delays) < len(vs[j].Delays) })
	done := map[string]bool{}
	tried := map[string]int{}
	for _, v := range vs {
		key := v.Kind + "|" + violMsgKey(v.Msg)
		if done[key] || tried[key] >= 3 {
			continue
		}
		tried[key]++
		at := r.entry.name + ": " + violMsgKey(v.Msg)
		if f := p.finding(r.entry.name, violMsgKey(v.Msg)); f != nil {
			done[key] = true
			if !p.reported[at] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.id, f.text)
				p.reported[at] = true
			}
			continue
		}
		fmt.Printf("candidate %s %s at %s\n  inputs %v\n  delays %v\n", v.Kind, v.Msg, v.Pos, v.Assign, v.Delays)
		if o.verbose {
			for _, s := range v.Stack {
				fmt.Println("   ", s)
			}
			for _, s := range v.Trace {
				fmt.Println("   trace:", s)
			}
		}
		if o.noReplay {
			p.violations++
			continue
		}
		ok, how := p.nat.reproduce(r.entry, v, deadline)
		if !ok {
			p.unrepro = append(p.unrepro, fmt.Sprintf("%s %s (%s)", at, v.Kind, how))
			fmt.Printf("  not reproduced natively: %s\n", how)
			continue
		}
		done[key] = true
		p.report(r.entry, v, how, at)
	}
}

func (p *reporter) report(e *entry, v *Violation, how, at string) {
	o := p.o
	p.violations++
	os.MkdirAll(filepath.Join(o.verif, "evidence", "replay"), 0755)
	path := filepath.Join(o.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", o.id, p.violations))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": o.id, "entry": e.name, "kind": v.Kind, "msg": v.Msg, "assign": v.Assign, "points": v.Delays,
		"stack": v.Stack, "trace": v.Trace, "native": how}, "", " ")
	os.WriteFile(path, b, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", o.id, path)
	fmt.Printf("  %s: %s\n  native: %s\n", v.Kind, v.Msg, firstLine(how))
	p.vioTexts = append(p.vioTexts, at)
	p.code = 1
}

func report(o *options, pr *program, nat *native_, res []*result, start time.Time, rep *reporter) (int, error) {
	deadline := time.Now().Add(200*time.Second - rep.spent)
	// completed paths are run natively too: the encoding must agree with the compiled code
	validated, disagreed := 0, 0
	var samples []interface{}
	var disagreements []string
	for _, r := range res {
		for _, s := range r.ex.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"entry": s.Entry, "inputs": s.Assign, "delays": s.Delays, "reached": s.Reach})
			}
		}
	}
	if !o.noReplay && rep.code == 0 {
		var sure []broken
		validated, disagreed, disagreements, sure = nat.validate(res, deadline)
		for _, f := range sure {
			// the encoding misjudged this path: the compiled code has the last word
			msg := strings.TrimSpace(strings.TrimPrefix(firstLine(f.r.text), "VP-VIOLATION:"))
			at := f.e.name + ": " + violMsgKey(msg)
			if k := rep.finding(f.e.name, violMsgKey(msg)); k != nil || rep.reported[at] {
				continue
			}
			rep.reported[at] = true
			rep.report(f.e, &Violation{Kind: f.r.status, Msg: msg, Assign: f.s.Assign}, f.r.text, at)
		}
	}
	code, violations, unrepro, vioTexts := rep.code, rep.violations, rep.unrepro, rep.vioTexts
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no completed path was sampled", "violations": vioTexts})
	}
	paths, asserts, dec, sched, peak, depth := 0, 0, 0, 0, 0, 0
	var steps int64
	exhaustive := true
	outcomes := map[string]int{}
	reach := map[string]int{}
	var entries []interface{}
	var notes []string
	for _, r := range res {
		ex := r.ex
		paths += ex.Paths
		asserts += ex.Asserts
		dec += ex.Decisions
		sched += ex.SchedDec
		steps += ex.Steps
		if ex.PeakThr > peak {
			peak = ex.PeakThr
		}
		if ex.MaxDepth > depth {
			depth = ex.MaxDepth
		}
		if !ex.exhaustive() {
			exhaustive = false
		}
		for k, n := range ex.Outcomes {
			outcomes[k] += n
		}
		for k, n := range ex.Reach {
			reach[k] += n
		}
		for k := range ex.Notes {
			if len(notes) < 20 {
				notes = append(notes, r.entry.name+": "+k)
			}
		}
		entries = append(entries, map[string]interface{}{"entry": r.entry.name, "what": strings.TrimSpace(r.entry.doc), "paths": ex.Paths, "outcomes": ex.Outcomes,
			"assertions": ex.Asserts, "wall_s": r.wall, "stopped": ex.stopWhy, "all_paths_within_bounds": ex.exhaustive(),
			"bounds": map[string]interface{}{"delays": ex.cfg.Delays, "steps_per_path": ex.cfg.MaxSteps, "threads": ex.cfg.MaxThreads, "paths": ex.cfg.MaxPaths, "solver_ms": ex.cfg.SolverMS}})
	}
	var stubs []string
	stubbed.Range(func(k, v interface{}) bool { stubs = append(stubs, k.(string)); return true })
	sort.Strings(stubs)
	fns := encodedList()
	ev := map[string]interface{}{
		"property": o.id, "tier": o.tier, "seed": o.seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"states": steps, "transitions": dec + sched, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive && code == 0,
			"meaning": "states: symbolic execution steps (SSA instructions executed over all explored paths); transitions: decisions taken (solver-decided branches, explored choices and scheduling delays); traces_validated_against_impl: completed symbolic paths whose solver model was run on the compiled code with the same outcome",
			"paths":   paths, "path_outcomes": outcomes, "assertions_discharged": asserts, "solver_queries": atomic.LoadInt64(&totalQueries),
			"solver_sat": atomic.LoadInt64(&totalSat), "solver_unsat": atomic.LoadInt64(&totalUnsat), "solver_unknown": atomic.LoadInt64(&totalUnknown),
			"solver_seconds": float64(atomic.LoadInt64(&totalSolverNS)) / 1e9, "functions_encoded": fns, "functions_encoded_count": len(fns), "stubbed_functions": stubs,
			"peak_threads": peak, "max_decision_depth": depth, "entries": entries, "reached": reach, "notes": notes, "load_s": pr.loadS,
			"unreproduced_candidates": unrepro, "trace_disagreements": disagreements,
		},
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return 2, err
	}
	if o.only == "" {
		if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.id+".json"), append(b, '\n'), 0644); err != nil {
			return 2, err
		}
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries (%.1fs in the solver), %d traces run natively (%d disagree), %d violations, %.1fs\n", o.id, o.tier, paths, asserts,
		atomic.LoadInt64(&totalQueries), float64(atomic.LoadInt64(&totalSolverNS))/1e9, validated, disagreed, violations, time.Since(start).Seconds())
	for _, d := range disagreements {
		fmt.Println("  disagreement:", d)
	}
	return code, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var assumptions = []string{
	"the network (net/http, gorilla/websocket), package time, the synchronisation primitives and encoding/json, encoding/xml and reflect are models; their use by the repository is executed symbolically, and completed paths are replayed on the compiled code to check the models",
	"schedules: deterministic round-robin with at most the stated number of delays at synchronisation and network operations; time advances only when no goroutine can run",
	"integers within +-2^53, strings of characters XML can carry, lists of at most two elements, instants of the years 1 to 9999 in UTC",
}
