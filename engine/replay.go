package main

// Replay of solver assignments and schedules against the compiled repository.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

type fdoc struct {
	name  string
	lines []string
}

func funcDocs(p *packages.Package) []fdoc {
	var out []fdoc
	files := append([]*ast.File(nil), p.Syntax...)
	sort.SliceStable(files, func(i, j int) bool {
		return p.Fset.Position(files[i].Pos()).Filename < p.Fset.Position(files[j].Pos()).Filename
	})
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			x := fdoc{name: fd.Name.Name}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					x.lines = append(x.lines, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
				}
			}
			out = append(out, x)
		}
	}
	return out
}

type native_ struct {
	o       *options
	tmp     string
	modfile string
	pr      *program
	mu      sync.Mutex
	bins    map[string]string
	errs    map[string]error
	n       int
	bg      chan struct{}
}

func (n *native_) buildAsync() {
	n.bins, n.errs = map[string]string{}, map[string]error{}
	n.bg = make(chan struct{})
	go func() {
		defer close(n.bg)
		race := false
		for _, e := range n.pr.entries {
			race = race || e.cfg.Races
		}
		n.binary(nil, race, false)
	}()
}

// binary builds the native harness with delay points at the given places.
func (n *native_) binary(points []DelayPoint, race, random bool) (string, error) {
	var ks []string
	for _, p := range points {
		ks = append(ks, p.Pos+"/"+p.Kind)
	}
	sort.Strings(ks)
	key := fmt.Sprint(ks, race, random)
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	b, err := n.build(points, race, random)
	n.bins[key], n.errs[key] = b, err
	return b, err
}

func (n *native_) build(points []DelayPoint, race, random bool) (string, error) {
	o := n.o
	n.n++
	dir := filepath.Join(n.tmp, fmt.Sprintf("b%d", n.n))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	replace := map[string]string{}
	hf, err := o.harnessFiles()
	if err != nil {
		return "", err
	}
	put := func(virtual string, content []byte) error {
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", len(replace)))
		replace[virtual] = p
		return os.WriteFile(p, content, 0644)
	}
	byFile := map[string][]DelayPoint{}
	for _, p := range points {
		if i := strings.LastIndexByte(p.Pos, ':'); i > 0 {
			byFile[p.Pos[:i]] = append(byFile[p.Pos[:i]], p)
		}
	}
	for v, p := range hf {
		rel, _ := filepath.Rel(o.repo, v)
		if strings.HasPrefix(rel, "zzverif/model/") {
			continue
		}
		if strings.HasPrefix(rel, "zzverif/"+o.pkg()+"/") && len(byFile[rel]) > 0 {
			b, err := os.ReadFile(p)
			if err != nil {
				return "", err
			}
			nb, err := rewrite(rel, b, byFile[rel], nil, nil, false)
			if err != nil {
				return "", err
			}
			if err := put(v, nb); err != nil {
				return "", err
			}
			continue
		}
		replace[v] = p
	}
	err = filepath.Walk(o.repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if info.Name() == ".git" || info.Name() == "example" || info.Name() == "zzverif" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(o.repo, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rnd := random && !strings.HasPrefix(rel, "messages/")
		var clock []edit
		var keep []string
		if sf, ok := n.pr.files[p]; ok {
			clock, keep = clockEdits(sf.pkg, sf.file)
		}
		nb, err := rewrite(rel, b, byFile[rel], clock, keep, rnd)
		if err != nil {
			return err
		}
		if !bytes.Equal(nb, b) {
			return put(p, nb)
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	var m strings.Builder
	m.WriteString("package main\n\nimport (\n\th \"" + verifPrefix + o.pkg() + "\"\n\t\"" + verifPrefix + "vp\"\n)\n\nfunc main() {\n\tvp.Main(map[string]func(){\n")
	for _, e := range n.pr.entries {
		fmt.Fprintf(&m, "\t\t%q: h.%s,\n", e.name, e.name)
	}
	m.WriteString("\t})\n}\n")
	if err := put(filepath.Join(o.repo, "zzverif/zzmain/main.go"), []byte(m.String())); err != nil {
		return "", err
	}
	// before anything of the repository is initialised
	scale := "package vp\n\nimport (\n\t\"os\"\n\t\"strconv\"\n\t\"time\"\n)\n\nvar _ = func() int {\n\tif s, _ := strconv.Atoi(os.Getenv(\"VP_SCALE\")); s > 0 {\n\t\tscale = time.Duration(s)\n\t}\n\treturn 0\n}()\n"
	if err := put(filepath.Join(o.repo, "zzverif/vp/zzscale.go"), []byte(scale)); err != nil {
		return "", err
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ob, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-modfile=" + n.modfile, "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/zzmain")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = o.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, tail(string(out), 800))
	}
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type edit struct {
	off  int
	del  int
	text string
}

// what the replay puts on the scaled clock
var scaledFuncs = map[string]string{
	"time.After": "TimeAfter", "time.Sleep": "TimeSleep", "time.NewTimer": "TimeNewTimer", "time.NewTicker": "TimeNewTicker", "time.Tick": "TimeTick",
	"time.AfterFunc": "TimeAfterFunc", "time.Now": "TimeNow", "time.Since": "TimeSince", "time.Until": "TimeUntil",
	"context.WithTimeout": "ContextWithTimeout", "context.WithDeadline": "ContextWithDeadline", "net.DialTimeout": "NetDialTimeout",
	"math/rand.Intn": "RandIntn", "math/rand.Int63n": "RandInt63n", "math/rand.Int31n": "RandInt31n", "math/rand.Int": "RandInt",
	"math/rand.Int63": "RandInt63", "math/rand.Int31": "RandInt31",
}

// clockEdits finds the uses of clocks in a file of the repository: edits and the declarations that keep its imports used.
func clockEdits(p *packages.Package, f *ast.File) ([]edit, []string) {
	off := func(p0 token.Pos) int { return p.Fset.Position(p0).Offset }
	var edits []edit
	var keep []string
	named := func(t types.Type) string {
		if t == nil {
			return ""
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return ""
	}
	foreign := func(t string) bool {
		return t != "" && !strings.HasPrefix(t, strings.TrimSuffix(verifPrefix, "zzverif/"))
	}
	wrap := func(e ast.Expr, before, after string) {
		edits = append(edits, edit{off(e.Pos()), 0, before}, edit{off(e.End()), 0, after})
	}
	duration := func(e ast.Expr) {
		if named(p.TypesInfo.TypeOf(e)) == "time.Duration" || p.TypesInfo.Types[e].Value != nil {
			wrap(e, "((", ")/zzvp.Scale())")
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch e := x.(type) {
		case *ast.SelectorExpr:
			fn, ok := p.TypesInfo.Uses[e.Sel].(*types.Func)
			if !ok || fn.Pkg() == nil || fn.Type().(*types.Signature).Recv() != nil {
				return true
			}
			if to := scaledFuncs[fn.Pkg().Path()+"."+fn.Name()]; to != "" {
				if id, ok := e.X.(*ast.Ident); ok {
					edits = append(edits, edit{off(e.Pos()), off(e.End()) - off(e.Pos()), "zzvp." + to})
					keep = append(keep, id.Name+"."+e.Sel.Name)
				}
			}
		case *ast.CallExpr:
			sel, ok := e.Fun.(*ast.SelectorExpr)
			if !ok || len(e.Args) != 1 {
				return true
			}
			fn, ok := p.TypesInfo.Uses[sel.Sel].(*types.Func)
			if !ok || fn.Type().(*types.Signature).Recv() == nil {
				return true
			}
			recv := named(fn.Type().(*types.Signature).Recv().Type())
			switch {
			case fn.Name() == "Reset" && (recv == "time.Timer" || recv == "time.Ticker"):
				wrap(e.Args[0], "((", ")/zzvp.Scale())")
			case strings.HasPrefix(fn.Name(), "Set") && strings.HasSuffix(fn.Name(), "Deadline") && foreign(recv) && named(p.TypesInfo.TypeOf(e.Args[0])) == "time.Time":
				wrap(e.Args[0], "zzvp.RealTime(", ")")
			}
		case *ast.CompositeLit:
			if !foreign(named(p.TypesInfo.TypeOf(e))) {
				return true
			}
			for _, el := range e.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if k, ok := kv.Key.(*ast.Ident); ok {
						if v, ok := p.TypesInfo.Uses[k].(*types.Var); ok && named(v.Type()) == "time.Duration" {
							duration(kv.Value)
						}
					}
				}
			}
		case *ast.AssignStmt:
			for i, l := range e.Lhs {
				sel, ok := l.(*ast.SelectorExpr)
				if ok && len(e.Lhs) == len(e.Rhs) && named(p.TypesInfo.TypeOf(l)) == "time.Duration" && foreign(named(p.TypesInfo.TypeOf(sel.X))) {
					duration(e.Rhs[i])
				}
			}
		}
		return true
	})
	return edits, keep
}

// rewrite inserts delay points and puts the repository on the scaled clock. Line numbers stay.
func rewrite(rel string, src []byte, points []DelayPoint, clock []edit, keep []string, random bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	useVP := false
	edits = append(edits, clock...)
	useVP = len(edits) > 0
	// statements that can carry a point
	type stmt struct {
		s    ast.Stmt
		body *ast.BlockStmt // function it belongs to
	}
	var stmts []stmt
	var bodies []*ast.BlockStmt
	var lists func(n ast.Node)
	lists = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			var l []ast.Stmt
			switch b := x.(type) {
			case *ast.BlockStmt:
				l = b.List
			case *ast.CaseClause:
				l = b.Body
			case *ast.CommClause:
				l = b.Body
			case *ast.FuncDecl:
				if b.Body != nil {
					bodies = append(bodies, b.Body)
				}
			case *ast.FuncLit:
				bodies = append(bodies, b.Body)
			}
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				stmts = append(stmts, stmt{s: s})
			}
			return true
		})
	}
	lists(f)
	line := func(p token.Pos) int { return fset.Position(p).Line }
	for _, p := range points {
		i := strings.LastIndexByte(p.Pos, ':')
		ln, _ := strconv.Atoi(p.Pos[i+1:])
		var best ast.Stmt
		for _, s := range stmts {
			if line(s.s.Pos()) <= ln && ln <= line(s.s.End()) {
				if best == nil || s.s.End()-s.s.Pos() <= best.End()-best.Pos() {
					best = s.s
				}
			}
		}
		// the end of a function: its deferred calls
		var end *ast.BlockStmt
		for _, b := range bodies {
			if line(b.End()) == ln && len(b.List) > 0 && line(b.Pos()) != ln {
				end = b
			}
		}
		call := fmt.Sprintf("zzvp.Point(%q)", p.Pos)
		switch {
		case end != nil:
			edits = append(edits, edit{off(end.Lbrace) + 1, 0, "defer " + call + ";"})
			useVP = true
		case best != nil:
			switch p.Kind {
			case "unlock", "runlock":
				if _, ok := best.(*ast.ExprStmt); ok {
					edits = append(edits, edit{off(best.End()), 0, ";" + call})
					useVP = true
					continue
				}
			}
			edits = append(edits, edit{off(best.Pos()), 0, call + ";"})
			useVP = true
		}
	}
	if random {
		for _, s := range stmts {
			switch s.s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt:
				continue
			}
			edits = append(edits, edit{off(s.s.Pos()), 0, fmt.Sprintf("zzvp.Point(%q);", fmt.Sprintf("%s:%d", rel, line(s.s.Pos())))})
			useVP = true
		}
	}
	if !useVP {
		return src, nil
	}
	edits = append(edits, edit{off(f.Name.End()), 0, `; import zzvp "` + verifPrefix + `vp"`})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].del == 0 && edits[j].del > 0
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(src[pos:])
	for _, k := range keep {
		out.WriteString("\nvar _ = " + k + "\n")
	}
	return out.Bytes(), nil
}

type runOut struct {
	status string // ok, assume, violation, panic, handler-panic, race, hang, error
	text   string
}

// scaleOf is how much faster than the real one the clock of a replay runs: 10 times, more for paths that take long.
func scaleOf(assign map[string]string) int64 {
	ns, _ := strconv.ParseInt(assign[elapsedKey], 10, 64)
	if s := ns / int64(20*time.Second); s > 10 {
		return s
	}
	return 10
}

func (n *native_) run(bin string, entry string, assign map[string]string, points []DelayPoint, random int64, limit time.Duration) runOut {
	return n.runAt(scaleOf(assign), bin, entry, assign, points, random, limit)
}

func (n *native_) runAt(scale int64, bin string, entry string, assign map[string]string, points []DelayPoint, random int64, limit time.Duration) runOut {
	n.mu.Lock()
	n.n++
	in := filepath.Join(n.tmp, fmt.Sprintf("in%d.json", n.n))
	n.mu.Unlock()
	type pt struct {
		Pos   string `json:"pos"`
		Visit int    `json:"visit"`
	}
	var ps []pt
	for _, p := range points {
		ps = append(ps, pt{p.Pos, p.Visit})
	}
	b, _ := json.Marshal(map[string]interface{}{"entry": entry, "assign": assign, "points": ps, "random": random})
	os.WriteFile(in, b, 0644)
	defer os.Remove(in)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = append(os.Environ(), "VP_INPUT="+in, "VP_SCALE="+strconv.FormatInt(scale, 10), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	cmd.Dir = n.tmp
	var buf bytes.Buffer
	cmd.Stderr = &buf
	cmd.Stdout = &buf
	err := cmd.Run()
	s := buf.String()
	code := cmd.ProcessState.ExitCode()
	if os.Getenv("VENGINE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "--- native %s, exit code %d ---\n%s---\n", entry, code, s)
	}
	has := func(x string) bool { return strings.Contains(s, x) }
	switch {
	case has("VP-VIOLATION:"):
		return runOut{"assert", s[strings.Index(s, "VP-VIOLATION:"):]}
	case has("WARNING: DATA RACE"):
		return runOut{"race", s[strings.Index(s, "WARNING: DATA RACE"):]}
	case has("http: panic serving"):
		return runOut{"handler-panic", s[strings.Index(s, "http: panic serving"):]}
	case code == 2 && (has("panic: ") || has("fatal error: ")):
		if has("all goroutines are asleep") {
			return runOut{"hang", tail(s, 600)}
		}
		i := strings.Index(s, "panic: ")
		if i < 0 {
			i = strings.Index(s, "fatal error: ")
		}
		return runOut{"panic", s[i:]}
	case ctx.Err() != nil:
		return runOut{"hang", "no end within " + limit.String()}
	case has("VP-ASSUME"):
		return runOut{"assume", ""}
	case err == nil && has("VP-OK"):
		return runOut{"ok", ""}
	}
	return runOut{"error", fmt.Sprintf("exit %d: %s", code, tail(s, 600))}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// reproduce replays a violation on the compiled code.
func (n *native_) reproduce(e *entry, v *Violation, deadline time.Time) (bool, string) {
	<-n.bg
	limit := 90 * time.Second
	good := func(r runOut) bool {
		switch r.status {
		case "assert", "panic", "handler-panic":
			return true
		case "race":
			return e.cfg.Races
		case "hang":
			return v.Kind == "hang"
		}
		return false
	}
	bin, err := n.binary(v.Delays, e.cfg.Races, false)
	if err != nil {
		return false, err.Error()
	}
	last := ""
	try := func(bin string, k int, random bool) (bool, string) {
		type res struct {
			ok bool
			s  string
		}
		ch := make(chan res, k)
		for i := 0; i < k; i++ {
			var seed int64
			if random {
				seed = int64(i + 1 + n.o.seed*1000)
			}
			go func() {
				r := n.run(bin, e.name, v.Assign, v.Delays, seed, limit)
				// runs that are held up at random may be slow: only the same violation counts
				ok := good(r) && (!random || r.status != "assert" || v.Kind == "assert" && strings.Contains(r.text, v.Msg))
				ch <- res{ok, r.status + ": " + clip(r.text)}
			}()
		}
		for i := 0; i < k; i++ {
			r := <-ch
			last = r.s
			if r.ok {
				return true, r.s
			}
		}
		return false, last
	}
	k := 1
	if len(v.Delays) > 0 || v.Kind == "race" || v.Kind == "hang" {
		k = 3
	}
	if ok, s := try(bin, k, false); ok {
		return true, s
	}
	first := last
	if time.Now().After(deadline) {
		return false, first
	}
	if rb, err := n.binary(v.Delays, e.cfg.Races, true); err == nil {
		for round := 0; round < 3 && time.Now().Before(deadline); round++ {
			if ok, s := try(rb, 8, true); ok {
				return true, s
			}
		}
	}
	return false, first
}

// validate runs sampled completed paths natively: they must end without a violation as well.
// broken is an explored path that fails on the compiled code every time, although the encoding completed it.
type broken struct {
	e *entry
	s PathSample
	r runOut
}

func (r runOut) fails() bool {
	return r.status == "assert" || r.status == "panic" || r.status == "handler-panic"
}

func (n *native_) validate(res []*result, deadline time.Time) (int, int, []string, []broken) {
	<-n.bg
	type job struct {
		e *entry
		s PathSample
	}
	var jobs []job
	for _, r := range res {
		for _, s := range r.ex.Samples {
			if len(s.Delays) == 0 {
				jobs = append(jobs, job{r.entry, s})
			}
		}
	}
	// at most 24 runs, spread over the entries
	if len(jobs) > 24 {
		var sel []job
		for i := 0; i < 24; i++ {
			sel = append(sel, jobs[i*len(jobs)/24])
		}
		jobs = sel
	}
	var mu sync.Mutex
	ok, bad := 0, 0
	var dis []string
	var failed []broken
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if time.Now().After(deadline) {
				return
			}
			bin, err := n.binary(nil, false || j.e.cfg.Races, false)
			if err != nil {
				mu.Lock()
				dis = append(dis, err.Error())
				bad++
				mu.Unlock()
				return
			}
			var r runOut
			for i := 0; i < 2; i++ {
				r = n.run(bin, j.e.name, j.s.Assign, nil, 0, 40*time.Second)
				if r.status == "ok" {
					break
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if r.status == "ok" {
				ok++
			} else {
				bad++
				if r.fails() {
					failed = append(failed, broken{j.e, j.s, r})
				}
				dis = append(dis, fmt.Sprintf("%s %v: %s %s", j.e.name, j.s.Assign, r.status, tail(firstLines(r.text, 6), 500)))
			}
		}()
	}
	wg.Wait()
	// one that fails again, alone and on ever slower clocks, fails for good
	var sure []broken
	for _, f := range failed {
		if len(sure) == 3 || time.Now().After(deadline) {
			break
		}
		bin, err := n.binary(nil, f.e.cfg.Races, false)
		again := err == nil
		for i := int64(1); again && i <= 3; i++ {
			scale := scaleOf(f.s.Assign) / (i + 1)
			if scale < 1 {
				scale = 1
			}
			r := n.runAt(scale, bin, f.e.name, f.s.Assign, nil, 0, 60*time.Second)
			again = r.fails()
			if again {
				f.r = r
			}
		}
		if again {
			sure = append(sure, f)
		}
	}
	if len(dis) > 8 {
		dis = dis[:8]
	}
	return ok, bad, dis, sure
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}
