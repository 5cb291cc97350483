package main

// Command line driver.
//
//	engine check <ID>            decide one property (tier from VERIF_TIER)
//	engine run <ID> <harness>    explore one harness and print the raw result
//	engine replay <file>         replay a recorded input natively

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessSpec struct {
	Fn       string         `json:"fn"`
	Pkg      string         `json:"pkg"`             // directory under /repo ("." for the main package)
	Params   map[string]int `json:"params"`          // quick
	Thorough map[string]int `json:"thorough"`        // overrides in the thorough tier
	Budget   int            `json:"budget"`          // seconds, quick
	BudgetT  int            `json:"budget_thorough"` // seconds, thorough
	Reach    []string       `json:"reach"`           // labels that must be reached (vacuity guard)
	Bounds   string         `json:"bounds"`
	MaxSteps int64          `json:"maxsteps"`
	Only     string         `json:"only"` // "thorough": not run in the quick tier
}

type PropSpec struct {
	Files       map[string][]string `json:"files"` // package dir -> harness files (besides rt)
	Harnesses   []HarnessSpec       `json:"harnesses"`
	Stubs       []StubSpec          `json:"stubs"`
	Assumptions []string            `json:"assumptions"`
	Outside     []string            `json:"outside"`
}

type Replay struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Pkg      string         `json:"pkg"`
	Params   map[string]int `json:"params"`
	Inputs   []ReplayVal    `json:"inputs"`
	Obs      []ReplayVal    `json:"obs,omitempty"`
	Label    string         `json:"label,omitempty"`
	Kind     string         `json:"kind,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Repeat   int            `json:"repeat,omitempty"`
	Free     bool           `json:"free,omitempty"` // Inputs are those of the part of the path that could be encoded
}

type ReplayResult struct {
	Outcome string      `json:"outcome"` // ok, assert, panic, fatal, assume, mismatch, hang
	Label   string      `json:"label"`
	Msg     string      `json:"msg"`
	Obs     []ReplayVal `json:"obs"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if len(os.Args) < 3 {
		die("usage: engine check|run|replay ...")
	}
	reg := map[string]*PropSpec{}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness/registry.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &reg); err != nil {
		die("registry: %v", err)
	}
	switch os.Args[1] {
	case "check":
		id := os.Args[2]
		if reg[id] == nil {
			die("unknown property %s", id)
		}
		os.Exit(check(id, reg[id], ""))
	case "run":
		id := os.Args[2]
		if reg[id] == nil {
			die("unknown property %s", id)
		}
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Setenv("VERIF_VERBOSE", "1")
		os.Exit(check(id, reg[id], only))
	case "replay":
		var r Replay
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &r); err != nil {
			die("%v", err)
		}
		if reg[r.Property] == nil {
			die("unknown property %s", r.Property)
		}
		nt := newNative(r.Property, reg[r.Property])
		defer nt.close()
		res, err := nt.run(r.Pkg, []Replay{r})
		if err != nil {
			die("%v", err)
		}
		o, _ := json.MarshalIndent(res[0], "", " ")
		fmt.Println(string(o))
		if res[0].Outcome != "ok" && res[0].Outcome != "assume" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, os.Args[2])
			os.Exit(1)
		}
	default:
		die("unknown command")
	}
}

// ---- overlays ----

func pkgName(dir string) string {
	if dir == "." || dir == "" {
		return "main"
	}
	return filepath.Base(dir)
}

// harnessFiles returns target path -> contents of the harness files injected in package dir.
func harnessFiles(spec *PropSpec, dir string, native bool) map[string][]byte {
	out := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(verifDir, "harness/rt/rt.go.txt"))
	if err != nil {
		die("%v", err)
	}
	base := filepath.Join(repoDir, dir)
	sub := func(b []byte) []byte {
		return bytes.Replace(b, []byte("package PKG"), []byte("package "+pkgName(dir)), 1)
	}
	out[filepath.Join(base, "zz_verif_rt.go")] = sub(rt)
	hd := dir
	if dir == "." {
		hd = "main"
	}
	var reg []string
	seen := map[string]bool{}
	for _, f := range spec.Files[dir] {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", hd, f+".go"))
		if err != nil {
			die("%v", err)
		}
		out[filepath.Join(base, "zz_verif_"+f+".go")] = b
	}
	for _, h := range spec.Harnesses {
		if h.Pkg == dir && !seen[h.Fn] {
			seen[h.Fn] = true
			reg = append(reg, fmt.Sprintf("\t%q: %s,\n", h.Fn, h.Fn))
		}
	}
	sort.Strings(reg)
	if native {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness/rt/replay_test.go.txt"))
		if err != nil {
			die("%v", err)
		}
		out[filepath.Join(base, "zz_verif_replay_test.go")] = sub(b)
		out[filepath.Join(base, "zz_verif_registry_test.go")] = []byte("package " + pkgName(dir) + "\n\nvar vEntries = map[string]func(){\n" + strings.Join(reg, "") + "}\n")
	}
	return out
}

// ---- native replay ----

type native struct {
	race bool
	id   string
	spec *PropSpec
	dir  string
	bins map[string]chan error
}

func newNative(id string, spec *PropSpec) *native {
	d, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		die("%v", err)
	}
	n := &native{id: id, spec: spec, dir: d, bins: map[string]chan error{}}
	return n
}

func (n *native) close() { os.RemoveAll(n.dir) }

func (n *native) binPath(pkg string) string {
	return filepath.Join(n.dir, pkgName(pkg)+".test")
}

// start compiles the replay binary of pkg in the background.
func (n *native) start(pkg string) {
	if n.bins[pkg] != nil {
		return
	}
	ch := make(chan error, 1)
	n.bins[pkg] = ch
	go func() {
		ov := map[string]string{}
		all := harnessFiles(n.spec, pkg, true)
		for q := range n.spec.Files {
			if q == pkg {
				continue
			}
			for p, b := range harnessFiles(n.spec, q, false) {
				all[p] = b
			}
		}
		for p, b := range all {
			if filepath.Dir(p) == filepath.Join(repoDir, pkg) && filepath.Base(p) != "zz_verif_rt.go" && !strings.HasSuffix(p, "_test.go") {
				if x := shimSource(p, b); x != nil {
					b = x
				}
			}
			f := filepath.Join(n.dir, fmt.Sprintf("%s_%d_%s", pkgName(pkg), len(ov), filepath.Base(p)))
			if err := os.WriteFile(f, b, 0o644); err != nil {
				ch <- err
				return
			}
			ov[p] = f
		}
		st, err := stubFiles(n.spec)
		if err != nil {
			ch <- err
			return
		}
		for p, b := range shimFiles(pkg, st) {
			st[p] = b
		}
		for p, b := range st {
			f := filepath.Join(n.dir, fmt.Sprintf("%s_stub%d_%s", pkgName(pkg), len(ov), filepath.Base(p)))
			if err := os.WriteFile(f, b, 0o644); err != nil {
				ch <- err
				return
			}
			ov[p] = f
		}
		// the package's own tests are left out of the replay binary
		ms, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
		for _, m := range ms {
			ov[m] = ""
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(n.dir, pkgName(pkg)+"_overlay.json")
		if err := os.WriteFile(of, b, 0o644); err != nil {
			ch <- err
			return
		}
		target := "./" + pkg
		if pkg == "." {
			target = "."
		}
		args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", n.binPath(pkg)}
		if n.race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, target)...)
		cmd.Dir = repoDir
		if n.race {
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build of %s: %v\n%s", pkg, err, out)
		}
		ch <- err
	}()
}

func (n *native) run(pkg string, rs []Replay) ([]ReplayResult, error) {
	n.start(pkg)
	err := <-n.bins[pkg]
	n.bins[pkg] <- err
	if err != nil {
		return nil, err
	}
	wd, err := os.MkdirTemp(n.dir, "wd")
	if err != nil {
		return nil, err
	}
	in := filepath.Join(wd, "in.json")
	outF := filepath.Join(wd, "out.json")
	var res []ReplayResult
	i := 0
	for i < len(rs) {
		b, _ := json.Marshal(rs[i:])
		if err := os.WriteFile(in, b, 0o644); err != nil {
			return nil, err
		}
		os.Remove(outF)
		cmd := exec.Command(n.binPath(pkg), "-test.run", "^TestVerifReplay$", "-test.timeout", "200s")
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_OUT="+outF, "GORACE=halt_on_error=1")
		o, er := cmd.CombinedOutput()
		if os.Getenv("VERIF_LOG") != "" {
			os.Stdout.Write(o)
		}
		var part []ReplayResult
		if ob, e2 := os.ReadFile(outF); e2 == nil {
			for _, l := range bytes.Split(ob, []byte("\n")) {
				if len(l) == 0 {
					continue
				}
				var r ReplayResult
				if json.Unmarshal(l, &r) == nil {
					part = append(part, r)
				}
			}
		}
		if len(part) > len(rs)-i {
			return nil, fmt.Errorf("replay output too long")
		}
		res = append(res, part...)
		i += len(part)
		if i < len(rs) {
			// the process died while replaying input i
			tail := string(o)
			if len(tail) > 3000 {
				tail = tail[:3000]
			}
			res = append(res, ReplayResult{Outcome: "died", Msg: fmt.Sprint(er, "\n", tail)})
			i++
		}
	}
	return res, nil
}

func (r ReplayResult) bad() bool {
	return r.Outcome == "assert" || r.Outcome == "panic" || r.Outcome == "fatal" || r.Outcome == "died" || r.Outcome == "hang"
}

// ---- known findings ----

type finding struct{ prop, label, text string }

func knownFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "known: ")
		for _, w := range []string{"property=", "label="} {
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, w) {
				die("malformed known finding: %s", l)
			}
			v, r, _ := strings.Cut(strings.TrimPrefix(rest, w), " ")
			rest = r
			if w == "property=" {
				f.prop = v
			} else {
				f.label = v
			}
		}
		f.text = strings.TrimSpace(rest)
		out = append(out, f)
	}
	return out
}

// ---- check ----

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

type harnessOut struct {
	spec     HarnessSpec
	eng      *Engine
	complete bool
	wall     float64
	params   map[string]int
}

func check(id string, spec *PropSpec, only string) int {
	t0 := time.Now()
	tier := tierOf()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	verbose := os.Getenv("VERIF_VERBOSE") != ""
	nat := newNative(id, spec)
	defer nat.close()

	pkgs := map[string]bool{}
	var hs []HarnessSpec
	for _, h := range spec.Harnesses {
		if only != "" && h.Fn != only {
			continue
		}
		if h.Only == "thorough" && tier != "thorough" && only == "" {
			continue
		}
		hs = append(hs, h)
		pkgs[h.Pkg] = true
	}
	ov := map[string][]byte{}
	var pats []string
	for p := range spec.Files {
		for k, v := range harnessFiles(spec, p, false) {
			ov[k] = v
		}
	}
	for p := range pkgs {
		for k, v := range harnessFiles(spec, p, false) {
			ov[k] = v
		}
		if p == "." {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+p)
		}
	}
	st, err := stubFiles(spec)
	if err != nil {
		die("stubs: %v", err)
	}
	for k, v := range st {
		ov[k] = v
	}
	dropIntrinsics(spec)
	sort.Strings(pats)
	P, err := loadProgram(repoDir, ov, pats...)
	if err != nil {
		die("loading /repo: %v", err)
	}
	for p := range pkgs {
		nat.start(p)
	}
	tLoad := time.Since(t0).Seconds()

	known := knownFindings()
	isKnown := func(label string) *finding {
		for i := range known {
			if known[i].prop == id && known[i].label == label {
				return &known[i]
			}
		}
		return nil
	}

	var outs []*harnessOut
	type pending struct {
		h *harnessOut
		r Replay
		w bool // witness of a passing path
	}
	var pend []pending
	exit := 0
	var errs []string
	for _, h := range hs {
		pp := modPath
		if h.Pkg != "." {
			pp += "/" + h.Pkg
		}
		sp := P.pkgs[pp]
		if sp == nil {
			die("package %s not loaded", pp)
		}
		fn := sp.Func(h.Fn)
		if fn == nil {
			die("no harness %s in %s", h.Fn, pp)
		}
		e := NewEngine(P)
		e.entry = fn
		e.seed = seed
		e.workers = runtime.NumCPU()
		params := map[string]int{}
		for k, v := range h.Params {
			params[k] = v
		}
		bud := h.Budget
		if bud == 0 {
			bud = 60
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				params[k] = v
			}
			if h.BudgetT > 0 {
				bud = h.BudgetT
			} else {
				bud *= 4
			}
		}
		if v := os.Getenv("VERIF_BUDGET"); v != "" {
			bud, _ = strconv.Atoi(v)
		}
		for _, kv := range strings.Fields(os.Getenv("VERIF_PARAMS")) {
			k, v, _ := strings.Cut(kv, "=")
			params[k], _ = strconv.Atoi(v)
		}
		e.params = params
		if h.MaxSteps > 0 {
			e.maxSteps = h.MaxSteps
		}
		th := time.Now()
		e.deadline = th.Add(time.Duration(bud) * time.Second)
		complete, err := e.Run()
		if err != nil {
			die("%v", err)
		}
		ho := &harnessOut{spec: h, eng: e, complete: complete, wall: time.Since(th).Seconds(), params: params}
		outs = append(outs, ho)
		for _, v := range e.Viol {
			if v.Inputs == nil && v.Kind == "" {
				continue
			}
			r := Replay{Property: id, Harness: h.Fn, Pkg: h.Pkg, Params: params, Inputs: v.Inputs, Label: v.Label, Kind: v.Kind, Msg: v.Msg}
			if v.MapMode != 0 || e.mapUsed() {
				r.Repeat = 60
			}
			pend = append(pend, pending{ho, r, false})
		}
		for _, w := range e.Wit {
			pend = append(pend, pending{ho, Replay{Property: id, Harness: h.Fn, Pkg: h.Pkg, Params: params, Inputs: w.Inputs, Obs: w.Obs}, true})
		}
		for _, in := range e.Lost {
			pend = append(pend, pending{ho, Replay{Property: id, Harness: h.Fn, Pkg: h.Pkg, Params: params, Inputs: in, Free: true}, true})
		}
		if complete {
			for _, l := range h.Reach {
				if e.Reached[l] == 0 && len(e.Viol) == 0 {
					errs = append(errs, fmt.Sprintf("%s: label %q never reached (vacuous)", h.Fn, l))
				}
			}
		}
		if e.Done == 0 && len(e.Viol) == 0 && complete {
			errs = append(errs, fmt.Sprintf("%s: no complete path", h.Fn))
		}
		if verbose {
			fmt.Printf("== %s/%s complete=%v wall=%.1fs paths=%d done=%d infeasible=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs viol=%d wit=%d depth=%d\n", id, h.Fn, complete, ho.wall, e.Paths, e.Done, e.Infeasible, e.Queries, e.NSat, e.NUnsat, e.NUnknown, e.SolverTime.Seconds(), len(e.Viol), len(e.Wit), e.MaxDepth)
			for i, v := range e.Viol {
				if i < 8 {
					fmt.Printf("  viol %s %s %s\n", v.Kind, v.Label, v.Msg)
				}
			}
			printMap("  abort", e.Aborts)
			printMap("  unknown", e.Unknown)
			printMap("  reach", e.Reached)
			printMap("  note", e.Notes)
			for _, l := range sortedKeys(e.Asserts) {
				fmt.Printf("  assert %-40s solver=%d trivial=%d\n", l, e.Asserts[l].Solver, e.Asserts[l].Trivial)
			}
		}
	}

	// native replay of counterexamples and of witnesses of passing paths
	byPkg := map[string][]int{}
	for i, p := range pend {
		byPkg[p.r.Pkg] = append(byPkg[p.r.Pkg], i)
	}
	for p := range pkgs {
		if len(byPkg[p]) == 0 {
			byPkg[p] = nil
		}
	}
	results := make([]ReplayResult, len(pend))
	tR := time.Now()
	for p, ix := range byPkg {
		var rs []Replay
		for _, i := range ix {
			rs = append(rs, pend[i].r)
		}
		if len(rs) == 0 {
			continue
		}
		res, err := nat.run(p, rs)
		if err != nil {
			die("replay: %v", err)
		}
		for k, i := range ix {
			results[i] = res[k]
		}
	}
	tReplay := time.Since(tR).Seconds()

	validated, mism := 0, 0
	var mismNotes []string
	seenViol := map[string]bool{}
	unrepro := map[string]int{}
	nviol := 0
	knownHit := map[string]*finding{}
	var natRace *native
	alone := map[string]int{}
	for i, p := range pend {
		r := results[i]
		sched := !p.w && (p.r.Kind == "race" || p.r.Kind == "deadlock" || p.r.Kind == "lock")
		if sched {
			// schedules: the solver's schedule decides; a race must also be seen by the race detector, which does
			// not depend on hitting the schedule
			seen := r.Outcome == "hang" || r.Outcome == "died"
			msg := p.r.Msg
			if p.r.Kind == "race" {
				if seenViol[p.r.Harness+"|"+p.r.Label] {
					continue
				}
				if natRace == nil {
					natRace = newNative(id, spec)
					natRace.race = true
					defer natRace.close()
				}
				res, err := natRace.run(p.r.Pkg, []Replay{p.r})
				if err != nil {
					mismNotes = append(mismNotes, "race detector: "+firstLine(err.Error()))
					seen = true
				} else {
					seen = strings.Contains(res[0].Msg, "DATA RACE") || strings.Contains(res[0].Msg, "concurrent map")
					if seen {
						msg += "\n" + res[0].Msg
					}
				}
			}
			if !seen && p.r.Kind == "race" {
				unrepro[fmt.Sprintf("%s: %s (not seen by the race detector) %s", p.r.Harness, p.r.Label, p.r.Msg)]++
				continue
			}
			if seen {
				msg += "\nreproduced natively: " + r.Outcome
			}
			r = ReplayResult{Outcome: "assert", Label: p.r.Label, Msg: msg}
		}
		bad := r.bad()
		if !sched && bad == p.w && alone[p.r.Harness+"|"+p.r.Label] < 12 {
			// The inputs above were replayed by one process, so what the code keeps in its package variables may
			// have come from another one. What does not turn out as predicted is decided by a process of its own.
			alone[p.r.Harness+"|"+p.r.Label]++
			if res, err := nat.run(p.r.Pkg, []Replay{p.r}); err == nil {
				r = res[0]
				bad = r.bad()
			}
		} else if !sched && bad && p.w && !seenViol[p.r.Harness+"|"+r.Label] {
			mismNotes = append(mismNotes, fmt.Sprintf("%s: witness replay outcome %s %s %s, not tried again", p.r.Harness, r.Outcome, r.Label, r.Msg))
			mism++
			continue
		}
		if p.r.Free && (!bad || r.Outcome == "hang" || r.Outcome == "died") {
			continue
		}
		if p.w && !bad {
			if r.Outcome == "ok" {
				ok := true
				if len(r.Obs) == len(p.r.Obs) || true {
					got := map[string]string{}
					for k, o := range r.Obs {
						got[fmt.Sprint(k, o.Name)] = o.Val
					}
					wm := map[string]int{}
					_ = wm
					j := 0
					for _, o := range p.r.Obs {
						// observations keep their order; unrendered ones are skipped on the symbolic side
						for j < len(r.Obs) && r.Obs[j].Name != o.Name {
							j++
						}
						if j >= len(r.Obs) || r.Obs[j].Val != o.Val {
							ok = false
							nv := "<missing>"
							if j < len(r.Obs) {
								nv = r.Obs[j].Val
							}
							mismNotes = append(mismNotes, fmt.Sprintf("%s: obs %s symbolic=%s native=%s", p.r.Harness, o.Name, o.Val, nv))
							break
						}
						j++
					}
				}
				if ok {
					validated++
				} else {
					mism++
				}
			} else {
				mism++
				mismNotes = append(mismNotes, fmt.Sprintf("%s: witness replay outcome %s %s %s", p.r.Harness, r.Outcome, r.Label, r.Msg))
			}
			continue
		}
		if !bad {
			unrepro[fmt.Sprintf("%s: %s (native outcome %s %s)", p.r.Harness, p.r.Label, r.Outcome, r.Msg)]++
			continue
		}
		label := r.Label
		if r.Outcome != "assert" {
			label = r.Outcome
		}
		if f := isKnown(label); f != nil {
			knownHit[label] = f
			continue
		}
		if p.w {
			what := "witness of a passing path fails natively"
			if p.r.Free {
				what = "inputs of a path that could not be encoded fail natively"
			}
			mismNotes = append(mismNotes, fmt.Sprintf("%s: %s: %s %s", p.r.Harness, what, r.Outcome, label))
		}
		key := p.r.Harness + "|" + label
		if seenViol[key] {
			continue
		}
		seenViol[key] = true
		nviol++
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, p.r.Harness, nviol))
		rr := p.r
		rr.Label, rr.Kind = label, r.Outcome
		if sched {
			rr.Kind = p.r.Kind
		}
		rr.Msg = r.Msg
		b, _ := json.MarshalIndent(rr, "", " ")
		os.WriteFile(file, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		fmt.Printf("  harness=%s outcome=%s label=%q %s\n", p.r.Harness, r.Outcome, label, firstLine(r.Msg))
		exit = 1
	}
	for _, f := range known {
		if f.prop == id && knownHit[f.label] != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
		}
	}
	if verbose {
		printMap("  unreproduced", unrepro)
		for i, n := range mismNotes {
			if i < 10 {
				fmt.Println("  mismatch:", n)
			}
		}
		fmt.Printf("load=%.1fs replay=%.1fs validated=%d mismatched=%d\n", tLoad, tReplay, validated, mism)
	}
	writeEvidence(id, tier, seed, spec, outs, pend2samples(len(pend), func(i int) (Replay, bool) { return pend[i].r, pend[i].w }), validated, mism, mismNotes, unrepro, nviol, knownHit, time.Since(t0).Seconds())
	for _, h := range outs {
		e := h.eng
		st := "complete"
		if !h.complete {
			st = "INCOMPLETE (reduced bound)"
		}
		fmt.Printf("%s %s: %s, paths=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs\n", id, h.spec.Fn, st, e.Done, e.Queries, e.NUnsat, e.SolverTime.Seconds(), h.wall)
	}
	if exit == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 2
	}
	return exit
}

func (e *Engine) mapUsed() bool { return true }

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func pend2samples(n int, f func(int) (Replay, bool)) []interface{} {
	var out []interface{}
	per := map[string]int{}
	for i := 0; i < n; i++ {
		r, w := f(i)
		if !w || per[r.Harness] >= 2 {
			continue
		}
		per[r.Harness]++
		in := r.Inputs
		if len(in) > 24 {
			in = in[:24]
		}
		out = append(out, map[string]interface{}{"harness": r.Harness, "inputs": in})
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func printMap(t string, m map[string]int) {
	for _, k := range sortedKeys(m) {
		fmt.Printf("%s [%d] %s\n", t, m[k], k)
	}
}

func writeEvidence(id, tier string, seed int, spec *PropSpec, outs []*harnessOut, samples []interface{}, validated, mism int, mismNotes []string, unrepro map[string]int, nviol int, known map[string]*finding, wall float64) {
	states, trans, queries, unsat, sat, unk := 0, 0, 0, 0, 0, 0
	var st float64
	funcs := map[string]bool{}
	var hs []interface{}
	asol, atriv := 0, 0
	for _, h := range outs {
		e := h.eng
		states += e.Done
		trans += e.Paths
		queries += e.Queries
		unsat += e.NUnsat
		sat += e.NSat
		unk += e.NUnknown
		st += e.SolverTime.Seconds()
		for _, f := range e.funcsEncoded() {
			funcs[f] = true
		}
		for _, a := range e.Asserts {
			asol += a.Solver
			atriv += a.Trivial
		}
		hs = append(hs, map[string]interface{}{
			"harness": h.spec.Fn, "bounds": h.spec.Bounds, "params": h.params, "exploration_complete": h.complete,
			"paths_completed": e.Done, "path_prefixes_started": e.Paths, "paths_infeasible": e.Infeasible, "max_decisions": e.MaxDepth,
			"queries": e.Queries, "solver_s": e.SolverTime.Seconds(), "wall_s": h.wall,
			"asserts": e.Asserts, "reached": e.Reached, "aborted_paths": e.Aborts, "undecided_asserts": e.Unknown, "notes": e.Notes,
		})
	}
	if samples == nil {
		samples = []interface{}{}
	}
	if len(mismNotes) > 20 {
		mismNotes = mismNotes[:20]
	}
	var kf []string
	for _, k := range sortedKeys(known) {
		kf = append(kf, k)
	}
	complete := true
	for _, h := range outs {
		complete = complete && h.complete
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":       "states = symbolic paths of the harness explored to the end (each stands for every input satisfying its path condition); transitions = path prefixes dispatched; traces_validated = solver models of passing paths replayed natively against the compiled code with identical observations",
		"functions_encoded": sortedKeys(funcs), "harnesses": hs,
		"queries": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk, "solver_time_s": st,
		"assertions_decided_by_solver": asol, "assertions_decided_by_simplification": atriv,
		"witness_mismatches": mism, "witness_mismatch_notes": mismNotes, "counterexamples_not_reproduced": unrepro,
		"all_harnesses_complete_within_bounds": complete, "outside_the_claim": spec.Outside, "known_findings_hit": kf,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": spec.Assumptions, "wall_s": wall, "violations": nviol,
	}
	if spec.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
}
