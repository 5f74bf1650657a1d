// Command symgo decides the properties of /repo by symbolic execution.
//
//	symgo check ID [quick|thorough]     run the harnesses of a property
//	symgo run HARNESS...                explore single harnesses (development)
//	symgo replay FILE                   replay a recorded violation natively
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine"
)

const target = "github.com/manhcuongbk56/cypher-go-dsl"

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Check    string `json:"check"`
	What     string `json:"what"`
}

func loadKnown(dir string) []known {
	f, err := os.Open(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			ks = append(ks, k)
		}
	}
	return ks
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		die("usage")
	}
	dir, _ := os.Getwd()
	switch os.Args[1] {
	case "check":
		check(dir, os.Args[2], os.Args[3:])
	case "run":
		devRun(dir, os.Args[2:])
	case "replay":
		replay(dir, os.Args[2])
	default:
		die("unknown command")
	}
}

func env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// raced tells whether a harness is replayed under the race detector.
func raced(harness string) bool { return strings.HasPrefix(harness, "C21_") }

// buildNative builds the replay binary against /repo's working tree.
func buildNative(dir string, race bool) (string, func()) {
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		die("%v", err)
	}
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-o", bin, "./cmd/replay"}
	if race {
		args = append(args[:1:1], append([]string{"-race"}, args[1:]...)...)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.RemoveAll(tmp)
		die("build of the replay binary failed: %v\n%s", err, out)
	}
	return bin, func() { os.RemoveAll(tmp) }
}

func load(dir string, race bool) (*engine.Program, string, func()) {
	type r struct {
		bin string
		cl  func()
	}
	ch := make(chan r)
	go func() { b, c := buildNative(dir, race); ch <- r{b, c} }()
	p, err := engine.Load(dir, "verif/props", "verif/models", target)
	b := <-ch
	if err != nil {
		b.cl()
		die("%v", err)
	}
	return p, b.bin, b.cl
}

func options(thorough bool, bin string, budget time.Duration) engine.Options {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	return engine.Options{Workers: w, Budget: budget, Solver: []string{"z3", "-in"}, NativeBin: bin, NativeEnv: []string{"VERIF_TIER=" + tier, "GOGC=400", "GORACE=halt_on_error=1 exitcode=66"}, Thorough: thorough, Known: func(h, c string) bool { return false }}
}

func devRun(dir string, args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	th := fs.Bool("thorough", false, "")
	bud := fs.Duration("budget", 2*time.Minute, "")
	all := fs.Bool("all", true, "")
	fs.Parse(args)
	p, bin, cl := load(dir, raced(fs.Arg(0)))
	defer cl()
	opt := options(*th, bin, *bud)
	opt.AllViol = *all
	names := expand(p, fs.Args())
	t0 := time.Now()
	rep, err := engine.Explore(p, names, opt)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, h := range rep.Harnesses {
		b, _ := json.Marshal(h)
		fmt.Println(string(b))
	}
	for _, v := range rep.Violations {
		fmt.Printf("VIOL %s %s: %s | native: %s | %s\n", v.Harness, v.Check, v.Detail, v.Native, inStr(v.Inputs))
	}
	for i, v := range rep.Spurious {
		if i < 5 {
			fmt.Printf("SPURIOUS %s %s: %s | %s\n", v.Harness, v.Check, v.Detail, inStr(v.Inputs))
		}
	}
	fmt.Printf("%+v queries=%d sat=%d unsat=%d unk=%d solver=%v native=%d fns=%d wall=%v timedout=%v errs=%v\n", rep.Stats, rep.Queries, rep.Sat, rep.Unsat, rep.Unknown, rep.SolverTime, rep.NativeRuns, len(rep.Functions), time.Since(t0), rep.TimedOut, head(rep.SolverErrs, 3))
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func inStr(in []engine.Input) string {
	var sb strings.Builder
	for _, i := range in {
		if i.Kind == "str" {
			fmt.Fprintf(&sb, "%s=%q ", i.Label, i.Str)
		} else {
			fmt.Fprintf(&sb, "%s=%d ", i.Label, i.Int)
		}
	}
	return sb.String()
}

func expand(p *engine.Program, pats []string) []string {
	var names []string
	for n := range p.Harness.Members {
		f := p.Harness.Func(n)
		if f == nil || len(n) < 4 || n[3] != '_' || (n[0] != 'C' && n[0] != 'K') {
			continue
		}
		for _, pt := range pats {
			if n == pt || strings.HasSuffix(pt, "*") && strings.HasPrefix(n, pt[:len(pt)-1]) {
				names = append(names, n)
				break
			}
		}
	}
	sort.Strings(names)
	return names
}

func check(dir, id string, rest []string) {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if len(rest) > 0 {
		tier = rest[0]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	p, bin, cl := load(dir, raced(id+"_"))
	defer cl()
	ks := loadKnown(dir)
	opt := options(tier == "thorough", bin, budget)
	find := func(h, c string) *known {
		for i := range ks {
			if ks[i].Property == id && ks[i].Harness == h && ks[i].Check == c {
				return &ks[i]
			}
		}
		return nil
	}
	opt.Known = func(h, c string) bool { return find(h, c) != nil }
	names := expand(p, []string{"C" + id[1:] + "_*", "K" + id[1:] + "_*"})
	if len(names) == 0 {
		cl()
		die("no harness for %s", id)
	}
	rep, err := engine.Explore(p, names, opt)
	if err != nil {
		// The executor cannot run this tree: no verdict, reported as a reduced bound.
		fmt.Printf("INCONCLUSIVE property=%s %v\n", id, err)
		rep = &engine.Report{}
	}
	exit := 0
	nviol := 0
	for _, v := range rep.Violations {
		if k := find(v.Harness, v.Check); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", id, k.What, v.Harness, v.Check)
			continue
		}
		nviol++
		path := filepath.Join(dir, "evidence", fmt.Sprintf("replay-%s-%d.json", id, nviol))
		b, _ := json.MarshalIndent(v, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, b, 0o644)
		fmt.Printf("harness %s, check %s: %s\n  native: %s\n  inputs: %s\n", v.Harness, v.Check, v.Detail, v.Native, inStr(v.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		exit = 1
	}
	writeEvidence(dir, id, tier, seed, rep, time.Since(t0), nviol, err)
	s := rep.Stats
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions closed by the solver (%d more by the path condition alone), %d paths certified, %d solver queries in %.1fs, %d replayed natively, %d mismatches, %d spurious, %d inconclusive, timed out %v, %.1fs\n",
		id, tier, len(rep.Harnesses), s.Paths, s.AssertSolver, s.AssertTrivial, s.Certified, rep.Queries, rep.SolverTime.Seconds(), s.Validated, s.Mismatch, len(rep.Spurious), s.Unsupported+s.Bound, rep.TimedOut, time.Since(t0).Seconds())
	cl()
	os.Exit(exit)
}

func writeEvidence(dir, id, tier string, seed int, rep *engine.Report, wall time.Duration, nviol int, err error) {
	var vac []string
	for _, h := range rep.Harnesses {
		if len(h.Checks) == 0 {
			vac = append(vac, h.Name)
		}
	}
	var spur []string
	for i, v := range rep.Spurious {
		if i < 5 {
			spur = append(spur, v.Harness+" "+v.Check+": "+v.Detail)
		}
	}
	samples := rep.Samples
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"states":                              rep.Stats.Nodes,
		"transitions":                         rep.Stats.Steps,
		"traces_validated_against_impl":       rep.Stats.Validated,
		"samples":                             head(samples, 12),
		"meaning":                             "states: nodes of the symbolic path trees (each stands for all input values that satisfy its path condition); transitions: SSA instructions executed symbolically; traces: complete symbolic paths whose solver model was replayed on the natively compiled code with identical outputs and verdicts",
		"paths":                               rep.Stats.Paths,
		"functions_encoded":                   rep.Functions,
		"functions_encoded_count":             len(rep.Functions),
		"ssa_instructions_encoded":            rep.Instrs,
		"solver_queries":                      rep.Queries,
		"solver_sat":                          rep.Sat,
		"solver_unsat":                        rep.Unsat,
		"solver_unknown":                      rep.Unknown,
		"solver_seconds":                      rep.SolverTime.Seconds(),
		"solver_errors":                       head(rep.SolverErrs, 5),
		"assertions_closed_by_solver":         rep.Stats.AssertSolver,
		"assertions_closed_by_path_condition": rep.Stats.AssertTrivial,
		"paths_certified_by_solver":           rep.Stats.Certified,
		"paths_the_solver_contradicts":        rep.Contradicted,
		"branches_split_by_solver":            rep.Stats.BranchSolver,
		"branches_split_by_domain":            rep.Stats.BranchDomain,
		"executor_native_mismatches":          rep.Stats.Mismatch,
		"counterexamples_not_reproduced":      spur,
		"inconclusive_paths":                  rep.Stats.Unsupported + rep.Stats.Bound,
		"unexplored_within_time":              rep.TimedOut,
		"harnesses":                           rep.Harnesses,
		"vacuous_harnesses":                   vac,
		"bounds":                              "input sizes and alphabets are those drawn by the harnesses in props/ (see DESIGN.md, table of bounds); every loop is run to its end on every path",
	}
	if err != nil {
		cov["inconclusive"] = err.Error()
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the SSA executor in engine/ interprets Go as the compiler does (cross-checked: every complete path is replayed natively)",
			"models of fmt, strconv formatting, xid, sort.Slice, sync and the assembly string kernels (engine/intrinsics.go, models/)",
			"no claim beyond the stated input bounds",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", id+".json"), b, 0o644)
}

func replay(dir, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var v engine.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		die("%v", err)
	}
	bin, cl := buildNative(dir, raced(v.Harness))
	defer cl()
	n := engine.NewNative(bin, "VERIF_TIER="+os.Getenv("VERIF_TIER"))
	defer n.Close()
	tries := 1
	if v.MapOrder {
		tries = 300
	}
	fmt.Printf("harness %s, check %s\ninputs %s\n", v.Harness, v.Check, inStr(v.Inputs))
	for i := 0; i < tries; i++ {
		r, err := n.Run(v.Harness, v.Inputs)
		if err != nil {
			die("%v", err)
		}
		if r.Crash != "" || r.Panic != "" || len(r.Fail) > 0 || i == tries-1 {
			fmt.Printf("outputs %q\nfailed checks %q\npanic %q\ncrash %q\n", r.Obs, r.Fail, r.Panic, r.Crash)
			if r.Crash != "" || r.Panic != "" || len(r.Fail) > 0 {
				os.Exit(1)
			}
			return
		}
	}
}
