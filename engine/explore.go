package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Native runs harnesses compiled against the real build.
type Native struct {
	bin    string
	env    []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errBuf *tail
	Runs   int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 4096 { // keep the head: it names the fatal error
		t.b = t.b[:4096]
	}
	return len(p), nil
}

// NativeResult is what one native run produced.
type NativeResult struct {
	Raw    [][]byte `json:"obs"`
	Obs    []string `json:"-"`
	Fail   []string `json:"fail"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Crash  string   `json:"-"`
}

func NewNative(bin string, env ...string) *Native { return &Native{bin: bin, env: env} }

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), n.env...)
	n.errBuf = &tail{}
	n.cmd.Stderr = n.errBuf
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return n.cmd.Start()
}

// Close ends the process.
func (n *Native) Close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// Run replays one harness on recorded inputs. A run that ends the process (or
// gives no answer) is repeated once: only a repeated crash is reported.
func (n *Native) Run(h string, in []Input) (NativeResult, error) {
	r, err := n.run(h, in, 20*time.Second)
	if err == nil && r.Crash != "" {
		r, err = n.run(h, in, 60*time.Second)
	}
	return r, err
}

func (n *Native) run(h string, in []Input, limit time.Duration) (NativeResult, error) {
	n.Runs++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return NativeResult{}, err
		}
	}
	req, _ := json.Marshal(map[string]any{"h": h, "in": in})
	type rd struct {
		line string
		err  error
	}
	ch := make(chan rd, 1)
	if _, err := n.in.Write(append(req, '\n')); err != nil {
		ch <- rd{"", err}
	} else {
		out := n.out
		go func() { l, err := out.ReadString('\n'); ch <- rd{l, err} }()
	}
	var r rd
	select {
	case r = <-ch:
	case <-time.After(limit):
		n.Close()
		return NativeResult{Crash: "no answer within " + limit.String()}, nil
	}
	if r.err != nil {
		cmd := n.cmd
		n.in.Close()
		cmd.Wait()
		n.cmd = nil
		msg := strings.SplitN(string(n.errBuf.b), "\n\n", 2)[0]
		return NativeResult{Crash: "process died: " + msg}, nil
	}
	var res NativeResult
	if err := json.Unmarshal([]byte(r.line), &res); err != nil {
		return res, fmt.Errorf("native runner: %v in %q", err, r.line)
	}
	for _, o := range res.Raw {
		res.Obs = append(res.Obs, string(o))
	}
	return res, nil
}

// HarnessStat summarises one harness.
type HarnessStat struct {
	Name        string         `json:"harness"`
	Paths       int            `json:"paths"`
	Ends        map[string]int `json:"path_ends"`
	Checks      map[string]int `json:"assertions_reached"`
	Validated   int            `json:"paths_replayed_natively"`
	Mismatch    int            `json:"mismatches"`
	Pending     int            `json:"unexplored_prefixes"`
	Why         []string       `json:"reduced_bound_reasons,omitempty"`
	Approx      int            `json:"approximate_paths,omitempty"`
	Sample      string         `json:"sample,omitempty"`
	MismatchMsg string         `json:"mismatch_example,omitempty"`
}

// Report is the outcome of one exploration.
type Report struct {
	Harnesses    []*HarnessStat
	Violations   []Violation
	Stats        Stats
	Queries      int
	Sat, Unsat   int
	Unknown      int
	SolverTime   time.Duration
	Contradicted []string
	SolverErrs   []string
	Spurious     []Violation
	Functions    []string
	Instrs       int
	NativeRuns   int
	TimedOut     bool
	Samples      []string
}

// Options of an exploration.
type Options struct {
	Workers   int
	Budget    time.Duration
	Solver    []string
	NativeBin string
	NativeEnv []string
	Thorough  bool
	Known     func(h, check string) bool
	Verbose   bool
	AllViol   bool
}

type hstate struct {
	fn      *ssa.Function
	st      *HarnessStat
	stack   [][]decision
	running int
	why     map[string]int
	seen    map[string]bool // confirmed violations
	stopped bool
	tries   map[string]int
}

// Explore runs the harnesses to exhaustion (or until the budget ends).
func Explore(p *Program, names []string, opt Options) (*Report, error) {
	rep := &Report{}
	var hs []*hstate
	for _, n := range names {
		fn := p.Harness.Func(n)
		if fn == nil {
			return nil, fmt.Errorf("no harness %s", n)
		}
		h := &hstate{fn: fn, st: &HarnessStat{Name: n, Ends: map[string]int{}, Checks: map[string]int{}}, stack: [][]decision{nil}, why: map[string]int{}, seen: map[string]bool{}, tries: map[string]int{}}
		hs = append(hs, h)
		rep.Harnesses = append(rep.Harnesses, h.st)
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	deadline := time.Now().Add(opt.Budget)
	stop := false
	next := 0
	take := func() (*hstate, []decision) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if stop || time.Now().After(deadline) {
				return nil, nil
			}
			busy := false
			for k := 0; k < len(hs); k++ {
				h := hs[(next+k)%len(hs)]
				if h.running > 0 {
					busy = true
				}
				if len(h.stack) > 0 && !h.stopped {
					next = (next + k + 1) % len(hs)
					t := h.stack[len(h.stack)-1]
					h.stack = h.stack[:len(h.stack)-1]
					h.running++
					return h, t
				}
			}
			if !busy {
				return nil, nil
			}
			cond.Wait()
		}
	}
	go func() {
		for time.Now().Before(deadline) {
			time.Sleep(200 * time.Millisecond)
			cond.Broadcast()
		}
		cond.Broadcast()
	}()
	var wg sync.WaitGroup
	var firstErr error
	for k := 0; k < opt.Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := NewSolver(opt.Solver[0], opt.Solver[1:]...)
			defer sv.Close()
			nat := NewNative(opt.NativeBin, opt.NativeEnv...)
			defer nat.Close()
			w, err := NewWorker(p, sv)
			if err != nil {
				mu.Lock()
				if firstErr == nil {
					firstErr = err
				}
				stop = true
				mu.Unlock()
				cond.Broadcast()
				return
			}
			w.Thorough = opt.Thorough
			for {
				h, prefix := take()
				if h == nil {
					break
				}
				res := w.RunPath(h.st.Name, h.fn, prefix)
				mu.Lock()
				if !h.stopped {
					// deepest alternatives first
					h.stack = append(h.stack, res.Alts...)
				}
				cond.Broadcast()
				mu.Unlock()
				conf, spur := w.confirm(h, nat, &res, opt, &mu)
				mu.Lock()
				h.running--
				h.st.Paths++
				h.st.Ends[res.End]++
				for c, n := range res.Reached {
					h.st.Checks[c] += n
				}
				if res.Approx != "" {
					h.st.Approx++
					h.why["approximate: "+res.Approx]++
				}
				if res.End == "unsupported" || res.End == "bound" {
					h.why[res.End+": "+res.Why]++
				}
				if h.st.Sample == "" && res.End == "ok" && len(res.Obs) > 0 {
					h.st.Sample = fmt.Sprintf("%v", res.Obs)
				}
				for _, v := range conf {
					k := v.Check
					if h.seen[k] {
						continue
					}
					h.seen[k] = true
					rep.Violations = append(rep.Violations, v)
					if !opt.AllViol && !opt.Known(v.Harness, v.Check) {
						stop = true
					}
				}
				rep.Spurious = append(rep.Spurious, spur...)
				mu.Unlock()
				cond.Broadcast()
			}
			w.flush()
			mu.Lock()
			rep.Stats.add(w.Stats)
			rep.Contradicted = append(rep.Contradicted, w.Contradicted...)
			rep.Queries += sv.Queries
			rep.Sat += sv.Sat
			rep.Unsat += sv.Unsat
			rep.Unknown += sv.Unknown
			rep.SolverTime += sv.Time
			rep.SolverErrs = append(rep.SolverErrs, sv.Errors...)
			rep.NativeRuns += nat.Runs
			mu.Unlock()
		}()
	}
	wg.Wait()
	if firstErr != nil {
		return nil, firstErr
	}
	for _, h := range hs {
		h.st.Pending = len(h.stack)
		if h.st.Pending > 0 {
			rep.TimedOut = true
		}
		for w, n := range h.why {
			h.st.Why = append(h.st.Why, fmt.Sprintf("%dx %s", n, w))
		}
		sort.Strings(h.st.Why)
		if h.st.Sample != "" {
			rep.Samples = append(rep.Samples, h.st.Name+": "+h.st.Sample)
		}
	}
	rep.Functions, rep.Instrs = p.Executed()
	sort.Strings(rep.Functions)
	return rep, nil
}

func (s *Stats) add(o Stats) {
	s.Paths += o.Paths
	s.Steps += o.Steps
	s.Forks += o.Forks
	s.Nodes += o.Nodes
	s.AssertTrivial += o.AssertTrivial
	s.AssertSolver += o.AssertSolver
	s.Certified += o.Certified
	s.Contradicted += o.Contradicted
	s.BranchDomain += o.BranchDomain
	s.BranchSolver += o.BranchSolver
	s.Unsupported += o.Unsupported
	s.Bound += o.Bound
	s.AssumeEnd += o.AssumeEnd
	s.Approx += o.Approx
	s.Validated += o.Validated
	s.Mismatch += o.Mismatch
	s.Skipped += o.Skipped
	if o.MaxDecisions > s.MaxDecisions {
		s.MaxDecisions = o.MaxDecisions
	}
}

func failID(f string) string {
	if i := strings.Index(f, ": got "); i >= 0 {
		return f[:i]
	}
	return f
}

// confirm replays a path and its violations against the real build.
func (w *Worker) confirm(h *hstate, nat *Native, res *PathResult, opt Options, mu *sync.Mutex) (conf, spur []Violation) {
	for _, v := range res.Violations {
		mu.Lock()
		skip := h.seen[v.Check] || h.tries[v.Check] > 20
		h.tries[v.Check]++
		mu.Unlock()
		if skip {
			continue
		}
		tries := 1
		if v.MapOrder {
			tries = 300
		}
		ok := false
		for t := 0; t < tries && !ok; t++ {
			r, err := nat.Run(h.st.Name, v.Inputs)
			if err != nil {
				break
			}
			switch {
			case r.Crash != "":
				v.Native = r.Crash
				ok = true
			case r.Panic != "":
				v.Native = "panic: " + r.Panic
				ok = !strings.HasPrefix(r.Panic, "replay:")
			case len(r.Fail) > 0:
				v.Native = strings.Join(r.Fail, "; ")
				ok = true
			}
			if ok && r.Crash == "" && len(r.Obs) > 0 {
				v.Native += " | " + strings.Join(r.Obs, " ")
			}
		}
		if ok {
			conf = append(conf, v)
		} else {
			spur = append(spur, v)
		}
	}
	if !res.HaveModel || len(res.Violations) > 0 || res.End == "stop" {
		return
	}
	r, err := nat.Run(h.st.Name, res.Inputs)
	if err != nil {
		return
	}
	bad := ""
	switch {
	case res.Assume() || r.Assume:
		bad = "assumption failed natively"
	case r.Crash != "":
		bad = r.Crash
	case r.Panic != "":
		bad = "panic: " + r.Panic
	case len(r.Fail) > 0:
		bad = strings.Join(r.Fail, "; ")
	}
	real := bad != "" && !r.Assume && !strings.HasPrefix(r.Panic, "replay:")
	if real {
		// the real build breaks the property on an input of an explored path
		c := "no-panic"
		if len(r.Fail) > 0 {
			c = failID(r.Fail[0])
		}
		conf = append(conf, Violation{Harness: h.st.Name, Check: c, Detail: "native replay of an explored path", Inputs: res.Inputs, Native: bad, MapOrder: res.MapOrder})
	}
	if res.End == "ok" && bad == "" && !res.MapOrder && strings.Join(r.Obs, "\x00") != strings.Join(res.Obs, "\x00") {
		bad = fmt.Sprintf("executor %q, native %q", res.Obs, r.Obs)
	}
	mu.Lock()
	defer mu.Unlock()
	if res.End != "ok" {
		return
	}
	if bad != "" {
		h.st.Mismatch++
		if h.st.MismatchMsg == "" {
			in, _ := json.Marshal(res.Inputs)
			h.st.MismatchMsg = bad + " inputs " + string(in)
		}
		w.Stats.Mismatch++
	} else {
		h.st.Validated++
		w.Stats.Validated++
	}
	return
}

// Assume reports whether the path ended on a failed assumption.
func (r *PathResult) Assume() bool { return r.End == "assume" }
