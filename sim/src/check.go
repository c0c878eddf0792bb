package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Replay is what is written for a violation.
type Replay struct {
	Property string      `json:"property"`
	Class    string      `json:"class"`
	Message  string      `json:"message"`
	Seed     uint64      `json:"seed"`
	Digest   uint64      `json:"digest"`
	Plan     *Plan       `json:"plan"`
	Original int         `json:"original_ops"`
	Viol     []Violation `json:"violations"`
	Trace    []string    `json:"trace"`
}

type finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var l []finding
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var f finding
		if err := json.Unmarshal([]byte(line), &f); err != nil {
			fmt.Fprintf(os.Stderr, "known_findings.jsonl: %v\n", err)
			os.Exit(3)
		}
		l = append(l, f)
	}
	return l
}

func known(l []finding, v *Violation) *finding {
	for i := range l {
		f := &l[i]
		if f.Status != "known" || f.Property != v.Prop || f.Class != v.Class {
			continue
		}
		if f.Match == "" {
			return f
		}
		if ok, _ := regexp.MatchString(f.Match, v.Msg); ok {
			return f
		}
	}
	return nil
}

const runTimeout = 120 * time.Second

// child runs one simulated run in a fresh process.
// A run that takes too long is run again before it counts: the machine may
// have been suspended meanwhile.
func child(ctx context.Context, input []byte, args ...string) (*Result, error) {
	r, err := child1(ctx, input, args...)
	if err == nil && len(r.Viol) == 1 && r.Viol[0].Class == "endless-run" && ctx.Err() == nil {
		return child1(ctx, input, args...)
	}
	return r, err
}

func child1(ctx context.Context, input []byte, args ...string) (*Result, error) {
	ctx, cancel := context.WithTimeout(ctx, runTimeout)
	defer cancel()
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if input != nil {
		cmd.Stdin = bytes.NewReader(input)
	}
	err = cmd.Run()
	if cmd.Process != nil {
		defer os.RemoveAll(fmt.Sprintf("%s/sojusim.%010d", scratchRoot(), cmd.Process.Pid))
	}
	if err == nil {
		var r Result
		if jerr := json.Unmarshal(out.Bytes(), &r); jerr != nil {
			return nil, fmt.Errorf("bad child output: %v: %.200s", jerr, out.String())
		}
		return &r, nil
	}
	if ctx.Err() == context.DeadlineExceeded {
		// a run takes a fraction of a second: the code under test spins
		return &Result{Viol: []Violation{{Prop: "CRASH", Class: "endless-run", Msg: fmt.Sprintf("the simulated run does not end within %v of real time (soju makes no progress in simulated time)", runTimeout)}}}, nil
	}
	// A panic that no goroutine recovered takes the whole process down.
	text := errb.String()
	if i := strings.Index(text, "panic: "); i >= 0 || strings.Contains(text, "fatal error: ") {
		if site := crashSite(text); site != "" {
			msg := text
			if i >= 0 {
				msg = text[i:]
			} else {
				msg = text[strings.Index(text, "fatal error: "):]
			}
			msg, _, _ = strings.Cut(msg, "\n")
			return &Result{Viol: []Violation{{Prop: "CRASH", Class: "process-crash:" + site, Msg: "the soju process dies: " + msg + " at " + site}}, Trace: strings.Split(tail(text, 6000), "\n")}, nil
		}
	}
	return nil, fmt.Errorf("run %v failed: %v: %s", args, err, tail(text, 3000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// crashSite returns the soju function an unrecovered panic came from, or ""
// when it came from the harness itself.
func crashSite(text string) string {
	i := strings.Index(text, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	// only the crashing goroutine's stack
	stack := text[i+1:]
	if j := strings.Index(stack, "\n\n"); j >= 0 {
		stack = stack[:j]
	}
	site := ""
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			if site == "" {
				return ""
			}
			break
		}
		if strings.HasPrefix(l, "codeberg.org/emersion/soju") && site == "" {
			l = l[strings.LastIndex(l, "/")+1:]
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			site = l
		}
	}
	return site
}

// aliases: violations a run may report under a generic name count for the
// property being decided.
func relevant(prop string, v *Violation) bool {
	return v.Prop == prop || v.Prop == "CRASH"
}

func rename(prop string, v Violation) Violation {
	if v.Prop == "CRASH" {
		v.Prop = prop
	}
	return v
}

func firstNew(prop string, r *Result, fs []finding, hit map[string]int) *Violation {
	var first *Violation
	for i := range r.Viol {
		v := &r.Viol[i]
		if !relevant(prop, v) {
			continue
		}
		nv := rename(prop, *v)
		if f := known(fs, &nv); f != nil {
			hit[f.Class+" "+f.What]++
			continue
		}
		if first == nil {
			first = &nv
		}
	}
	return first
}

type agg struct {
	mu        sync.Mutex
	runs      int
	decisions uint64
	yields    uint64
	simMS     int64
	ops       int
	faults    map[string]int
	probes    map[string]int
	stats     map[string]int
	digests   map[uint64]bool
	states    map[uint64]bool
	byProfile map[string]int
	nontriv   map[uint64]bool
	samples   []string
	other     map[string]int
	nondet    []string // runs whose repetition differed
	undecided []string // runs the harness could not finish
	unrepro   []string // violations that did not come back in a second process
}

func (a *agg) add(r *Result, prop string) {
	a.runs++
	a.decisions += r.Decisions
	a.yields += r.Yields
	a.simMS += r.SimMS
	a.ops += r.Ops
	for k, v := range r.Faults {
		a.faults[k] += v
	}
	for k, v := range r.Probes {
		a.probes[k] += v
	}
	for k, v := range r.Stats {
		a.stats[k] += v
	}
	a.digests[r.Digest] = true
	a.states[r.State] = true
	a.byProfile[r.Profile]++
	if len(r.Probes) > 0 {
		a.nontriv[r.State] = true
		if len(a.samples) < 4 {
			a.samples = append(a.samples, fmt.Sprintf("profile %s seed %d: %d steps, %d scheduling decisions, %d s simulated, faults %v, oracle evaluations %v", r.Profile, r.Seed, r.Ops, r.Decisions, r.SimMS/1000, r.Faults, r.Probes))
		}
	}
	for i := range r.Viol {
		if !relevant(prop, &r.Viol[i]) {
			a.other[r.Viol[i].Prop+" "+r.Viol[i].Class]++
		}
	}
}

func checkMain(args []string) int {
	prop := args[0]
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	budget := 22 * time.Second
	if tier == "thorough" {
		budget = 10 * time.Minute
	}
	if s := os.Getenv("SIM_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			base = n
		}
	}
	workers := 8
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	fmt.Printf("property=%s tier=%s seed=%d budget=%v\n", prop, tier, base, budget)
	profs := profilesOf(prop)
	if len(profs) == 0 {
		fmt.Fprintf(os.Stderr, "no profile decides %s\n", prop)
		return 3
	}
	var rot []*profile
	for _, p := range profs {
		for i := 0; i < p.weight; i++ {
			rot = append(rot, p)
		}
	}
	findings := loadFindings()
	start := time.Now()
	a := &agg{faults: map[string]int{}, probes: map[string]int{}, stats: map[string]int{}, digests: map[uint64]bool{}, states: map[uint64]bool{}, byProfile: map[string]int{}, nontriv: map[uint64]bool{}, other: map[string]int{}}
	hit := map[string]int{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var next uint64
	var found *Violation
	var foundRes *Result
	var foundSeed uint64
	var foundProf string
	var ferr error
	detRuns := 0
	confirming := false
	var wg sync.WaitGroup
	maxRuns := uint64(0)
	if s := os.Getenv("SIM_RUNS"); s != "" {
		maxRuns, _ = strconv.ParseUint(s, 10, 64)
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				a.mu.Lock()
				if found != nil || ferr != nil || time.Since(start) > budget || maxRuns > 0 && next >= maxRuns {
					a.mu.Unlock()
					return
				}
				n := next
				next++
				a.mu.Unlock()
				seed := base*1000003 + n
				pr := rot[n%uint64(len(rot))]
				r, err := child(ctx, nil, "run", pr.name, strconv.FormatUint(seed, 10))
				if err == nil && n%64 == 5 && r.Digest != 0 {
					// determinism: the same seed in another process
					r2, err2 := child(ctx, nil, "run", pr.name, strconv.FormatUint(seed, 10))
					a.mu.Lock()
					detRuns++
					if err2 == nil && r2.Digest != r.Digest {
						a.nondet = append(a.nondet, fmt.Sprintf("profile %s seed %d: digests %x and %x", pr.name, seed, r.Digest, r2.Digest))
					}
					a.mu.Unlock()
				}
				a.mu.Lock()
				if err == nil && r.Err != "" {
					if strings.HasPrefix(r.Err, "set-up failed") {
						r.Viol = append(r.Viol, Violation{Prop: "CRASH", Class: "startup", Msg: "soju does not start: " + r.Err})
					} else {
						err = fmt.Errorf("profile %s seed %d: %s", pr.name, seed, r.Err)
					}
				}
				if err != nil {
					// the harness could not finish this run: it decides nothing
					a.undecided = append(a.undecided, err.Error())
					if n := len(a.undecided); n >= 10 && n*5 > a.runs && ferr == nil && found == nil {
						ferr = err
					}
				} else {
					r.Profile = pr.name
					r.Seed = seed
					a.add(r, prop)
					if v := firstNew(prop, r, findings, hit); v != nil && found == nil && !confirming {
						confirming = true
						a.mu.Unlock()
						ok := confirm(ctx, prop, pr.name, seed, v, findings)
						a.mu.Lock()
						confirming = false
						if ok {
							found, foundRes, foundSeed, foundProf = v, r, seed, pr.name
						} else {
							a.unrepro = append(a.unrepro, fmt.Sprintf("profile %s seed %d: %s %s", pr.name, seed, v.Class, v.Msg))
						}
					}
				}
				a.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(start).Seconds()
	if ferr != nil && found == nil {
		fmt.Fprintf(os.Stderr, "error: %v\n", ferr)
		return 3
	}
	code := 0
	var replayPath string
	if found != nil {
		plan := makePlan(foundProf, foundSeed)
		rep := minimise(ctx, prop, plan, found, foundRes, findings, workers)
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, foundSeed))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(replayPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		fmt.Printf("%s: %s\n", rep.Class, rep.Message)
		fmt.Printf("seed %d profile %s: minimised from %d to %d steps\n", foundSeed, foundProf, rep.Original, len(rep.Plan.Ops))
		for _, o := range rep.Plan.Ops {
			fmt.Printf("  %s %v %v +%dms\n", o.K, o.S, o.N, o.D)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		code = 1
	}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	writeEvidence(prop, tier, base, a, searchS, time.Since(start).Seconds(), detRuns, hit, found, replayPath, profs)
	fmt.Printf("%d runs in %.0f s, %d distinct histories, faults %v, oracle evaluations %v\n", a.runs, searchS, len(a.states), a.faults, a.probes)
	if len(a.nondet)+len(a.undecided)+len(a.unrepro) > 0 {
		fmt.Printf("%d runs differed when repeated, %d undecided, %d violations not reproduced\n", len(a.nondet), len(a.undecided), len(a.unrepro))
		for _, l := range [][]string{a.nondet, a.undecided, a.unrepro} {
			if len(l) > 0 {
				fmt.Printf("  e.g. %s\n", tail(l[0], 1500))
			}
		}
	}
	if len(a.other) > 0 {
		fmt.Printf("outside this property: %v\n", a.other)
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(prop, tier string, seed uint64, a *agg, searchS, wall float64, det int, hit map[string]int, v *Violation, replay string, profs []*profile) {
	var names []string
	for _, p := range profs {
		names = append(names, p.name)
	}
	cov := map[string]any{
		"evaluations":          sum(a.probes),
		"distinct_nontrivial":  len(a.nontriv),
		"rule":                 "one evaluation is one application of the property's oracle to an event or final state of a simulated run; a run is non-trivial when it evaluated the oracle at least once, and two runs are distinct when their sequences of observable events differ",
		"samples":              a.samples,
		"runs":                 a.runs,
		"runs_per_hour":        int(float64(a.runs) / searchS * 3600),
		"seeds":                fmt.Sprintf("%d..%d", seed*1000003, seed*1000003+uint64(a.runs)),
		"simulated_seconds":    a.simMS / 1000,
		"workload_steps":       a.ops,
		"scheduling_decisions": a.decisions,
		"forced_preemptions":   a.yields,
		"distinct_interleavings": map[string]any{
			"measure": "distinct digests of (scheduling decisions, event trace with times)",
			"count":   len(a.digests),
		},
		"distinct_histories": map[string]any{
			"measure": "distinct sequences of messages on all simulated connections, ignoring time",
			"count":   len(a.states),
		},
		"faults_injected":       a.faults,
		"oracle_evaluations":    a.probes,
		"workload":              a.stats,
		"profiles":              a.byProfile,
		"determinism_rechecks":  det,
		"known_findings_hit":    hit,
		"violations_outside":    a.other,
		"nondeterministic_runs": len(a.nondet),
		"undecided_runs":        len(a.undecided),
		"unreproduced":          a.unrepro,
		"real_components":       []string{"soju server, user, upstream, downstream, service, message stores, database layer, file upload and identd code from /repo", "SQLite (compiled in)", "Go runtime scheduler, timers, net/http, database/sql under the seeded overlay"},
		"stub_components":       []string{"TCP network (in-process, seeded latency, segmentation, stalls and resets)", "IRC servers and clients (model implementations)", "clock (virtual)", "entropy (seeded)", "bcrypt work factor reduced", "Web Push endpoints (in-process HTTP)"},
	}
	if v != nil {
		cov["violation"] = v
		cov["replay"] = replay
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// confirm repeats the run of a violation in a fresh process.
func confirm(ctx context.Context, prop, prof string, seed uint64, v *Violation, fs []finding) bool {
	r, err := child(ctx, nil, "run", prof, strconv.FormatUint(seed, 10))
	if err != nil {
		return false
	}
	if strings.HasPrefix(r.Err, "set-up failed") {
		return v.Class == "startup"
	}
	for i := range r.Viol {
		if nv := rename(prop, r.Viol[i]); relevant(prop, &r.Viol[i]) && nv.Class == v.Class && known(fs, &nv) == nil {
			return true
		}
	}
	return false
}

// minimise shrinks the plan while the same violation class persists.
func minimise(ctx context.Context, prop string, plan *Plan, v *Violation, r0 *Result, fs []finding, workers int) *Replay {
	deadline := time.Now().Add(45 * time.Second)
	try := func(p *Plan) (*Result, *Violation) {
		b, _ := json.Marshal(p)
		r, err := child(ctx, b, "exec", "-")
		if err != nil {
			return nil, nil
		}
		for i := range r.Viol {
			if nv := rename(prop, r.Viol[i]); relevant(prop, &r.Viol[i]) && nv.Class == v.Class && known(fs, &nv) == nil {
				return r, &nv
			}
		}
		return nil, nil
	}
	best, bv := r0, v
	orig := len(plan.Ops)
	cur := clonePlan(plan)
	if v.Class == "endless-run" || v.Class == "startup" {
		deadline = time.Now() // too slow to shrink, or independent of the steps
	}
	// tryAll runs candidates in parallel and takes the first that still fails.
	tryAll := func(cands []*Plan) bool {
		for i := 0; i < len(cands); i += workers {
			if time.Now().After(deadline) {
				return false
			}
			end := i + workers
			if end > len(cands) {
				end = len(cands)
			}
			rs := make([]*Result, end-i)
			vs := make([]*Violation, end-i)
			var wg sync.WaitGroup
			for j := i; j < end; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					rs[j-i], vs[j-i] = try(cands[j])
				}(j)
			}
			wg.Wait()
			for j := range rs {
				if rs[j] != nil {
					cur, best, bv = cands[i+j], rs[j], vs[j]
					return true
				}
			}
		}
		return false
	}
	// drop steps
	for size := len(cur.Ops) / 2; size >= 1; {
		var cands []*Plan
		for i := 0; i < len(cur.Ops); i += size {
			c := clonePlan(cur)
			end := i + size
			if end > len(c.Ops) {
				end = len(c.Ops)
			}
			c.Ops = append(append([]Op{}, c.Ops[:i]...), c.Ops[end:]...)
			cands = append(cands, c)
		}
		if time.Now().After(deadline) {
			break
		}
		if tryAll(cands) {
			if size > len(cur.Ops) {
				size = len(cur.Ops)
			}
			if size == 0 {
				break
			}
			continue
		}
		size /= 2
	}
	// simplify the rest
	simplify := []func(p *Plan) bool{
		func(p *Plan) bool { ok := p.YieldProb != 0; p.YieldProb = 0; return ok },
		func(p *Plan) bool { ok := p.Cfg.LatMS != 0; p.Cfg.LatMS = 0; return ok },
		func(p *Plan) bool { ok := p.Cfg.Chunk; p.Cfg.Chunk = false; return ok },
		func(p *Plan) bool { ok := p.Cfg.SQLDelayMS != 0; p.Cfg.SQLDelayMS = 0; return ok },
		func(p *Plan) bool { ok := p.Cfg.SQLErrPct != 0; p.Cfg.SQLErrPct = 0; return ok },
	}
	for _, f := range simplify {
		if time.Now().After(deadline) {
			break
		}
		c := clonePlan(cur)
		if f(c) {
			tryAll([]*Plan{c})
		}
	}
	for i := range cur.Ops {
		if time.Now().After(deadline) {
			break
		}
		var cands []*Plan
		if cur.Ops[i].D > 0 {
			c := clonePlan(cur)
			c.Ops[i].D = 0
			cands = append(cands, c)
		}
		for k := range cur.Ops[i].N {
			if cur.Ops[i].N[k] > 1 {
				c := clonePlan(cur)
				c.Ops[i].N[k] = 1
				cands = append(cands, c)
			}
		}
		tryAll(cands)
	}
	return &Replay{Property: prop, Class: bv.Class, Message: bv.Msg, Seed: plan.Seed, Digest: best.Digest, Plan: cur, Original: orig, Viol: best.Viol, Trace: best.Trace}
}

// replayMain re-executes a replay file and compares with what it records.
func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil || rep.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file")
		return 3
	}
	r, err := child(context.Background(), b, "exec", "-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	for i := range r.Viol {
		nv := rename(rep.Property, r.Viol[i])
		if nv.Prop == rep.Property && nv.Class == rep.Class {
			same := "identical schedule and history"
			if r.Digest != rep.Digest {
				same = "the code or the simulator changed since: different history"
			}
			fmt.Printf("%s: %s (%s)\n", nv.Class, nv.Msg, same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, args[0])
			return 1
		}
	}
	keys := make([]string, 0)
	for _, v := range r.Viol {
		keys = append(keys, v.Prop+" "+v.Class)
	}
	sort.Strings(keys)
	fmt.Printf("not reproduced on this tree (other violations: %v)\n", keys)
	return 0
}
