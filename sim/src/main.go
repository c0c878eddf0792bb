//go:debug x509usefallbackroots=1
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

var verbose bool

// scratchRoot is where simulated disks live.
func scratchRoot() string {
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		return "/dev/shm"
	}
	return os.TempDir()
}

// runPlan executes one simulated run in this process.
func runPlan(p *Plan) *Result {
	dir := fmt.Sprintf("%s/sojusim.%010d", scratchRoot(), os.Getpid())
	os.RemoveAll(dir) // left by a dead process with the same number
	if err := os.Mkdir(dir, 0o700); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	res := &Result{Seed: p.Seed, Profile: p.Profile, Ops: len(p.Ops)}
	var w *World
	dec, yields, digest := runtime.SimRun(p.Sched, p.YieldProb, func() {
		w = newWorld(p, dir)
		w.install()
		if err := w.run(); err != nil {
			res.Err = err.Error()
		}
		w.finished = true
		res.SimMS = time.Since(w.start).Milliseconds()
	})
	res.Viol = w.viol
	res.Decisions, res.Yields, res.Digest = dec, yields, digest
	res.Faults = w.net.faults
	res.Probes = w.probes
	res.Stats = w.stats
	res.State = w.stateHash()
	if len(res.Viol) > 0 || res.Err != "" || verbose || os.Getenv("SIM_TRACE") != "" {
		res.Trace = w.trace
	}
	return res
}

func (w *World) stateHash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	for _, l := range w.trace {
		// drop the time stamp: what happened, in which order
		for i := 0; i < len(l); i++ {
			if l[i] == ' ' {
				mix(l[i:])
				break
			}
		}
	}
	return h
}

func main() {
	runtime.SimInitDone()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim run|plan|exec|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run", "plan", "exec":
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
		verbose = os.Getenv("SIM_VERBOSE") != ""
		var p *Plan
		if os.Args[1] == "exec" {
			p = loadPlan(os.Args[2])
		} else {
			seed, err := strconv.ParseUint(os.Args[3], 10, 64)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			p = makePlan(os.Args[2], seed)
		}
		if os.Args[1] == "plan" {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
			return
		}
		if f := os.Getenv("SIM_PROF"); f != "" {
			g, _ := os.Create(f)
			pprof.StartCPUProfile(g)
			defer pprof.StopCPUProfile()
		}
		fmt.Println(runPlan(p).json())
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func loadPlan(path string) *Plan {
	var b []byte
	var err error
	if path == "-" {
		b, err = os.ReadFile("/dev/stdin")
	} else {
		b, err = os.ReadFile(path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err == nil && rep.Plan != nil {
		return rep.Plan
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &p
}

func verifDir() string {
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}
