// Package zzharness drives the instrumented copy of the code under test. Each check binary holds the scenarios of one
// property; a parent process hands them to worker processes and collects what they cover and find.
package zzharness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"zzmc/mc"
)

// Property is set by the file of the property under check.
type Property struct {
	ID    string
	Rule  string // what is enumerated
	Scns  func() []mc.Scenario
	Notes []string
}

var prop *Property

// Thorough selects the deeper bounds.
var Thorough bool

// mainFn is the instrumented program's main, for the HTTP check.
var mainFn func()

// known holds the ids of the listed findings.
var known = map[string]bool{}

func pick(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

type job struct {
	Idx   int     `json:"i"`
	Limit float64 `json:"l"` // seconds
	// replay
	Picks []byte `json:"p,omitempty"`
	Rep   bool   `json:"r,omitempty"`
	Trace bool   `json:"t,omitempty"`
	Log   string `json:"g,omitempty"`
}

type jobRes struct {
	Idx   int
	Res   *mc.Result
	Fail  *mc.Failure
	Trace []string
	Div   string
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Notes    []string `json:"notes,omitempty"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace,omitempty"`
}

func worker() {
	debug.SetGCPercent(400)
	scns := prop.Scns()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var cur jobRes
	var busy atomic.Bool
	go func() { // an execution that makes no step at all any more
		last, n := uint64(0), 0
		for {
			time.Sleep(time.Second)
			p := atomic.LoadUint64(&mc.Progress)
			if p != last || !busy.Load() {
				last, n = p, 0
				continue
			}
			if n++; n < 40 {
				continue
			}
			picks, where := mc.Stuck()
			f := mc.Failure{Kind: "hang", Msg: "no step for 40 s of real time; running " + where}
			r := jobRes{Idx: cur.Idx, Fail: &f}
			r.Res = &mc.Result{Fails: []mc.Found{{Kind: f.Kind, Msg: f.Msg, Picks: picks}}}
			enc.Encode(&r)
			out.Flush()
			os.Exit(0)
		}
	}()
	for in.Scan() {
		var j job
		if json.Unmarshal(in.Bytes(), &j) != nil {
			return
		}
		r := jobRes{Idx: j.Idx}
		cur = r
		mc.OnRun = nil
		if j.Log != "" {
			mc.OnRun = func(p []uint8) { os.WriteFile(j.Log, p, 0644) }
		}
		busy.Store(true)
		if j.Rep {
			r.Fail, r.Trace, r.Div = mc.Replay(scns[j.Idx], j.Picks, j.Trace)
		} else {
			r.Res = mc.Explore(scns[j.Idx], time.Now().Add(time.Duration(j.Limit*float64(time.Second))), 2)
		}
		busy.Store(false)
		enc.Encode(&r)
		out.Flush()
		runtime.GC()
	}
}

type wproc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	err *strings.Builder
}

func spawn(args []string) (*wproc, error) {
	w := &wproc{err: &strings.Builder{}}
	w.cmd = exec.Command("/proc/self/exe", append([]string{"worker"}, args...)...)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3000MiB")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.cmd.Stderr = w.err
	i, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in = json.NewEncoder(i)
	w.out = json.NewDecoder(bufio.NewReaderSize(o, 1<<16))
	return w, w.cmd.Start()
}

func (w *wproc) do(j job) (*jobRes, error) {
	if err := w.in.Encode(j); err != nil {
		return nil, fmt.Errorf("worker: %v: %s", err, tail(w.err.String()))
	}
	var r jobRes
	if err := w.out.Decode(&r); err != nil {
		w.cmd.Wait()
		return nil, fmt.Errorf("worker ended: %v: %s", err, tail(w.err.String()))
	}
	return &r, nil
}

func (w *wproc) stop() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// Main is the entry point of a check binary.
func Main(mainFunc func()) {
	mainFn = mainFunc
	args := os.Args[1:]
	cmd := "check"
	if len(args) > 0 {
		cmd = args[0]
		args = args[1:]
	}
	opt := map[string]string{"tier": "quick", "seed": "1", "limit": "300", "jobs": "8", "level": "3"}
	var rest []string
	for i := 0; i < len(args); i++ {
		if strings.HasPrefix(args[i], "-") && i+1 < len(args) {
			opt[strings.TrimLeft(args[i], "-")] = args[i+1]
			i++
		} else {
			rest = append(rest, args[i])
		}
	}
	Thorough = opt["tier"] == "thorough"
	for _, k := range strings.Split(opt["known"], ",") {
		if k != "" {
			known[k] = true
		}
	}
	pass := []string{"-tier", opt["tier"], "-known", opt["known"]}
	switch cmd {
	case "worker":
		worker()
	case "check":
		os.Exit(check(opt, pass))
	case "list":
		for i, s := range prop.Scns() {
			fmt.Println(i, s.Name)
		}
	case "replay":
		os.Exit(replay(opt, pass, rest[0]))
	case "run": // one scenario, in this process
		if pf := os.Getenv("ZZPROF"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		for _, s := range prop.Scns() {
			if len(rest) > 0 && s.Name != rest[0] && !(strings.HasSuffix(rest[0], "*") && strings.HasPrefix(s.Name, strings.TrimSuffix(rest[0], "*"))) {
				continue
			}
			lim, _ := strconv.ParseFloat(opt["limit"], 64)
			r := mc.Explore(s, time.Now().Add(time.Duration(lim*1e9)), 2)
			fmt.Printf("%-40s execs=%d pruned=%d steps=%d states=%d maxsteps=%d exh=%v left=%d low=%d [%s] %.2fs crashes=%d known=%v div=%q\n", s.Name, r.Execs, r.Pruned, r.Steps, r.States, r.MaxSteps, r.Exhaustive, r.Left, r.LowBound, r.Budget, r.Wall, r.Crashes, r.Known, r.Diverged)
			if len(r.Outcomes) > 0 {
				fmt.Println("   outcomes", len(r.Outcomes), head(r.Outcomes))
			}
			for _, f := range r.Fails {
				fmt.Println("   FAIL", f.Kind, f.Msg, f.Notes, f.Picks)
			}
			if opt["v"] != "" {
				for _, x := range r.Samples {
					fmt.Println("   ", x)
				}
			}
		}
	}
}

func head(m map[string]int) string {
	s := ""
	for i, k := range mc.Keys2(m) {
		if i > 8 {
			break
		}
		s += fmt.Sprintf(" %s:%d", k, m[k])
	}
	return s
}

type scnCov struct {
	Name       string `json:"scenario"`
	Execs      int    `json:"executions"`
	Pruned     int    `json:"cut_at_explored_state"`
	States     int    `json:"states"`
	Steps      int64  `json:"steps"`
	MaxSteps   int    `json:"longest"`
	Bounds     string `json:"bounds"`
	Exhaustive bool   `json:"exhaustive"`
	LowBound   int    `json:"complete_up_to_deviations,omitempty"`
	Crashes    int64  `json:"crashes,omitempty"`
	Outcomes   int    `json:"distinct_outcomes,omitempty"`
}

type violation struct {
	idx  int
	name string
	f    mc.Found
}

func check(opt map[string]string, pass []string) int {
	t0 := time.Now()
	lim, _ := strconv.ParseFloat(opt["limit"], 64)
	W, _ := strconv.Atoi(opt["jobs"])
	if n := runtime.NumCPU(); W > n {
		W = n
	}
	scns := prop.Scns()
	if W > len(scns) {
		W = len(scns)
	}
	deadline := t0.Add(time.Duration(lim * 1e9))
	results := make([]*mc.Result, len(scns))
	var viol []violation
	var mu sync.Mutex
	next := 0
	var werr error
	var errs []string
	var wg sync.WaitGroup
	running := map[int]*wproc{}
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var p *wproc
			tries := 0
			for {
				mu.Lock()
				if next >= len(scns) || len(viol) > 0 {
					mu.Unlock()
					break
				}
				i := next
				next++
				left := time.Until(deadline).Seconds()
				per := left * float64(W) / float64(len(scns)-i) * 2
				mu.Unlock()
				if per > left {
					per = left
				}
				if per < 0.3 {
					per = 0.3
				}
			again:
				if p == nil {
					var err error
					if p, err = spawn(pass); err != nil {
						mu.Lock()
						werr = err
						mu.Unlock()
						return
					}
					mu.Lock()
					running[w] = p
					mu.Unlock()
				}
				jb := job{Idx: i, Limit: per}
				if tries > 0 {
					jb.Log = filepath.Join(os.TempDir(), fmt.Sprintf("zz-prefix-%d-%d", os.Getpid(), i))
				}
				r, err := p.do(jb)
				var pre []byte
				if jb.Log != "" {
					pre, _ = os.ReadFile(jb.Log)
					os.Remove(jb.Log)
				}
				if err != nil {
					mu.Lock()
					stop := len(viol) > 0
					mu.Unlock()
					if stop {
						return
					}
					p.stop()
					p = nil
					tries++
					mu.Lock()
					errs = append(errs, scns[i].Name+": "+err.Error())
					mu.Unlock()
					if tries < 2 {
						goto again
					}
					tries = 0
					// died twice in the same scenario, the second time in this execution
					mu.Lock()
					viol = append(viol, violation{i, scns[i].Name, mc.Found{Kind: "died", Msg: err.Error(), Picks: pre}})
					mu.Unlock()
					return
				}
				tries = 0
				mu.Lock()
				results[i] = r.Res
				if len(r.Res.Fails) > 0 && len(viol) == 0 {
					for _, f := range r.Res.Fails {
						viol = append(viol, violation{i, scns[i].Name, f})
					}
					for k, q := range running {
						if k != w {
							q.cmd.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
			if p != nil {
				p.stop()
			}
		}(w)
	}
	wg.Wait()
	if werr != nil {
		fmt.Fprintln(os.Stderr, "cannot start workers:", werr)
		return 2
	}
	// confirm violations
	var rep *replayFile
	unrepro := 0
	if len(viol) > 0 {
		p, err := spawn(pass)
		if err == nil {
			for _, v := range viol {
				ok := 0
				var tr *jobRes
				for k := 0; k < 4; k++ {
					if p == nil {
						if p, err = spawn(pass); err != nil {
							break
						}
					}
					r, err := p.do(job{Idx: v.idx, Picks: v.f.Picks, Rep: true, Trace: k == 3})
					if err != nil {
						p.stop()
						p = nil
						if v.f.Kind == "died" && !strings.Contains(err.Error(), "signal: killed") {
							ok++
							tr = &jobRes{}
						}
						continue
					}
					if v.f.Kind == "hang" {
						p.stop()
						p = nil
					}
					if r.Fail != nil {
						ok++
						tr = r
					}
				}
				if ok > 0 {
					rep = &replayFile{Property: prop.ID, Tier: opt["tier"], Scenario: v.name, Kind: v.f.Kind, Message: v.f.Msg, Notes: v.f.Notes}
					for _, c := range v.f.Picks {
						rep.Choices = append(rep.Choices, int(c))
					}
					rep.Trace = tr.Trace
					if n := len(rep.Trace); n > 1500 {
						rep.Trace = append(append([]string{}, rep.Trace[:300]...), rep.Trace[n-1200:]...)
					}
					break
				}
				unrepro++
			}
			if p != nil {
				p.stop()
			}
		}
	}
	// evidence
	var cov []scnCov
	tot := mc.Result{Known: map[string]int{}, Outcomes: map[string]int{}}
	exh := true
	done := 0
	var samples []any
	var div []string
	for i, r := range results {
		if r == nil {
			exh = false
			continue
		}
		done++
		tot.Execs += r.Execs
		tot.Pruned += r.Pruned
		tot.Steps += r.Steps
		tot.Points += r.Points
		tot.States += r.States
		tot.Crashes += r.Crashes
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if !r.Exhaustive {
			exh = false
		}
		if r.Diverged != "" {
			div = append(div, scns[i].Name+": "+r.Diverged)
		}
		cov = append(cov, scnCov{scns[i].Name, r.Execs, r.Pruned, r.States, r.Steps, r.MaxSteps, strings.TrimSpace(r.Budget), r.Exhaustive, r.LowBound, r.Crashes, len(r.Outcomes)})
		if len(r.Samples) > 0 && (i < 3 || i%(len(scns)/8+1) == 0) {
			samples = append(samples, map[string]any{"scenario": scns[i].Name, "execution": r.Samples[len(r.Samples)-1]})
		}
	}
	nsc := len(cov)
	if len(cov) > 60 {
		sort.SliceStable(cov, func(a, b int) bool { return cov[a].Execs > cov[b].Execs })
		cov = cov[:60]
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	seed, _ := strconv.Atoi(opt["seed"])
	nv := 0
	if rep != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": prop.ID, "tier": opt["tier"], "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Steps, "traces_validated_against_impl": tot.Execs,
			"executions_cut_at_explored_state": tot.Pruned, "choices_resolved": tot.Points, "crashes_injected": tot.Crashes,
			"scenarios": nsc, "scenarios_planned": len(scns), "exhaustive": exh && len(errs) == 0 && rep == nil,
			"per_scenario": cov, "samples": samples, "rule": prop.Rule,
			"explanation": "Every execution is a run of the real code (instrumented copy of /repo's working tree at access level " + opt["level"] + ") under the controlled scheduler, virtual clock and in-memory file system; states are distinct happens-before histories of reached states, transitions are executed visible operations. Bounds per scenario are numbers of deviations from the default choice, per class.",
		},
		"assumptions": append([]string{
			"sequentially consistent memory (data races are reported, not explored beyond)",
			"a crash is the death of the process at a file operation, possibly with part of a write done; completed operations survive",
			"one process at a time has the store's folder open",
		}, prop.Notes...),
		"wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	if len(errs) > 0 {
		ev["errors"] = errs
	}
	if len(div) > 0 {
		ev["diverged"] = div
	}
	if unrepro > 0 {
		ev["unreproduced"] = unrepro
	}
	if opt["evidence"] != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(opt["evidence"]), 0755)
		if err := os.WriteFile(opt["evidence"], append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d scenarios (%d done), %d executions, %d cut, %d states, %d steps, %d crashes, exhaustive=%v, %.1fs\n",
		prop.ID, opt["tier"], len(scns), done, tot.Execs, tot.Pruned, tot.States, tot.Steps, tot.Crashes, exh, time.Since(t0).Seconds())
	for _, e := range errs {
		fmt.Println("error:", e)
	}
	for _, d := range div {
		fmt.Println("diverged:", d)
	}
	if unrepro > 0 {
		fmt.Println("not reproduced:", unrepro, viol[0].name, viol[0].f.Kind, viol[0].f.Msg)
	}
	for _, k := range mc.Keys2(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d executions)\n", prop.ID, k, tot.Known[k])
	}
	if rep != nil {
		path := filepath.Join(opt["replays"], prop.ID+"-"+opt["tier"]+".json")
		b, _ := json.MarshalIndent(rep, "", " ")
		os.MkdirAll(opt["replays"], 0755)
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("scenario %s: %s: %s\n", rep.Scenario, rep.Kind, rep.Message)
		for _, n := range rep.Notes {
			fmt.Println("  ", n)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		return 1
	}
	if len(errs) > 0 && done == 0 {
		return 2
	}
	return 0
}

func replay(opt map[string]string, pass []string, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep replayFile
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	Thorough = rep.Tier == "thorough"
	for _, s := range prop.Scns() {
		if s.Name == rep.Scenario {
			var picks []byte
			for _, c := range rep.Choices {
				picks = append(picks, byte(c))
			}
			f, tr, div := mc.Replay(s, picks, true)
			for _, l := range tr {
				fmt.Println(l)
			}
			if div != "" {
				fmt.Println("diverged:", div)
			}
			if f != nil {
				fmt.Printf("%s: %s\n", f.Kind, f.Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
				return 1
			}
			fmt.Println("no violation")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", rep.Scenario)
	return 2
}
