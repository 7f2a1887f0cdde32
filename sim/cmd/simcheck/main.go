// Command simcheck decides one property by seeded search over simulated runs.
//
//	simcheck -check C01 -tier quick -seed 1 -verif /verif
//	simcheck -replay FILE
//	simcheck -selftest -n 2000
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/core"
	"verifsim/rt"
)

var (
	fCheck   = flag.String("check", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "framework directory")
	fReplay  = flag.String("replay", "", "replay file")
	fWorker  = flag.Int("worker", -1, "worker number")
	fWorkers = flag.Int("workers", 8, "number of workers")
	fRuns    = flag.Int("runs", 0, "runs in all")
	fBudget  = flag.Duration("budget", 0, "time budget for the search")
	fTmp     = flag.String("tmp", "", "scratch directory")
	fMin     = flag.String("minimise", "", "plan to minimise")
	fOut     = flag.String("out", "", "where to write the minimised replay file")
	fSelf    = flag.Bool("selftest", false, "run seeds twice and compare")
	fAll     = flag.Bool("all", false, "do not stop at the first violation; list classes")
	fInstr   = flag.String("instrument", "", "instrument.json of the build")
	fVerbose = flag.Bool("v", false, "verbose replay")
	fScan    = flag.String("scan", "", "comma-separated properties: run each for -budget, stop at the first violation (for tools/mutate.py)")
	fOne     = flag.Int64("one", -1, "run a single index of -check and print it")
)

func main() {
	flag.Parse()
	rt.Main()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	switch {
	case *fWorker >= 0:
		worker()
	case *fMin != "":
		minimise()
	case *fReplay != "":
		replay()
	case *fOne >= 0:
		one()
	case *fScan != "":
		scan()
	case *fSelf:
		selftest()
	default:
		check()
	}
}

func die(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(code)
}

// ---- worker ----

type found struct {
	Plan  *core.Plan       `json:"plan"`
	Viol  core.Violation   `json:"violation"`
	All   []core.Violation `json:"all"`
	Hash  uint64           `json:"hash"`
	Dec   []rt.Dec         `json:"decisions"`
	Race  string           `json:"race,omitempty"`
	Count int              `json:"count"`
}

type report struct {
	Worker   int               `json:"worker"`
	Runs     int               `json:"runs"`
	Ops      int64             `json:"ops"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	SimNS    int64             `json:"sim_ns"`
	Conc     int               `json:"concurrent_runs"`
	Faulty   int               `json:"faulty_runs"`
	Fired    map[string]int    `json:"fired"`
	Cover    map[string]int    `json:"cover"`
	Other    map[string]int    `json:"other"`
	Known    map[string]int    `json:"known"`
	Found    []*found          `json:"found"`
	Classes  map[string]int    `json:"classes"`
	Hashes   map[uint64]uint64 `json:"hashes"`
	Samples  []json.RawMessage `json:"samples"`
	WallS    float64           `json:"wall_s"`
	PoolNew  int64             `json:"pool_new"`
	PoolUse  int64             `json:"pool_reuse"`
}

var current atomic.Int64
var progress atomic.Int64

func watchdog(limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "simcheck: run %d of %s makes no progress; goroutines:\n%s\n", current.Load(), *fCheck, buf[:n])
			os.Exit(3)
		}
	}
}

func knownClasses() map[string]bool {
	m := map[string]bool{}
	for _, k := range readKnown() {
		if k.prop == *fCheck {
			m[k.class] = true
		}
	}
	return m
}

func raceText() string {
	opts := os.Getenv("GORACE")
	for _, f := range strings.Fields(opts) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if err != nil {
				return ""
			}
			t := string(b)
			if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
				t = t[i:]
			}
			if len(t) > 2500 {
				t = t[:2500]
			}
			return t
		}
	}
	return ""
}

const detSample = 24

func worker() {
	go watchdog(60 * time.Second)
	rep := &report{Worker: *fWorker, Fired: map[string]int{}, Cover: map[string]int{}, Other: map[string]int{}, Known: map[string]int{}, Classes: map[string]int{}, Hashes: map[uint64]uint64{}}
	known := knownClasses()
	start := time.Now()
	hf, err := os.Create(filepath.Join(*fTmp, fmt.Sprintf("hash.%d", *fWorker)))
	if err != nil {
		die(2, "%v", err)
	}
	hw := bufio.NewWriterSize(hf, 1<<16)
	var b8 [8]byte
	cf, err := os.Create(filepath.Join(*fTmp, fmt.Sprintf("cur.%d", *fWorker)))
	if err != nil {
		die(2, "%v", err)
	}
	W := uint64(*fWorkers)
	stopFile := filepath.Join(*fTmp, "stop")
	for k := uint64(0); ; k++ {
		idx := k*W + uint64(*fWorker)
		if *fRuns > 0 && idx >= uint64(*fRuns) {
			break
		}
		if *fBudget > 0 && k%16 == 0 && time.Since(start) > *fBudget {
			break
		}
		if k%64 == 0 {
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
		}
		current.Store(int64(idx))
		progress.Add(1)
		binary.LittleEndian.PutUint64(b8[:], idx)
		cf.WriteAt(b8[:], 0) // for the parent, should this run take the process down
		p := core.Gen(*fCheck, *fSeed, idx)
		o := p.Run(false)
		r := o.RT()
		rep.Runs++
		rep.Ops += int64(o.Ops)
		rep.Steps += int64(r.Steps)
		rep.Switches += int64(r.Switches)
		rep.SimNS += r.SimTime
		nontrivial := o.Ops >= 3 && (o.Tasks > 1 || o.Faults > 0)
		if o.Tasks > 1 {
			rep.Conc++
		}
		if o.Faults > 0 {
			rep.Faulty++
		}
		for f, n := range o.Fired {
			rep.Fired[f] += n
		}
		for _, c := range o.Cover {
			rep.Cover[c]++
		}
		if nontrivial {
			binary.LittleEndian.PutUint64(b8[:], o.Hash)
			hw.Write(b8[:])
		}
		if k < detSample {
			rep.Hashes[idx] = o.Hash
		}
		if len(rep.Samples) < 1 && nontrivial && k > 5 {
			s, _ := json.Marshal(map[string]any{"run": idx, "plan": p, "steps": r.Steps, "task_switches": r.Switches, "simulated_us": r.SimTime / 1000, "faults_fired": o.Fired, "trace_hash": fmt.Sprintf("%016x", o.Hash)})
			if len(s) < 6000 {
				rep.Samples = append(rep.Samples, s)
			}
		}
		if len(o.Viol) == 0 {
			continue
		}
		for _, v := range o.Viol {
			if !v.Has(*fCheck) {
				rep.Other[v.Class]++
				continue
			}
			if known[v.Class] {
				rep.Known[v.Class]++
				continue
			}
			rep.Classes[v.Class]++
			if rep.Classes[v.Class] == 1 && len(rep.Found) < 12 {
				f := &found{Plan: p, Viol: v, All: o.Viol, Hash: o.Hash, Dec: r.Recorded}
				if v.Class == "data-race" {
					f.Race = raceText()
				}
				rep.Found = append(rep.Found, f)
			}
		}
		if len(rep.Found) > 0 && !*fAll {
			os.WriteFile(stopFile, nil, 0o644)
			break
		}
	}
	// Runs of the neighbouring worker, to be compared with its own hashes.
	if len(rep.Found) == 0 {
		for k := uint64(0); k < detSample; k++ {
			idx := k*W + (uint64(*fWorker)+1)%W
			if *fRuns > 0 && idx >= uint64(*fRuns) {
				break
			}
			current.Store(int64(idx))
			progress.Add(1)
			o := core.Gen(*fCheck, *fSeed, idx).Run(false)
			rep.Hashes[idx] = o.Hash
		}
	}
	rep.WallS = time.Since(start).Seconds()
	rep.PoolNew, rep.PoolUse = rt.PoolNews, rt.PoolReuses
	hw.Flush()
	hf.Close()
	data, err := json.Marshal(rep)
	if err != nil {
		die(2, "%v", err)
	}
	if err := os.WriteFile(filepath.Join(*fTmp, fmt.Sprintf("report.%d", *fWorker)), data, 0o644); err != nil {
		die(2, "%v", err)
	}
}

// ---- parent ----

type knownFinding struct{ prop, class, text string }

// readKnown reads the "known:" lines of the committed file.
func readKnown() []knownFinding {
	data, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		var k knownFinding
		rest := []string{}
		for _, f := range strings.Fields(line[len("known:"):]) {
			if v, ok := strings.CutPrefix(f, "property="); ok && k.prop == "" {
				k.prop = v
			} else if v, ok := strings.CutPrefix(f, "class="); ok && k.class == "" {
				k.class = v
			} else {
				rest = append(rest, f)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

type budget struct {
	runs int
	time time.Duration
}

func plannedBudget() budget {
	b := budget{120000, 25 * time.Second}
	if *fTier == "thorough" {
		b = budget{40000000, 420 * time.Second}
	}
	if *fRuns > 0 {
		b.runs = *fRuns
	}
	if *fBudget > 0 {
		b.time = *fBudget
	}
	return b
}

func child(args []string, tmp string, procs string) *exec.Cmd {
	self, err := os.Executable()
	if err != nil {
		die(2, "%v", err)
	}
	c := exec.Command(self, args...)
	c.Env = append(os.Environ(), "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "race"), "GOMAXPROCS="+procs)
	return c
}

func common(tmp string) []string {
	return []string{"-check", *fCheck, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-tmp", tmp}
}

func check() {
	if *fCheck == "" {
		die(2, "simcheck: -check is required")
	}
	start := time.Now()
	tmp, err := os.MkdirTemp(*fTmp, "run")
	if err != nil {
		die(2, "%v", err)
	}
	code := func() int {
		defer os.RemoveAll(tmp)
		return doCheck(tmp, start)
	}()
	os.Exit(code)
}

func doCheck(tmp string, start time.Time) int {
	b := plannedBudget()
	W := *fWorkers
	var wg sync.WaitGroup
	errs := make([]string, W)
	for i := 0; i < W; i++ {
		i := i
		args := append(common(tmp), "-worker", fmt.Sprint(i), "-workers", fmt.Sprint(W), "-runs", fmt.Sprint(b.runs), "-budget", b.time.String())
		if *fAll {
			args = append(args, "-all")
		}
		c := child(args, tmp, "1")
		var sb strings.Builder
		c.Stderr = &sb
		c.Stdout = os.Stdout
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := c.Run(); err != nil {
				errs[i] = fmt.Sprintf("worker %d: %v\n%s", i, err, tail(sb.String(), 6000))
				os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644)
			}
		}()
	}
	wg.Wait()
	var reps []*report
	for i := 0; i < W; i++ {
		data, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("report.%d", i)))
		if err != nil {
			continue
		}
		r := &report{}
		if err := json.Unmarshal(data, r); err != nil {
			errs[i] = err.Error()
			continue
		}
		reps = append(reps, r)
	}
	searchWall := time.Since(start).Seconds()
	var founds []*found
	classes := map[string]int{}
	other := map[string]int{}
	known := map[string]int{}
	for _, r := range reps {
		founds = append(founds, r.Found...)
		for c, n := range r.Classes {
			classes[c] += n
		}
		for c, n := range r.Other {
			other[c] += n
		}
		for c, n := range r.Known {
			known[c] += n
		}
	}
	// Same seed, same run: compare what different workers got.
	hashes := map[uint64]uint64{}
	compared := 0
	diverged := []uint64{}
	for _, r := range reps {
		for idx, h := range r.Hashes {
			if old, ok := hashes[idx]; ok {
				compared++
				if old != h {
					diverged = append(diverged, idx)
				}
			}
			hashes[idx] = h
		}
	}
	for c, n := range other {
		fmt.Printf("note: %d runs broke another property only (%s)\n", n, c)
	}
	for _, k := range readKnown() {
		if k.prop == *fCheck {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d of this check's runs)\n", k.prop, k.text, known[k.class])
		}
	}
	code := 0
	replayPath := ""
	if len(founds) == 0 {
		for i, e := range errs {
			if e == "" {
				continue
			}
			if f := crashed(i, tmp); f != nil {
				replayPath = writeCrash(f)
				errs[i] = ""
				classes[f.Viol.Class]++
				code = 1
				break
			}
		}
	}
	if len(founds) > 0 {
		sort.Slice(founds, func(i, j int) bool {
			a, _ := json.Marshal(founds[i].Plan)
			b, _ := json.Marshal(founds[j].Plan)
			return len(a) < len(b)
		})
		if *fAll {
			for _, f := range founds {
				fmt.Printf("class %s (%d) run %d: %s\n", f.Viol.Class, classes[f.Viol.Class], f.Plan.Index, f.Viol.Detail)
				if f.Race != "" {
					fmt.Println(f.Race)
				}
			}
		}
		replayPath = writeReplay(founds[0], tmp)
		code = 1
	}
	if code == 0 {
		for i, e := range errs {
			if e != "" {
				fmt.Fprintf(os.Stderr, "simcheck: trouble in worker %d: %s\n", i, e)
				code = 2
			}
		}
		if len(diverged) > 0 {
			fmt.Fprintf(os.Stderr, "warning: runs %v did not repeat exactly\n", diverged)
		}
	}
	violations := len(founds)
	if code == 1 && violations == 0 {
		violations = 1
	}
	evidence(reps, tmp, start, searchWall, violations, compared, len(diverged), classes, other, known)
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fCheck, replayPath)
	} else if code == 0 {
		n := 0
		for _, r := range reps {
			n += r.Runs
		}
		fmt.Printf("property %s held in %d simulated runs (%.0f s)\n", *fCheck, n, time.Since(start).Seconds())
	}
	return code
}

// crashed looks at a worker that died: if the run it was in takes a fresh
// process down as well, the code under test did it.
func crashed(i int, tmp string) *found {
	data, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("cur.%d", i)))
	if err != nil || len(data) < 8 {
		return nil
	}
	idx := binary.LittleEndian.Uint64(data)
	c := child(append(common(tmp), "-one", fmt.Sprint(idx)), tmp, "1")
	var sb strings.Builder
	c.Stderr = &sb
	err = c.Run()
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return nil
	}
	what := "process-crash"
	if ee.ExitCode() == 3 {
		what = "no-progress"
	}
	text := sb.String()
	if len(text) > 1500 {
		text = text[:1500]
	}
	return &found{Plan: core.Gen(*fCheck, *fSeed, idx), Viol: core.Violation{Class: what, Props: []string{*fCheck}, Detail: "the run takes the process down, twice: " + text}}
}

func writeCrash(f *found) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", *fCheck, f.Plan.Seed, f.Plan.Index))
	rf := replayFile{Property: *fCheck, Violation: f.Viol, Hash: "none: the process does not survive the run", Plan: f.Plan, Minimised: "no", How: how(path)}
	data, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, data, 0o644)
	fmt.Printf("violation %s: %s\n", f.Viol.Class, f.Viol.Detail)
	return path
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type replayFile struct {
	Property  string         `json:"property"`
	Violation core.Violation `json:"violation"`
	Hash      string         `json:"trace_hash"`
	Plan      *core.Plan     `json:"plan"`
	Race      string         `json:"race,omitempty"`
	Minimised string         `json:"minimised"`
	How       string         `json:"how_to_replay"`
	Trace     []string       `json:"trace,omitempty"`
}

func writeReplay(f *found, tmp string) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", *fCheck, f.Plan.Seed, f.Plan.Index))
	raw := filepath.Join(tmp, "found.json")
	data, _ := json.Marshal(f)
	os.WriteFile(raw, data, 0o644)
	c := child(append(common(tmp), "-minimise", raw, "-out", path), tmp, "1")
	c.Stderr = os.Stderr
	c.Stdout = os.Stdout
	if err := c.Run(); err != nil {
		// Keep the unminimised run.
		rf := replayFile{Property: *fCheck, Violation: f.Viol, Hash: fmt.Sprintf("%016x", f.Hash), Plan: f.Plan, Race: f.Race, Minimised: "no: " + err.Error(), How: how(path)}
		data, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, data, 0o644)
	}
	v := child(append(common(tmp), "-replay", path), tmp, "1")
	out, err := v.CombinedOutput()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		fmt.Printf("replay in a fresh process reproduces it exactly\n")
	} else {
		fmt.Printf("warning: replay in a fresh process: %v\n%s\n", err, tail(string(out), 2000))
	}
	var rf replayFile
	if data, err := os.ReadFile(path); err == nil && json.Unmarshal(data, &rf) == nil {
		fmt.Printf("violation %s: %s\n", rf.Violation.Class, rf.Violation.Detail)
	}
	return path
}

func how(path string) string {
	return "cd /verif && ./check.sh replay " + path
}

func replay() {
	go watchdog(120 * time.Second)
	data, err := os.ReadFile(*fReplay)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		die(2, "%v", err)
	}
	o := rf.Plan.Run(true)
	if *fVerbose {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	ok := false
	for _, v := range o.Viol {
		fmt.Printf("%s %v: %s\n", v.Class, v.Props, v.Detail)
		if v.Class == rf.Violation.Class {
			ok = true
			if v.Class == "data-race" {
				fmt.Println(raceText())
			}
		}
	}
	h := fmt.Sprintf("%016x", o.Hash)
	fmt.Printf("trace hash %s, recorded %s\n", h, rf.Hash)
	if ok && h == rf.Hash {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *fReplay)
		os.Exit(1)
	}
	if ok {
		fmt.Println("the violation is reproduced, but not the identical trace")
		os.Exit(1)
	}
	fmt.Println("not reproduced on this tree")
}

func one() {
	go watchdog(60 * time.Second)
	p := core.Gen(*fCheck, *fSeed, uint64(*fOne))
	js, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(js))
	o := p.Run(true)
	if *fVerbose {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	for _, v := range o.Viol {
		fmt.Printf("%s %v: %s\n", v.Class, v.Props, v.Detail)
	}
	fmt.Printf("outcome %v steps %d switches %d hash %016x cover %v fired %v\n", o.RT().Outcome, o.RT().Steps, o.RT().Switches, o.Hash, o.Cover, o.Fired)
}

func scan() {
	go watchdog(20 * time.Second)
	for _, prop := range strings.Split(*fScan, ",") {
		*fCheck = prop
		known, start := knownClasses(), time.Now()
		for i := uint64(0); time.Since(start) < *fBudget; i++ {
			current.Store(int64(i))
			progress.Add(1)
			for _, v := range core.Gen(prop, *fSeed, i).Run(false).Viol {
				if v.Has(prop) && !known[v.Class] {
					fmt.Printf("%s run %d %s %v: %s\n", prop, i, v.Class, v.Props, v.Detail)
					os.Exit(1)
				}
			}
		}
	}
}

func selftest() {
	n := *fRuns
	if n == 0 {
		n = 3000
	}
	props := core.Claimed
	if *fCheck != "" {
		props = []string{*fCheck}
	}
	bad := 0
	for _, prop := range props {
		first := make([]uint64, n)
		for i := range first {
			first[i] = core.Gen(prop, *fSeed, uint64(i)).Run(false).Hash
		}
		for i := n - 1; i >= 0; i-- {
			p := core.Gen(prop, *fSeed, uint64(i))
			if i%2 == 0 { // through the replay format
				js, _ := json.Marshal(p)
				p = &core.Plan{}
				json.Unmarshal(js, p)
			}
			o := p.Run(false)
			if o.Hash != first[i] {
				bad++
				fmt.Printf("%s run %d: %016x then %016x\n", prop, i, first[i], o.Hash)
			}
			if i%5 == 0 { // recorded decisions alone repeat the run
				p.Sched.Recorded = o.RT().Recorded
				p.Sched.Strategy = 3
				if o2 := p.Run(false); o2.Hash != first[i] {
					bad++
					fmt.Printf("%s run %d: recorded decisions give %016x, not %016x\n", prop, i, o2.Hash, first[i])
				}
			}
		}
		fmt.Printf("%s: %d runs repeated\n", prop, n)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
