package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "PRNG seed")
	fOut    = flag.String("out", "/verif", "directory with evidence/ and replays/")
	fWorker = flag.String("worker", "", "internal: shard/shards")
	fDir    = flag.String("dir", "", "internal: directory for worker files")
	fOne    = flag.String("one", "", "internal: section:case to run alone")
	fReplay = flag.String("replay", "", "replay file to rerun")
	fOnly   = flag.String("section", "", "run only sections with this prefix (debugging)")
	fEtc    = flag.String("etc", "", "path of the built etc binary")
	fSrc    = flag.String("src", "/repo", "tree the binary was built from")
	fRace   = flag.Bool("race", false, "binary was built with the race detector")
	fLevel  = flag.String("level", "exploration", "level for the evidence file")
	fAux    = flag.Bool("aux", false, "add to the evidence file of a run before this one")
	fBuildS = flag.Float64("buildsecs", 0, "seconds spent building")
)

const (
	exitViolation = 10
	exitRace      = 66
	stallLimit    = 100 * time.Second
	memLimit      = int64(5) << 29 // 2.5 GB
)

type result struct {
	Evals   int64            `json:"evals"`
	Cases   int64            `json:"cases"`
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	Fail    *failure         `json:"fail"`
}

func findProp(id string) *Prop {
	for _, p := range allProps() {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func main() {
	flag.Parse()
	if *fReplay != "" {
		os.Exit(replay())
	}
	p := findProp(*fProp)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(3)
	}
	if *fWorker != "" {
		worker(p)
		return
	}
	os.Exit(supervise(p))
}

func thorough() bool { return *fTier == "thorough" }

func (p *Prop) sections() []Section {
	out := []Section{}
	for _, s := range p.Sections {
		if strings.HasPrefix(s.Name, *fOnly) {
			out = append(out, s)
		}
	}
	return out
}

// worker runs a shard of the cases in this process and leaves its results in the worker directory.
func worker(p *Prop) {
	debug.SetMaxStack(128 << 20)
	// the collector is to work harder long before the supervisor takes the memory for a sign of an endless loop
	debug.SetMemoryLimit(memLimit / 2)
	var shard, shards int
	fmt.Sscanf(*fWorker, "%d/%d", &shard, &shards)
	prog, err := os.OpenFile(filepath.Join(*fDir, fmt.Sprintf("progress.%d", shard)), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		panic(err)
	}
	acc := &C{counts: map[string]int64{}, seen: map[uint64]struct{}{}}
	res := &result{Counts: acc.counts}
	secs := p.sections()
	var buf [16]byte
	n := 0
Loop:
	for si := range secs {
		s := &secs[si]
		for i := 0; i < s.n(thorough()); i++ {
			if *fOne != "" {
				if *fOne != fmt.Sprintf("%s:%d", s.Name, i) {
					continue
				}
			} else if n++; n%shards != shard {
				continue
			}
			binary.LittleEndian.PutUint64(buf[:8], uint64(si)+1)
			binary.LittleEndian.PutUint64(buf[8:], uint64(i))
			prog.WriteAt(buf[:], 0)
			if f := runCase(p, s, i, *fSeed, thorough(), *fOne != "" && os.Getenv(coldEnv) == "", acc); f != nil {
				// Run again with tracing to get the history.
				if *fOne == "" {
					a2 := &C{counts: map[string]int64{}, seen: map[uint64]struct{}{}}
					if f2 := runCase(p, s, i, *fSeed, thorough(), true, a2); f2 != nil {
						f = f2
					}
				}
				res.Fail = f
				break Loop
			}
			res.Cases++
			acc.counts["cases:"+s.Name]++
		}
	}
	res.Evals = acc.evals
	res.Samples = acc.samples
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	hs := make([]byte, 0, 8*len(acc.seen))
	for h := range acc.seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("seen.%d", shard)), hs, 0644)
	os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("result.%d", shard)), b, 0644)
	if res.Fail != nil {
		os.Exit(exitViolation)
	}
}

type outcome struct {
	shard  int
	res    *result
	code   int
	err    string // "", "stall", "memory"
	sec    int
	idx    int
	rss    int64
	stderr string
}

func lastLines(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// runWorker starts one worker process and watches its progress and memory.
func runWorker(p *Prop, dir string, shard, shards int, one string, stop <-chan struct{}) outcome {
	args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-dir", dir,
		"-worker", fmt.Sprintf("%d/%d", shard, shards), "-etc", *fEtc, "-src", *fSrc, "-section", *fOnly}
	if one != "" {
		args = append(args, "-one", one)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	procs := p.Procs
	if procs == 0 {
		procs = 2
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=all",
		fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d history_size=4", exitRace))
	errName := filepath.Join(dir, fmt.Sprintf("stderr.%d", shard))
	ef, err := os.Create(errName)
	if err != nil {
		return outcome{shard: shard, code: -1, err: err.Error()}
	}
	cmd.Stdout, cmd.Stderr = ef, ef
	os.Remove(filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
	os.Remove(filepath.Join(dir, fmt.Sprintf("progress.%d", shard)))
	if err := cmd.Start(); err != nil {
		return outcome{shard: shard, code: -1, err: err.Error()}
	}
	ef.Close()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	o := outcome{shard: shard}
	last := ""
	lastCPU := time.Now()
	limit := memLimit
	if *fRace {
		limit *= 2
	}
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	killed := false
loop:
	for {
		select {
		case <-done:
			break loop
		case <-stop:
			if !killed {
				cmd.Process.Kill()
				killed = true
				o.err = "stopped"
			}
		case <-tick.C:
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress.%d", shard)))
			if string(b) != last {
				last = string(b)
				lastCPU = time.Now()
			} else if !killed && time.Since(lastCPU) > stallLimit {
				killed = true
				o.err = "stall"
				cmd.Process.Signal(syscall.SIGQUIT)
				go func() { time.Sleep(3 * time.Second); cmd.Process.Kill() }()
			}
			if sm, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", cmd.Process.Pid)); err == nil && !killed {
				if f := strings.Fields(string(sm)); len(f) > 1 {
					pages, _ := strconv.ParseInt(f[1], 10, 64)
					o.rss = max(o.rss, pages*int64(os.Getpagesize()))
					if o.rss > limit {
						killed = true
						o.err = "memory"
						cmd.Process.Kill()
					}
				}
			}
		}
	}
	o.code = cmd.ProcessState.ExitCode()
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress.%d", shard))); err == nil && len(b) == 16 {
		o.sec = int(binary.LittleEndian.Uint64(b[:8])) - 1
		o.idx = int(binary.LittleEndian.Uint64(b[8:]))
	} else {
		o.sec = -1
	}
	if b, err := os.ReadFile(errName); err == nil {
		o.stderr = string(b)
	}
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", shard))); err == nil {
		r := &result{}
		if json.Unmarshal(b, r) == nil {
			o.res = r
		}
	}
	return o
}

func supervise(p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Workers > 0 && p.Workers < shards {
		shards = p.Workers
	}
	stop := make(chan struct{})
	var once sync.Once
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := runWorker(p, dir, i, shards, "", stop)
			outs[i] = o
			if o.code != 0 {
				once.Do(func() { close(stop) })
			}
		}(i)
	}
	wg.Wait()

	secs := p.sections()
	total := &result{Counts: map[string]int64{}}
	seen := map[uint64]struct{}{}
	var fail *failure
	inconclusive := ""
	for _, o := range outs {
		if k := "max:MB of memory of a worker"; o.rss>>20 > total.Counts[k] {
			total.Counts[k] = o.rss >> 20
		}
		if o.res != nil {
			total.Evals += o.res.Evals
			total.Cases += o.res.Cases
			for k, v := range o.res.Counts {
				if strings.HasPrefix(k, "max:") {
					if total.Counts[k] < v {
						total.Counts[k] = v
					}
				} else {
					total.Counts[k] += v
				}
			}
			total.Samples = append(total.Samples, o.res.Samples...)
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("seen.%d", o.shard))); err == nil {
				for i := 0; i+8 <= len(b); i += 8 {
					seen[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
				}
			}
			if o.res.Fail != nil && fail == nil {
				fail = o.res.Fail
			}
		}
	}
	for _, o := range outs {
		if fail != nil {
			break
		}
		if o.code == 0 && o.res != nil || o.err == "stopped" {
			continue
		}
		f := &failure{Prop: p.ID, Seed: *fSeed, Stack: lastLines(o.stderr, 12000)}
		if o.sec >= 0 && o.sec < len(secs) {
			f.Section, f.Case = secs[o.sec].Name, o.idx
		}
		rerun := func() outcome {
			return runWorker(p, dir, 100, 1, fmt.Sprintf("%s:%d", f.Section, f.Case), make(chan struct{}))
		}
		switch {
		case o.code == exitRace || strings.Contains(o.stderr, "WARNING: DATA RACE"):
			f.Kind, f.Message = "race", "the race detector reported a data race"
			fail = f
		case o.err == "stall" || o.err == "memory":
			// A single case takes milliseconds; confirm on a fresh run of that case alone.
			what := map[string]string{"stall": "an operation of this case does not terminate (no progress for 100 s, twice)",
				"memory": "an operation of this case allocates without bound (over the memory limit, twice)"}[o.err]
			if o2 := rerun(); o2.err == o.err {
				f.Kind, f.Message = o.err, what
				f.Stack = lastLines(o2.stderr, 12000)
				fail = f
			} else if o2.res != nil && o2.res.Fail != nil {
				fail = o2.res.Fail
			} else {
				inconclusive = fmt.Sprintf("worker %d hit its %s limit in %s#%d, not reproduced", o.shard, o.err, f.Section, f.Case)
			}
		case strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:"):
			f.Kind = "crash"
			f.Message = "the process crashed: " + firstLineWith(o.stderr, "panic:", "fatal error:")
			fail = f
		default:
			if o2 := rerun(); o2.res != nil && o2.res.Fail != nil {
				fail = o2.res.Fail
			} else {
				inconclusive = fmt.Sprintf("worker %d ended with code %d %s in %s#%d: %s", o.shard, o.code, o.err, f.Section, f.Case, lastLines(o.stderr, 2000))
			}
		}
	}
	if inconclusive == "" && fail == nil && *fOnly == "" && (total.Evals < p.MinEvals || len(seen) < 2) {
		inconclusive = fmt.Sprintf("too little was observed: %d evaluations, %d distinct", total.Evals, len(seen))
	}

	wall := time.Since(start).Seconds() + *fBuildS
	viol := 0
	if fail != nil {
		viol = 1
	}
	writeEvidence(p, total, len(seen), wall, viol)
	if fail != nil {
		fail.Tier, fail.Arch = *fTier, runtime.GOARCH
		os.MkdirAll(filepath.Join(*fOut, "replays"), 0755)
		path := filepath.Join(*fOut, "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, strings.NewReplacer("/", "_", " ", "_").Replace(fail.Section), fail.Case))
		fail.Replay = fmt.Sprintf("bash %s/check.sh --replay %s", *fOut, path)
		b, _ := json.MarshalIndent(fail, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("%s: %s %s#%d: %s\n", p.ID, fail.Kind, fail.Section, fail.Case, fail.Message)
		if n := len(fail.Trace); n > 0 {
			from := 0
			if n > 12 {
				from = n - 12
			}
			fmt.Printf("  last steps:\n    %s\n", strings.Join(fail.Trace[from:], "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("%s: INCONCLUSIVE: %s\n", p.ID, inconclusive)
		return 3
	}
	fmt.Printf("%s: held on %d cases, %d evaluations, %d distinct (%.1f s)\n", p.ID, total.Cases, total.Evals, len(seen), wall)
	return 0
}

func firstLineWith(s string, subs ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, sub := range subs {
			if strings.Contains(l, sub) {
				return l
			}
		}
	}
	return ""
}

func writeEvidence(p *Prop, t *result, distinct int, wall float64, viol int) {
	if len(t.Samples) > 6 {
		step := len(t.Samples) / 6
		s := []string{}
		for i := 0; i < len(t.Samples) && len(s) < 6; i += step {
			s = append(s, t.Samples[i])
		}
		t.Samples = s
	}
	if t.Samples == nil {
		t.Samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         t.Evals,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             t.Samples,
		"cases":               t.Cases,
		"observed":            t.Counts,
		"race_detector":       *fRace,
		"explanation":         "evaluations counts single oracle verdicts over observed results; distinct_nontrivial counts distinct hashes recorded by the monitors as described by rule; observed holds the monitors' own counters",
	}
	if *fAux {
		// a second run, on another architecture
		path := filepath.Join(*fOut, "evidence", p.ID+".json")
		ev := map[string]any{}
		if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &ev) == nil {
			if c, ok := ev["coverage"].(map[string]any); ok {
				delete(cov, "explanation")
				delete(cov, "rule")
				delete(cov, "samples")
				c["on_"+runtime.GOARCH] = cov
			}
			if viol > 0 {
				ev["violations"] = viol
			}
			if w, ok := ev["wall_s"].(float64); ok {
				ev["wall_s"] = w + wall
			}
			b, _ = json.MarshalIndent(ev, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
		}
		return
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": *fLevel,
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0755)
	os.WriteFile(filepath.Join(*fOut, "evidence", p.ID+".json"), append(b, '\n'), 0644)
}

func replay() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	f := &failure{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := findProp(f.Prop)
	*fTier = f.Tier
	for i := range p.Sections {
		s := &p.Sections[i]
		if s.Name != f.Section {
			continue
		}
		acc := &C{counts: map[string]int64{}, seen: map[uint64]struct{}{}}
		n := 1
		if p.Race {
			n = 50
		}
		for k := 0; k < n; k++ {
			if g := runCase(p, s, f.Case, f.Seed, f.Tier == "thorough", true, acc); g != nil {
				fmt.Printf("%s\n%s: %s\n%s\n", strings.Join(g.Trace, "\n"), g.Kind, g.Message, g.Stack)
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, *fReplay)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such section")
	return 3
}
