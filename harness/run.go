package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-restruct/restruct"
)

// Check is one property's monitor together with the workload that drives it.
type Check struct {
	ID       string
	Rule     string // how cases are made, and what makes one non-trivial
	Quick    int    // number of cases per tier; never a time budget
	Thorough int
	NoExpr   int  // so many of the first cases run before expressions are enabled
	BigMem   bool // no address space limit (race detector)
	Serial   int  // number of workers if not the default
	Case     func(c *Ctx)
	Cross    func(ws []*workerOut) []string // optional cross-worker oracle
	Repeat   bool                           // every worker runs every case (for Cross)
	Assume   []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the context of one case.
type Ctx struct {
	*Check
	R     *rng
	N     int // index of the case
	Total int
	W     int // index of the worker
	Seed  uint64
	Tier  string
	out   *workerOut
	vlog  *os.File
	fails int
	dist  map[uint64]bool
}

type violation struct {
	Case int    `json:"case"`
	Msg  string `json:"msg"`
}

type workerOut struct {
	Done       bool
	Evals      int
	Counts     map[string]int
	Samples    []string
	Violations []violation
	Known      map[string]string
	Digests    map[int]string // for Cross
	Dist       []uint64
	HarnessBug string
}

// Fail reports a violation of the property (at most three per case are kept).
func (c *Ctx) Fail(format string, a ...interface{}) {
	c.fails++
	if c.fails > 3 || len(c.out.Violations) >= 40 {
		return
	}
	v := violation{c.N, fmt.Sprintf(format, a...)}
	c.out.Violations = append(c.out.Violations, v)
	if c.vlog != nil {
		// Kept at once: the worker may not live to report it.
		b, _ := json.Marshal(v)
		c.vlog.Write(append(b, '\n'))
	}
}

// Known reports an observation of a defect that may be listed as a known finding.
func (c *Ctx) Known(key, format string, a ...interface{}) {
	if _, ok := knownFindings[c.ID+" "+key]; !ok {
		c.Fail(format, a...)
		return
	}
	if _, ok := c.out.Known[key]; !ok {
		c.out.Known[key] = fmt.Sprintf(format, a...)
	}
	c.Count("known_finding_observations", 1)
}

// ok tells that the case has not failed yet.
// few tells whether the case is one of the first n, or ten times as many in the
// thorough tier.
func (c *Ctx) few(n int) bool {
	if c.Tier == "thorough" {
		n *= 10
	}
	return c.N < n
}

func (c *Ctx) ok() bool { return c.fails == 0 }

func (c *Ctx) Count(name string, n int) { c.out.Counts[name] += n }

// Eval counts executions judged by the oracle.
func (c *Ctx) Eval(n int) { c.out.Evals += n }

// Distinct registers a non-trivial case by the hash of what makes it distinct.
func (c *Ctx) Distinct(h uint64) {
	if len(c.dist) < 200000 {
		c.dist[h] = true
	}
}

func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.out.Samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.out.Samples = append(c.out.Samples, s)
	}
}

var knownFindings = map[string]string{}

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C06 key=int8-bits <what>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var p, k string
		rest := strings.TrimPrefix(l, "finding: ")
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 {
			continue
		}
		p, k = strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key=")
		knownFindings[p+" "+k] = f[2]
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func main() {
	var (
		id      = flag.String("check", "", "property to check")
		seed    = flag.Uint64("seed", 1, "seed")
		tier    = flag.String("tier", "quick", "quick or thorough")
		worker  = flag.Int("worker", -1, "worker index (internal)")
		nw      = flag.Int("workers", 8, "number of workers")
		from    = flag.Int("from", 0, "first case (internal)")
		only    = flag.Int("case", -1, "run just this case")
		dir     = flag.String("dir", "", "scratch directory")
		verif   = flag.String("verif", "/verif", "directory of the framework")
		cases   = flag.Int("cases", 0, "override number of cases")
		verbose = flag.Bool("v", false, "verbose")
	)
	flag.Parse()
	chk := checks[*id]
	if chk == nil {
		fatal("unknown check %q", *id)
	}
	loadKnown(filepath.Join(*verif, "known_findings.txt"))
	total := chk.Quick
	if *tier == "thorough" {
		total = chk.Thorough
	}
	if *cases > 0 {
		total = *cases
	}
	if *worker >= 0 {
		runWorker(chk, *seed, *tier, *worker, *nw, *from, *only, total, *dir, *verbose)
		return
	}
	if *only >= 0 && *dir == "" {
		runWorker(chk, *seed, *tier, 0, 1, 0, *only, total, "", true)
		return
	}
	os.Exit(supervise(chk, *seed, *tier, *nw, total, *dir, *verif))
}

func runWorker(chk *Check, seed uint64, tier string, w, nw, from, only, total int, dir string, verbose bool) {
	if !chk.BigMem {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		debug.SetMemoryLimit(2 << 30)
	}
	if only >= 0 && dir != "" {
		lim := syscall.Rlimit{Cur: 120, Max: 130}
		syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
	}
	var journal, vlog *os.File
	if dir != "" {
		var err error
		vlog, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("viol.%d", w)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err != nil {
			fatal("violation log: %v", err)
		}
		journal, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", w)), os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			fatal("journal: %v", err)
		}
	}
	out := &workerOut{Counts: map[string]int{}, Known: map[string]string{}, Digests: map[int]string{}}
	dist := map[uint64]bool{}
	run := func(i int) {
		if journal != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
			journal.WriteAt(b[:], 0)
		}
		c := &Ctx{Check: chk, R: newRng(hashStr(chk.ID), seed, uint64(i)), N: i, Total: total, W: w, Seed: seed, Tier: tier, out: out, vlog: vlog, dist: dist}
		defer func() {
			if r := recover(); r != nil {
				out.HarnessBug = fmt.Sprintf("case %d: %v\n%s", i, r, debug.Stack())
			}
		}()
		orderUse.Store(int64(i))
		at := time.Now()
		if i >= chk.NoExpr {
			restruct.EnableExprBeta()
		}
		chk.Case(c)
		if d := int(time.Since(at).Milliseconds()); d > out.Counts["max_case_ms"] {
			out.Counts["max_case_ms"] = d
			if verbose {
				fmt.Println("case", i, d, "ms")
			}
		}
	}
	if only >= 0 {
		run(only)
	} else if chk.Repeat {
		// Every worker runs every case, in its own order.
		order := newRng(seed, uint64(w), 77).perm(total)
		if w == 0 {
			for i := range order {
				order[i] = i
			}
		}
		for k := from; k < total; k++ {
			run(order[k])
			if out.HarnessBug != "" {
				break
			}
		}
	} else {
		for i := w; i < total; i += nw {
			if i < from {
				continue
			}
			run(i)
			if out.HarnessBug != "" || len(out.Violations) >= 40 {
				break
			}
		}
	}
	out.Done = true
	for h := range dist {
		out.Dist = append(out.Dist, h)
	}
	if dir == "" {
		for _, v := range out.Violations {
			fmt.Printf("FAIL case %d: %s\n", v.Case, v.Msg)
		}
		for k, v := range out.Known {
			fmt.Printf("KNOWN %s: %s\n", k, v)
		}
		if out.HarnessBug != "" {
			fmt.Println("HARNESS:", out.HarnessBug)
		}
		fmt.Println("counts", out.Counts, "evals", out.Evals, "distinct", len(out.Dist))
		for _, s := range out.Samples {
			fmt.Println("sample:", s)
		}
		return
	}
	b, err := json.Marshal(out)
	if err != nil {
		fatal("marshal: %v", err)
	}
	name := fmt.Sprintf("out.%d.%d.json", w, from)
	if only >= 0 {
		name = fmt.Sprintf("only.%d.json", only)
	}
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		fatal("write: %v", err)
	}
}

// stopped is the position of a worker that was ended because others have found
// violations.
const stopped = -2

// grace is how long the workers go on after the first violation.
const grace = 20 * time.Second

// spawn runs a worker and watches its journal. A worker that makes no progress
// for a long time is killed; whether that is a violation is decided by running
// the case in isolation with a CPU time limit.
func spawn(chk *Check, seed uint64, tier string, w, nw, from, only, total int, dir, verif string, stop chan struct{}) (*workerOut, int, string) {
	args := []string{"-check", chk.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(nw),
		"-from", fmt.Sprint(from), "-cases", fmt.Sprint(total), "-dir", dir, "-verif", verif}
	if only >= 0 {
		args = append(args, "-case", fmt.Sprint(only))
	}
	jpath := filepath.Join(dir, fmt.Sprintf("journal.%d", w))
	os.Remove(jpath)
	errPath := filepath.Join(dir, fmt.Sprintf("stderr.%d", w))
	errf, _ := os.Create(errPath)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout, cmd.Stderr = errf, errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if chk.BigMem {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 history_size=4 exitcode=0 log_path="+filepath.Join(dir, fmt.Sprintf("race.%d", w)))
	}
	if err := cmd.Start(); err != nil {
		return nil, -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt := []byte{}, time.Now()
	why := ""
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-stop:
			cmd.Process.Kill()
			<-done
			errf.Close()
			return nil, stopped, ""
		case <-time.After(500 * time.Millisecond):
			b, _ := os.ReadFile(jpath)
			if string(b) != string(last) {
				last, lastAt = b, time.Now()
			}
			limit := 60 * time.Second
			if only >= 0 {
				limit = 240 * time.Second
			}
			if time.Since(lastAt) > limit {
				cmd.Process.Kill()
				err = <-done
				why = "no progress"
				break loop
			}
		}
	}
	errf.Close()
	name := fmt.Sprintf("out.%d.%d.json", w, from)
	if only >= 0 {
		name = fmt.Sprintf("only.%d.json", only)
	}
	if b, rerr := os.ReadFile(filepath.Join(dir, name)); rerr == nil && err == nil {
		o := &workerOut{}
		if json.Unmarshal(b, o) == nil && o.Done {
			return o, -1, ""
		}
	}
	at := -1
	if b, rerr := os.ReadFile(jpath); rerr == nil && len(b) == 8 {
		at = int(binary.LittleEndian.Uint64(b)) - 1
	}
	msg, _ := os.ReadFile(errPath)
	m := string(msg)
	if len(m) > 1500 {
		m = m[:1500]
	}
	return nil, at, strings.TrimSpace(fmt.Sprintf("%s %v %s", why, err, m))
}

func supervise(chk *Check, seed uint64, tier string, nw, total int, dir, verif string) int {
	start := time.Now()
	if dir == "" {
		d, err := os.MkdirTemp("", "verif-"+chk.ID+"-")
		if err != nil {
			fatal("%v", err)
		}
		dir = d
		defer os.RemoveAll(d)
	}
	if chk.Serial > 0 {
		nw = chk.Serial
	}
	var (
		mu           sync.Mutex
		outs         []*workerOut
		viol         []violation
		inconclusive []string
		wg           sync.WaitGroup
	)
	// The rest of the run matters little once there is a violation, and may take
	// long if the tree under test is slow or hangs.
	stop, finished := make(chan struct{}), make(chan struct{})
	go func() {
		for {
			select {
			case <-finished:
				return
			case <-time.After(500 * time.Millisecond):
			}
			mu.Lock()
			n := len(viol)
			mu.Unlock()
			if n > 0 || len(loggedViolations(dir)) > 0 {
				break
			}
		}
		select {
		case <-finished:
		case <-time.After(grace):
			close(stop)
		}
	}()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := 0
			for try := 0; try < 4; try++ {
				o, at, why := spawn(chk, seed, tier, w, nw, from, -1, total, dir, verif, stop)
				if o != nil {
					mu.Lock()
					outs = append(outs, o)
					mu.Unlock()
					return
				}
				if at == stopped {
					return
				}
				if at < 0 {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d did not start: %s", w, why))
					mu.Unlock()
					return
				}
				if chk.BigMem && strings.Contains(why, "fatal error: ") && !strings.Contains(why, "out of memory") && !strings.Contains(why, "cannot allocate") {
					// What depends on the schedule need not happen again.
					mu.Lock()
					viol = append(viol, violation{at, "the process does not survive this case: " + why})
					mu.Unlock()
					from = at + 1
					continue
				}
				// The worker died: attribute it by running the case alone.
				o2, at2, why2 := spawn(chk, seed, tier, 1000+w, nw, 0, at, total, dir, verif, stop)
				if at2 == stopped {
					return
				}
				mu.Lock()
				if o2 != nil {
					outs = append(outs, o2)
					if len(o2.Violations) == 0 {
						inconclusive = append(inconclusive, fmt.Sprintf("case %d: worker died (%s) but the case passes alone", at, why))
					}
				} else if at2 >= 0 {
					viol = append(viol, violation{at, "the process does not survive this case (crash, hang or memory exhaustion): " + why2})
				} else {
					inconclusive = append(inconclusive, fmt.Sprintf("case %d: cannot reproduce: %s", at, why2))
				}
				mu.Unlock()
				if chk.Repeat {
					return
				}
				from = at + 1
			}
		}(w)
	}
	wg.Wait()
	close(finished)

	merged := map[string]int{}
	known := map[string]string{}
	dist := map[uint64]bool{}
	evals := 0
	var samples []string
	for _, o := range outs {
		evals += o.Evals
		for k, v := range o.Counts {
			if strings.HasPrefix(k, "max_") {
				if v > merged[k] {
					merged[k] = v
				}
				continue
			}
			merged[k] += v
		}
		for k, v := range o.Known {
			known[k] = v
		}
		for _, h := range o.Dist {
			dist[h] = true
		}
		if len(samples) < 5 {
			samples = append(samples, o.Samples...)
		}
		if o.HarnessBug != "" {
			inconclusive = append(inconclusive, "harness: "+o.HarnessBug)
		}
	}
	viol = append(viol, loggedViolations(dir)...)
	if len(samples) > 5 {
		samples = samples[:5]
	}
	if chk.Cross != nil && len(inconclusive) == 0 && len(viol) == 0 {
		for _, m := range chk.Cross(outs) {
			viol = append(viol, violation{-1, m})
		}
	}
	if chk.BigMem {
		viol = append(viol, raceReports(dir)...)
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Case < viol[j].Case })

	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(dist),
		"rule":                chk.Rule,
		"samples":             samples,
		"cases":               total,
		"workers":             nw,
		"observed":            merged,
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(viol),
	}
	if chk.Assume != nil {
		ev["assumptions"] = chk.Assume
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}

	keys := []string{}
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (e.g. %s)\n", chk.ID, knownFindings[chk.ID+" "+k], oneLine(known[k], 200))
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", chk.ID, tier, seed, total, evals, len(dist), time.Since(start).Seconds())
	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		seen := 0
		lastCase := -2
		for _, v := range viol {
			if v.Case == lastCase {
				continue
			}
			lastCase = v.Case
			if seen++; seen > 5 {
				break
			}
			path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d-%d.json", chk.ID, tier, seed, v.Case))
			rb, _ := json.MarshalIndent(map[string]interface{}{
				"property": chk.ID, "seed": seed, "tier": tier, "case": v.Case, "message": v.Msg,
				"run": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -case %d", seed, tier, chk.ID, v.Case),
			}, "", " ")
			os.WriteFile(path, append(rb, '\n'), 0o644)
			fmt.Printf("case %d: %s\n", v.Case, oneLine(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		for _, m := range inconclusive {
			fmt.Println("INCONCLUSIVE:", oneLine(m, 3000))
		}
		return 2
	}
	if evals == 0 || len(dist) == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 2
	}
	return 0
}

// loggedViolations returns the violations the workers have found so far.
func loggedViolations(dir string) (vs []violation) {
	files, _ := filepath.Glob(filepath.Join(dir, "viol.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			var v violation
			if l != "" && json.Unmarshal([]byte(l), &v) == nil {
				vs = append(vs, v)
			}
		}
	}
	return
}

func oneLine(s string, max int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > max {
		s = s[:max] + "..."
	}
	return s
}

func raceReports(dir string) (vs []violation) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			// Deduplicate by the functions on top of the two stacks.
			var fns []string
			lines := strings.Split(rep, "\n")
			for i, l := range lines {
				if (strings.Contains(l, "ead at 0x") || strings.Contains(l, "rite at 0x")) && i+1 < len(lines) {
					fns = append(fns, strings.TrimSpace(lines[i+1]))
				}
			}
			k := strings.Join(fns, "/")
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(rep) > 1400 {
				rep = rep[:1400]
			}
			vs = append(vs, violation{-1 - len(vs), "data race: " + rep})
		}
	}
	return
}
