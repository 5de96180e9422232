// Package mc is a small stateless model checker for Go code.
//
// A scenario is a deterministic function of the answers it gets from
// Ctx.Choose. The engine explores the whole tree of answers depth first, one
// fresh execution per leaf, so every behaviour within the scenario's bounds is
// executed against the real implementation. A failing leaf is reported with
// its answer list, which replays it exactly.
package mc

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is one execution.
type Ctx struct {
	prefix  []int
	picks   []int
	arity   []int
	labels  []string
	log     []string
	eng     *engine
	logging bool
	maxExp  int // do not branch at or beyond this depth while expanding (unused if 0)
	weak    bool
}

type violation struct {
	key string
	msg string
}
type skip struct{}
type diverged struct{ pick, arity, depth int }

// Choose returns a value in [0,n); every value is explored.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic("mc: Choose(<=0)")
	}
	if n == 1 {
		return 0
	}
	i := len(c.picks)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			// The code keeps state from one execution to the next and so took
			// another path this time: give this subtree up, and say so.
			panic(diverged{v, n, i})
		}
	}
	c.picks = append(c.picks, v)
	c.arity = append(c.arity, n)
	return v
}

// Bool explores both answers.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Pick explores all elements of xs.
func Pick[T any](c *Ctx, xs []T) T { return xs[c.Choose(len(xs))] }

// Logf records one step of the execution (kept only when replaying).
func (c *Ctx) Logf(f string, a ...any) {
	c.eng.transitions++
	if c.logging {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Step counts a transition without formatting anything.
func (c *Ctx) Step() { c.eng.transitions++ }

// Steps counts n transitions.
func (c *Ctx) Steps(n int) { c.eng.transitions += int64(n) }

// Logging tells whether log lines are kept.
func (c *Ctx) Logging() bool { return c.logging }

// State records an abstract state reached, for the distinct-state count.
func (c *Ctx) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			io.WriteString(h, v)
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	c.eng.addState(h.Sum64())
}

// Failf reports a violation of the property.
func (c *Ctx) Failf(f string, a ...any) { panic(violation{"", fmt.Sprintf(f, a...)}) }

// FailKey reports a violation identified by key (for the known-findings file).
func (c *Ctx) FailKey(key, f string, a ...any) { panic(violation{key, fmt.Sprintf(f, a...)}) }

// Violation builds the panic value used by Failf, for schedulers that must
// carry it between goroutines.
func Violation(msg string) any { return violation{"", msg} }

// Skip abandons this execution as irrelevant.
func (c *Ctx) Skip() { panic(skip{}) }

// Thorough tells whether this is the deep tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Bound picks the tier's bound.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Scenario is one explored tree.
type Scenario struct {
	Name string
	Body func(*Ctx)
}

// Config describes a check.
type Config struct {
	ID          string
	Rule        string
	Bounds      string
	Assumptions []string
	Scenarios   []Scenario
	// QuickBudget bounds the quick run's wall clock (seconds, default 200).
	QuickBudget int
	// Procs bounds the worker processes (default 8).
	Procs int
}

type engine struct {
	transitions int64
	execs       int64
	skipped     int64
	diverged    int64
	recent      [16][]int
	recentAt    int
	states      map[uint64]struct{}
	saturated   bool
	cur         atomic.Pointer[Ctx]
	curStart    atomic.Int64
	curName     atomic.Pointer[string]
}

const maxStates = 3 << 20

func (e *engine) addState(h uint64) {
	if len(e.states) >= maxStates {
		e.saturated = true
		return
	}
	e.states[h] = struct{}{}
}

type result struct {
	Msg   string
	Key   string
	Picks []int
	Log   []string
	// Before lists the last executions of the process before this one, used
	// when this one alone does not reproduce in a new process.
	Before [][]int `json:",omitempty"`
}

// runOne executes one leaf. nil means it passed.
func (e *engine) runOne(sc *Scenario, prefix []int, logging bool) (c *Ctx, res *result, skipped bool) {
	c = &Ctx{prefix: prefix, eng: e, logging: logging}
	e.curName.Store(&sc.Name)
	e.cur.Store(c)
	e.curStart.Store(time.Now().UnixNano())
	defer func() { e.curStart.Store(0) }()
	func() {
		defer func() {
			r := recover()
			switch v := r.(type) {
			case nil:
			case skip:
				skipped = true
			case diverged:
				skipped = true
				e.diverged++
			case violation:
				res = &result{Msg: v.msg, Key: v.key}
			default:
				res = &result{Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
		}()
		sc.Body(c)
	}()
	if skipped {
		e.skipped++
	} else {
		e.execs++
	}
	e.transitions += int64(len(c.picks))
	picks := append([]int(nil), c.picks...)
	if res != nil {
		res.Picks = picks
		res.Log = c.log
		for i := range e.recent {
			if p := e.recent[(e.recentAt+i)%len(e.recent)]; p != nil {
				res.Before = append(res.Before, p)
			}
		}
	}
	e.recent[e.recentAt] = picks
	e.recentAt = (e.recentAt + 1) % len(e.recent)
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.Contains(l, "panic(") {
			seen = true
			out = out[:0]
		}
		if seen {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	if !seen {
		if len(lines) > 24 {
			lines = lines[:24]
		}
		out = lines
	}
	return strings.Join(out, "\n")
}

// next advances picks to the next leaf in depth-first order below floor.
func next(picks, arity []int, floor int) []int {
	for i := len(picks) - 1; i >= floor; i-- {
		if picks[i]+1 < arity[i] {
			p := append([]int(nil), picks[:i+1]...)
			p[i]++
			return p
		}
	}
	return nil
}

type job struct {
	Sc     int
	Prefix []int
}

// slice is how long a worker stays with a job before it gives the rest back.
const slice = 400 * time.Millisecond

type jobResult struct {
	Execs, Skipped, Transitions int64
	Violation                   *result
	Sc                          int
	Complete                    bool
	Known                       map[string]string
	Samples                     []string
	Retry                       []job
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var ks struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(b, &ks) != nil {
		return m
	}
	for _, k := range ks.Findings {
		if k.Property == id && k.Status == "known" && k.Key != "" {
			m[k.Key] = k.What
		}
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main runs a check and exits.
func Main(cfg Config) {
	replay := flag.String("replay", "", "replay a violation file")
	worker := flag.Bool("mc-worker", false, "internal")
	flag.Parse()
	debug.SetGCPercent(400)
	if *worker {
		workerMain(&cfg)
		return
	}
	if *replay != "" {
		os.Exit(replayMain(&cfg, *replay))
	}
	os.Exit(parentMain(&cfg))
}

func newEngine() *engine { return &engine{states: map[uint64]struct{}{}} }

func (e *engine) watchdog() {
	limit := 40 * time.Second
	go func() {
		// Counts its own ticks: the clock also runs while the machine is paused.
		var last int64
		ticks := 0
		for {
			time.Sleep(500 * time.Millisecond)
			st := e.curStart.Load()
			if st == 0 || st != last {
				last, ticks = st, 0
				continue
			}
			if ticks++; time.Duration(ticks)*500*time.Millisecond > limit {
				c := e.cur.Load()
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				r := jobResult{Violation: &result{
					Msg:   "execution does not terminate (one execution still running after " + limit.String() + ")\n" + string(buf[:n]),
					Picks: append([]int(nil), c.picks...),
				}}
				// picks may be read while the stuck goroutine appends; harmless.
				b, _ := json.Marshal(r)
				outMu.Lock()
				fmt.Fprintf(hangOut, "\nMCHANG %s\n", b)
				os.Exit(3)
			}
		}
	}()
}

var outMu sync.Mutex

func workerMain(cfg *Config) {
	e := newEngine()
	e.watchdog()
	// The implementation may print; keep our protocol on the original stdout.
	out := os.Stdout
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = devnull
	}
	hangOut = out
	deadline := int64(0)
	if v := os.Getenv("MC_DEADLINE"); v != "" {
		deadline, _ = strconv.ParseInt(v, 10, 64)
	}
	journal := os.Getenv("MC_JOURNAL")
	knownKeys := loadKnown(cfg.ID)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		if strings.HasPrefix(line, "STATES") {
			// hand over the state set
			w := bufio.NewWriter(out)
			fmt.Fprintf(w, "MCSTATES %d %v\n", len(e.states), e.saturated)
			for h := range e.states {
				fmt.Fprintf(w, "%x\n", h)
			}
			w.Flush()
			return
		}
		var j job
		if json.Unmarshal([]byte(line), &j) != nil {
			break
		}
		r := jobResult{Sc: j.Sc, Complete: true, Known: map[string]string{}}
		e.execs, e.skipped, e.transitions, e.diverged = 0, 0, 0, 0
		sc := &cfg.Scenarios[j.Sc]
		e.recent, e.recentAt = [16][]int{}, 0
		prefix := append([]int{}, j.Prefix...)
		floor := len(j.Prefix)
		n := 0
		// A job that turns out to be large hands its remaining siblings back
		// so that all workers stay busy.
		jobStart := time.Now()
		for prefix != nil {
			if journal != "" {
				b, _ := json.Marshal(map[string]any{"Sc": j.Sc, "Picks": prefix})
				os.WriteFile(journal, b, 0o644)
			}
			c, res, _ := e.runOne(sc, prefix, n == 0 && floor < 2)
			if n == 0 && len(c.log) > 0 {
				r.Samples = append(r.Samples, sc.Name+": "+strings.Join(c.log, " ; "))
			}
			n++
			if res != nil {
				if what, ok := knownKeys[res.Key]; ok && res.Key != "" {
					r.Known[res.Key] = what
				} else {
					r.Violation = res
					break
				}
			}
			if e.diverged > 0 {
				r.Complete = false
				if e.diverged > 1000 {
					break
				}
			}
			if len(c.picks) < floor {
				break // it left the path before the part that is ours
			}
			prefix = next(c.picks, c.arity, floor)
			if n&15 == 0 {
				now := time.Now()
				if deadline > 0 && now.UnixNano() > deadline {
					if prefix != nil {
						r.Complete = false
					}
					break
				}
				if prefix != nil && now.Sub(jobStart) > slice {
					// split: give back every unexplored sibling subtree
					r.Retry = splitRest(j.Sc, prefix, c.picks, c.arity, floor)
					break
				}
			}
		}
		r.Execs, r.Skipped, r.Transitions = e.execs, e.skipped, e.transitions
		b, _ := json.Marshal(r)
		outMu.Lock()
		fmt.Fprintf(out, "\nMCRES %s\n", b)
		outMu.Unlock()
	}
}

var hangOut *os.File

// splitRest lists subtrees (as prefixes) covering every leaf at or after
// nextPrefix below floor.
func splitRest(sc int, nextPrefix, picks, arity []int, floor int) []job {
	var js []job
	d := len(nextPrefix) - 1
	// siblings at depth d, from nextPrefix[d] upward
	for v := nextPrefix[d]; v < arity[d]; v++ {
		p := append([]int(nil), nextPrefix[:d]...)
		js = append(js, job{sc, append(p, v)})
	}
	for i := d - 1; i >= floor; i-- {
		for v := picks[i] + 1; v < arity[i]; v++ {
			p := append([]int(nil), picks[:i]...)
			js = append(js, job{sc, append(p, v)})
		}
	}
	return js
}

type replayFile struct {
	Property string
	Scenario string
	Picks    []int
	Before   [][]int `json:",omitempty"` // the executions before it, in the same process
	Message  string
	Log      []string
}

func findScenario(cfg *Config, name string) *Scenario {
	for i := range cfg.Scenarios {
		if cfg.Scenarios[i].Name == name {
			return &cfg.Scenarios[i]
		}
	}
	return nil
}

func replayMain(cfg *Config, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("replay:", err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println("replay:", err)
		return 2
	}
	sc := findScenario(cfg, rf.Scenario)
	if sc == nil {
		fmt.Println("replay: no scenario", rf.Scenario)
		return 2
	}
	e := newEngine()
	go func() {
		for ticks := 0; ; {
			time.Sleep(500 * time.Millisecond)
			if e.curStart.Load() == 0 {
				continue
			}
			if ticks++; ticks > 40 {
				fmt.Println("REPRODUCED: execution does not terminate")
				os.Exit(1)
			}
		}
	}()
	c, res, _ := e.runOne(sc, rf.Picks, true)
	for _, l := range c.log {
		fmt.Println("  ", l)
	}
	if res == nil {
		// Code that keeps state between executions may need the ones that came
		// before this one in the process that found it.
		for round := 0; round < 4 && res == nil; round++ {
			if round > 0 {
				for _, p := range rf.Before {
					if _, res, _ = e.runOne(sc, p, false); res != nil {
						break
					}
				}
			}
			if res == nil {
				_, res, _ = e.runOne(sc, rf.Picks, false)
			}
		}
		if res != nil {
			fmt.Println("  (reproduced after the executions before it)")
		}
	}
	if res == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Println("REPRODUCED:", res.Msg)
	return 1
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		t.b = append([]byte(nil), t.b[:1<<15]...) // keep the head: Go prints the panic first
	}
	return len(p), nil
}

func spawn(deadline time.Time, journal string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-mc-worker")
	cmd.Env = append(os.Environ(), "MC_DEADLINE="+strconv.FormatInt(deadline.UnixNano(), 10), "GOMAXPROCS=2")
	if journal != "" {
		cmd.Env = append(cmd.Env, "MC_JOURNAL="+journal)
	}
	p := &proc{cmd: cmd, err: &tail{}}
	p.in, _ = cmd.StdinPipe()
	so, _ := cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(so, 1<<20)
	cmd.Stderr = p.err
	return p, cmd.Start()
}

// do runs one job; a nil result with error means the worker died.
func (p *proc) do(j job) (*jobResult, error) {
	b, _ := json.Marshal(j)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			p.cmd.Wait()
			return nil, err
		}
		if strings.HasPrefix(line, "MCRES ") {
			var r jobResult
			if err := json.Unmarshal([]byte(line[6:]), &r); err != nil {
				return nil, err
			}
			return &r, nil
		}
		if strings.HasPrefix(line, "MCHANG ") {
			var r jobResult
			if err := json.Unmarshal([]byte(line[7:]), &r); err != nil {
				return nil, err
			}
			r.Sc = j.Sc
			p.cmd.Wait()
			return &r, io.EOF
		}
	}
}

func parentMain(cfg *Config) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 200
	if cfg.QuickBudget > 0 {
		budget = cfg.QuickBudget
	}
	if tier == "thorough" {
		budget = 780
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = n
		}
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	procs := runtime.NumCPU()
	if cfg.Procs > 0 && procs > cfg.Procs {
		procs = cfg.Procs
	}
	if procs > 8 {
		procs = 8
	}

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	// The jobs of each scenario, the time they took, and those under way; the
	// scenario that had the least is next, so that none waits for the others.
	queues := make([][]job, len(cfg.Scenarios))
	took := make([]time.Duration, len(cfg.Scenarios))
	running := make([]int, len(cfg.Scenarios))
	queued := len(queues)
	for i := range queues {
		queues[i] = []job{{Sc: i}}
	}
	pick := func() job {
		best, least := -1, time.Duration(0)
		for i, q := range queues {
			if t := took[i] + time.Duration(running[i])*slice; len(q) > 0 && (best < 0 || t < least) {
				best, least = i, t
			}
		}
		// depth first: take the most recently added job
		q := queues[best]
		queues[best] = q[:len(q)-1]
		running[best]++
		queued--
		return q[len(q)-1]
	}
	outstanding := 0
	stop := false
	total := jobResult{Complete: true, Known: map[string]string{}}
	states := map[uint64]struct{}{}
	saturated := false
	perSc := make([]int64, len(cfg.Scenarios))
	var viol *result
	violSc := -1
	var harnessErr error

	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			p, err := spawn(deadline, "")
			if err != nil {
				mu.Lock()
				harnessErr = err
				stop = true
				cond.Broadcast()
				mu.Unlock()
				return
			}
			dead := false
			defer func() {
				if dead {
					return
				}
				fmt.Fprintln(p.in, "STATES")
				for {
					line, err := p.out.ReadString('\n')
					if err != nil {
						break
					}
					if strings.HasPrefix(line, "MCSTATES ") {
						f := strings.Fields(line)
						n, _ := strconv.Atoi(f[1])
						mu.Lock()
						if f[2] == "true" {
							saturated = true
						}
						for i := 0; i < n; i++ {
							l, err := p.out.ReadString('\n')
							if err != nil {
								break
							}
							h, _ := strconv.ParseUint(strings.TrimSpace(l), 16, 64)
							states[h] = struct{}{}
						}
						mu.Unlock()
						break
					}
				}
				p.in.Close()
				p.cmd.Wait()
			}()
			for {
				mu.Lock()
				for queued == 0 && outstanding > 0 && !stop {
					cond.Wait()
				}
				if stop || queued == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j := pick()
				outstanding++
				mu.Unlock()
				began := time.Now()

				r, err := p.do(j)
				if err != nil && r == nil {
					r = crashed(cfg, j, deadline, p)
					if r == nil {
						mu.Lock()
						harnessErr = fmt.Errorf("worker died and its job did not reproduce: %v\n%s", err, p.err.b)
						stop = true
						dead = true
						outstanding--
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				mu.Lock()
				outstanding--
				running[j.Sc]--
				took[j.Sc] += time.Since(began)
				total.Execs += r.Execs
				total.Skipped += r.Skipped
				total.Transitions += r.Transitions
				perSc[j.Sc] += r.Execs
				if len(total.Samples) < 12 {
					total.Samples = append(total.Samples, r.Samples...)
				}
				for k, v := range r.Known {
					total.Known[k] = v
				}
				if !r.Complete {
					total.Complete = false
				}
				if r.Violation != nil && viol == nil {
					viol = r.Violation
					violSc = j.Sc
					stop = true
				}
				// reverse so that depth-first order is kept
				for i := len(r.Retry) - 1; i >= 0; i-- {
					queues[r.Retry[i].Sc] = append(queues[r.Retry[i].Sc], r.Retry[i])
					queued++
				}
				if time.Now().After(deadline) && queued > 0 {
					total.Complete = false
					queued = 0
				}
				if err != nil {
					dead = true
					stop = true
				}
				cond.Broadcast()
				mu.Unlock()
				if dead {
					return
				}
			}
		}(w)
	}
	wg.Wait()

	if harnessErr != nil {
		fmt.Println("ERROR:", harnessErr)
		return 2
	}

	nviol := 0
	rc := 0
	if viol != nil {
		dir := filepath.Join(verifDir(), "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", cfg.ID, tier))
		rf := replayFile{cfg.ID, cfg.Scenarios[violSc].Name, viol.Picks, viol.Before, viol.Msg, viol.Log}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		exe, _ := os.Executable()
		repro := 0
		var lastOut []byte
		tries := 5
		if strings.HasPrefix(viol.Msg, "execution does not terminate") {
			tries = 1
		}
		for k := 0; k < tries; k++ {
			cmd := exec.Command(exe, "-replay", path)
			out, err := cmd.CombinedOutput()
			if err != nil {
				repro++
				lastOut = out
			}
		}
		fmt.Printf("scenario %s: %s\n", cfg.Scenarios[violSc].Name, viol.Msg)
		if len(lastOut) > 6000 {
			lastOut = append(lastOut[:3000:3000], lastOut[len(lastOut)-3000:]...)
		}
		fmt.Printf("replayed %d/%d times\n%s\n", repro, tries, lastOut)
		if repro == 0 {
			fmt.Println("ERROR: violation did not reproduce on replay; not reported")
			return 2
		}
		nviol = 1
		rc = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.ID, path)
	}
	keys := make([]string, 0, len(total.Known))
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.ID, total.Known[k])
	}
	per := map[string]int64{}
	for i, n := range perSc {
		per[cfg.Scenarios[i].Name] = n
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(no sample recorded)"}
	}
	ev := map[string]any{
		"property": cfg.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        len(states),
			"states_saturated":              saturated,
			"transitions":                   total.Transitions,
			"traces_validated_against_impl": total.Execs,
			"pruned_executions":             total.Skipped,
			"executions_per_scenario":       per,
			"rule":                          cfg.Rule,
			"bounds":                        cfg.Bounds,
			"samples":                       total.Samples,
			"exhaustive":                    total.Complete && viol == nil,
		},
		"assumptions": cfg.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", cfg.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d distinct states, %d transitions, exhaustive=%v, %.1fs\n",
		cfg.ID, tier, total.Execs, len(states), total.Transitions, total.Complete && viol == nil, time.Since(start).Seconds())
	for _, s := range cfg.Scenarios {
		fmt.Printf("   %-40s %d\n", s.Name, per[s.Name])
	}
	return rc
}

// crashed re-runs a job whose worker process died, journalling each execution,
// to find the one that kills the process.
func crashed(cfg *Config, j job, deadline time.Time, dead *proc) *jobResult {
	f, err := os.CreateTemp("", "mcj")
	if err != nil {
		return nil
	}
	f.Close()
	defer os.Remove(f.Name())
	todo := []job{j}
	for len(todo) > 0 {
		p, err := spawn(deadline.Add(60*time.Second), f.Name())
		if err != nil {
			return nil
		}
		cur := todo[0]
		todo = todo[1:]
		r, err := p.do(cur)
		if err != nil && r == nil {
			b, _ := os.ReadFile(f.Name())
			var jj struct {
				Sc    int
				Picks []int
			}
			json.Unmarshal(b, &jj)
			msg := string(p.err.b)
			if len(msg) > 4000 {
				msg = msg[:4000]
			}
			return &jobResult{Sc: jj.Sc, Violation: &result{Msg: "the process crashed: " + msg, Picks: jj.Picks}, Complete: true}
		}
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		if r != nil && r.Violation != nil {
			return r
		}
		todo = append(r.Retry, todo...)
	}
	return nil
}
