package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type plan = map[string]any

type failure struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
}

type runResult struct {
	Fails   []failure      `json:"fails"`
	Hash    uint64         `json:"hash"`
	Choices uint64         `json:"choices"`
	Steps   uint64         `json:"steps"`
	SimSec  float64        `json:"sim_sec"`
	Reqs    int            `json:"reqs"`
	Ops     int            `json:"ops"`
	Faults  map[string]int `json:"faults"`
	Probes  map[string]int `json:"probes"`
	Digest  uint64         `json:"digest"`
}

type workerLine struct {
	Seed uint64     `json:"seed"`
	Res  *runResult `json:"res"`
	died string
	bin  string
}

func (l *workerLine) relevant(prop string) []failure {
	var out []failure
	for _, f := range l.Res.Fails {
		for _, p := range f.Props {
			if p == prop {
				out = append(out, f)
			}
		}
	}
	return out
}

// budget of a check.
type budget struct {
	runs     int // over all workers
	seconds  int
	race     int // runs with the race detector
	minimise int // seconds
}

func budgetFor(prop, tier string) budget {
	b := budget{runs: 60000, seconds: 60, minimise: 60}
	if tier == "thorough" {
		b = budget{runs: 4_000_000, seconds: 3000, minimise: 300}
	}
	if n, _ := strconv.Atoi(os.Getenv("VSIM_SECONDS")); n > 0 {
		b.seconds = n
	}
	if n, _ := strconv.Atoi(os.Getenv("VSIM_RUNS")); n > 0 {
		b.runs = n
	}
	if prop == "C13" {
		b.race = b.runs
		b.runs = b.runs / 2
	}
	return b
}

const (
	batch   = 1200
	runWall = 90 * time.Second // one run takes a fraction of a second
)

type collector struct {
	prop   string
	mu     sync.Mutex
	lines  int
	agg    runResult
	hash   map[uint64]bool
	nontr  map[uint64]bool
	fails  []workerLine
	check  []workerLine // to be repeated
	simS   float64
	stop   bool
	died   int
	failed int
}

func (c *collector) add(l *workerLine) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := l.Res
	c.lines++
	c.simS += r.SimSec
	c.agg.Choices += r.Choices
	c.agg.Steps += r.Steps
	c.agg.Reqs += r.Reqs
	c.agg.Ops += r.Ops
	for k, v := range r.Faults {
		c.agg.Faults[k] += v
	}
	for k, v := range r.Probes {
		c.agg.Probes[k] += v
	}
	c.hash[r.Hash] = true
	if r.Reqs > 0 && r.Ops > 0 && r.Choices > 0 {
		c.nontr[r.Digest] = true
	}
	if len(l.relevant(c.prop)) > 0 {
		c.fails = append(c.fails, *l)
		if c.failed++; c.failed >= 24 {
			c.stop, c.failed = true, 0
		}
	} else if len(c.check) < 12 && l.Seed%3 == 0 {
		c.check = append(c.check, *l)
	}
}

func (c *collector) stopped() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.stop }

// work runs seeds on all processors.
func (c *collector) work(bin string, base uint64, runs int, limit time.Duration, tmp string) {
	start := time.Now()
	nw := runtime.NumCPU()
	var next uint64
	var mu sync.Mutex
	take := func() (uint64, int) {
		mu.Lock()
		defer mu.Unlock()
		left := runs - int(next)
		if left <= 0 || c.stopped() || time.Since(start) >= limit {
			return 0, 0
		}
		n := batch
		if x := runs / (nw * 3); n > x {
			n = x + 1
		}
		if n > left {
			n = left
		}
		s := next
		next += uint64(n)
		return base + s, n
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				from, n := take()
				if n == 0 {
					return
				}
				for n > 0 {
					k := c.batch(bin, i, from, n, limit-time.Since(start), tmp)
					if k <= 0 {
						break
					}
					// the worker died; carry on behind that seed
					from += uint64(k)
					n -= k
					if c.stopped() || time.Since(start) >= limit {
						break
					}
				}
			}
		}()
	}
	wg.Wait()
}

// batch runs n seeds in one process. When the process dies, it returns the number of
// seeds used up, otherwise 0.
func (c *collector) batch(bin string, id int, from uint64, n int, limit time.Duration, tmp string) int {
	secs := int(limit/time.Second) + 1
	status := filepath.Join(tmp, fmt.Sprintf("st%d", id))
	_ = os.Remove(status)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "worker", c.prop, fmt.Sprint(from), "1", fmt.Sprint(n), fmt.Sprint(secs), status)
	cmd.Env = simEnv(tmp, id)
	errf, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("err%d", id)))
	cmd.Stderr = errf
	defer errf.Close()
	out, err := cmd.StdoutPipe()
	if err != nil {
		return 0
	}
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start the simulator:", err)
		return 0
	}
	var lastS string
	lastT := time.Now()
	var wd sync.Mutex
	hung := false
	go func() { // a run that does not come to an end in real time
		for ctx.Err() == nil {
			time.Sleep(2 * time.Second)
			b, _ := os.ReadFile(status)
			wd.Lock()
			if string(b) != lastS {
				lastS, lastT = string(b), time.Now()
			} else if time.Since(lastT) > runWall {
				hung = true
				cancel()
			}
			wd.Unlock()
			if c.stopped() {
				time.Sleep(500 * time.Millisecond)
				cancel()
			}
		}
	}()
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var l workerLine
		if json.Unmarshal(sc.Bytes(), &l) == nil && l.Res != nil {
			c.add(&l)
		}
	}
	err = cmd.Wait()
	wd.Lock()
	h := hung
	wd.Unlock()
	if c.stopped() && !h {
		return 0
	}
	b, _ := os.ReadFile(status)
	if strings.HasSuffix(strings.TrimSpace(string(b)), "done") && err == nil {
		return 0
	}
	// it died
	var seed uint64
	ls := strings.Fields(string(b))
	if len(ls) >= 2 {
		seed, _ = strconv.ParseUint(ls[len(ls)-1], 10, 64)
	}
	eb, _ := os.ReadFile(errf.Name())
	msg := tail(string(eb), 3000)
	if h {
		msg = fmt.Sprintf("the run does not end within %v of real time", runWall)
	}
	c.mu.Lock()
	c.died++
	c.fails = append(c.fails, workerLine{Seed: seed, died: msg, Res: &runResult{}})
	if c.died >= 4 {
		c.stop = true
	}
	c.mu.Unlock()
	if seed < from {
		return n
	}
	return int(seed-from) + 1
}

func simEnv(tmp string, id int) []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", id)),
		"VSIM_RACELOG="+filepath.Join(tmp, fmt.Sprintf("race%d", id)), "GODEBUG=")
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// execPlan runs one plan in a process of its own.
func execPlan(bin string, p plan, tmp string, id int) (*workerLine, bool) {
	f := filepath.Join(tmp, fmt.Sprintf("plan%d.json", id))
	b, _ := json.Marshal(p)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, false
	}
	return execFile(bin, f, tmp, id)
}

func execFile(bin, f, tmp string, id int) (*workerLine, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), runWall)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "exec", f)
	cmd.Env = simEnv(tmp, 1000+id)
	var se strings.Builder
	cmd.Stderr = &se
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return &workerLine{died: fmt.Sprintf("the run does not end within %v of real time", runWall), Res: &runResult{}}, true
	}
	if err != nil {
		return &workerLine{died: tail(se.String(), 3000), Res: &runResult{}}, true
	}
	ls := strings.Split(strings.TrimSpace(string(out)), "\n")
	var l workerLine
	if json.Unmarshal([]byte(ls[len(ls)-1]), &l) != nil || l.Res == nil {
		return nil, false
	}
	return &l, true
}

func genPlan(bin, prop string, seed uint64) (plan, error) {
	out, err := exec.Command(bin, "gen", prop, fmt.Sprint(seed)).Output()
	if err != nil {
		return nil, err
	}
	var p plan
	d := json.NewDecoder(strings.NewReader(string(out)))
	d.UseNumber()
	return p, d.Decode(&p)
}

// outcome: what goes wrong against the property, "" if nothing.
func (l *workerLine) outcome(prop string) string {
	if l.died != "" {
		first, _, _ := strings.Cut(l.died, "\n")
		return "the process dies: " + first
	}
	if f := l.relevant(prop); len(f) > 0 {
		return f[0].Msg
	}
	return ""
}

// class reduces a message to what kind of failure it is.
func class(msg string) string {
	if strings.HasPrefix(msg, "data race: ") {
		return msg
	}
	if i := strings.Index(msg, " "); i > 0 && strings.HasPrefix(msg, "t=") {
		msg = msg[i+1:]
	}
	var sb strings.Builder
	for _, w := range strings.Fields(msg) {
		if strings.Contains(w, "://") || strings.ContainsAny(w, "0123456789\"{}[]()=;/") {
			continue
		}
		sb.WriteString(w + " ")
		if sb.Len() > 70 {
			break
		}
	}
	return sb.String()
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Match    string `json:"match"` // all of these space separated... substrings of the message, separated by |
}

func loadKnown(prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &k) == nil && k.Match != "" && k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func (k *knownFinding) matches(msg string) bool {
	for _, s := range strings.Split(k.Match, "|") {
		if !strings.Contains(msg, s) {
			return false
		}
	}
	return true
}

func cmdCheck(prop, tier string) int {
	start := time.Now()
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	base := seed << 32
	b := budgetFor(prop, tier)
	race := b.race > 0
	type bres struct {
		bin string
		err error
	}
	bin, err := buildHarness(false)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	raceBin := ""
	if race {
		if raceBin, err = buildHarness(true); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	buildS := time.Since(start).Seconds()
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	simStart := time.Now()
	newC := func() *collector {
		return &collector{prop: prop, agg: runResult{Faults: map[string]int{}, Probes: map[string]int{}}, hash: map[uint64]bool{}, nontr: map[uint64]bool{}}
	}
	c := newC()
	limit := time.Duration(b.seconds) * time.Second
	if race {
		limit = limit * 4 / 10
	}
	c.work(bin, base, b.runs, limit, tmp)
	plainRuns, raceRuns := c.lines, 0
	for i := range c.fails {
		c.fails[i].bin = bin
	}
	if race {
		if len(c.fails) > 0 { // what was found may not be confirmed
			b.seconds = min(b.seconds, 40)
		}
		c.stop, c.died = false, 0
		c.work(raceBin, base+1<<24, b.race, time.Duration(b.seconds)*time.Second*6/10, tmp)
		raceRuns = c.lines - plainRuns
	}
	for i := range c.fails {
		if c.fails[i].bin == "" {
			c.fails[i].bin = raceBin
		}
	}
	simWall := time.Since(simStart).Seconds()

	// failures, simplest first and one per kind
	sort.Slice(c.fails, func(i, j int) bool { return c.fails[i].Seed < c.fails[j].Seed })
	known := loadKnown(prop)
	seenKnown := map[string]int{}
	violations, unconfirmed := 0, 0
	var replay string
	classes := map[string]bool{}
	for _, l := range c.fails {
		msg := ""
		if l.died != "" {
			msg = l.outcome(prop)
		} else {
			for _, f := range l.relevant(prop) {
				k := false
				for i := range known {
					if known[i].matches(f.Msg) {
						k = true
						seenKnown[known[i].ID]++
					}
				}
				if !k {
					msg = f.Msg
					break
				}
			}
		}
		if msg == "" {
			continue
		}
		cl := class(msg)
		if classes[cl] || violations >= 3 {
			continue
		}
		useBin := l.bin
		p, err := genPlan(useBin, prop, l.Seed)
		if err != nil {
			fmt.Println("ERROR: cannot regenerate seed", l.Seed, err)
			continue
		}
		r, ok := execPlan(useBin, p, tmp, 0)
		if !ok || r.outcome(prop) == "" || (l.died == "" && r.died == "" && r.Res.Digest != l.Res.Digest) {
			unconfirmed++
			fmt.Printf("NOTE: seed %d failed once but not in a process of its own: %.300s\n", l.Seed, msg)
			continue
		}
		classes[cl] = true
		violations++
		if violations == 1 {
			p, r = minimise(useBin, prop, p, r, cl, time.Duration(b.minimise)*time.Second, tmp)
			msg = r.outcome(prop)
		}
		path := writeReplay(prop, l.Seed, p, r, useBin == raceBin && race)
		if replay == "" {
			replay = path
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  seed %d: %s\n", l.Seed, strings.TrimSpace(r.outcome(prop)))
		if r.died != "" {
			fmt.Println(indent(r.died))
		}
	}
	for i := range known {
		if known[i].Match != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, known[i].What, seenKnown[known[i].ID])
		}
	}

	// the same seed gives the same run
	repeated, differing := 0, 0
	if violations == 0 {
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, runtime.NumCPU())
		for i, l := range c.check {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				bb := bin
				if l.Seed >= base+1<<24 {
					bb = raceBin
				}
				p, err := genPlan(bb, prop, l.Seed)
				if err != nil {
					return
				}
				r, ok := execPlan(bb, p, tmp, 100+i)
				mu.Lock()
				defer mu.Unlock()
				repeated++
				if !ok || r.died != "" || r.Res.Digest != l.Res.Digest {
					differing++
					fmt.Printf("NOTE: seed %d does not repeat exactly\n", l.Seed)
				}
			}()
		}
		wg.Wait()
	}
	err = writeEvidence(prop, tier, seed, b, c, evidence{
		buildS: buildS, simWall: simWall, wall: time.Since(start).Seconds(), violations: violations, unconfirmed: unconfirmed,
		repeated: repeated, differing: differing, plain: plainRuns, race: raceRuns, bin: bin, base: base,
	})
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s %s: %d runs (%d with the race detector) in %.0fs after a build of %.0fs, %.1f simulated hours, %d requests, %d faults, %d distinct schedules, %d violations\n",
		prop, tier, c.lines, raceRuns, simWall, buildS, c.simS/3600, c.agg.Reqs, sum(c.agg.Faults), len(c.hash), violations)
	if violations > 0 {
		return 1
	}
	if c.lines == 0 {
		fmt.Println("ERROR: no run was completed")
		return 2
	}
	return 0
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func writeReplay(prop string, seed uint64, p plan, l *workerLine, race bool) string {
	dir := filepath.Join(verifDir(), "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
	p["violation"] = l.outcome(prop)
	p["digest"] = l.Res.Digest
	p["race"] = race
	b, _ := json.MarshalIndent(p, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path
}

// cmdReplay executes a replay file against the current tree.
func cmdReplay(path string, trace bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var p plan
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&p); err != nil {
		fmt.Println(err)
		return 2
	}
	prop, _ := p["prop"].(string)
	race, _ := p["race"].(bool)
	bin, err := buildHarness(race)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if trace {
		cmd := exec.Command(bin, "exec", path, "trace")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		_ = cmd.Run()
	}
	tmp, _ := os.MkdirTemp("", "vsim")
	defer os.RemoveAll(tmp)
	r, ok := execFile(bin, path, tmp, 0)
	if !ok {
		return 2
	}
	fmt.Println("recorded:", p["violation"])
	o := r.outcome(prop)
	fmt.Println("now:     ", o)
	if o == "" {
		return 0
	}
	if fmt.Sprint(p["digest"]) == fmt.Sprint(r.Res.Digest) {
		fmt.Println("the execution is exactly the recorded one")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}
