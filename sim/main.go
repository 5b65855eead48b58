package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Usage:
//
//	sim worker PROP FROM STEP COUNT SECONDS STATUSFILE   run seeds FROM, FROM+STEP, ...
//	sim exec PLANFILE [trace]                            execute one plan
//	sim gen PROP SEED                                    print a plan
func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "exec":
		execPlan(os.Args[2:])
	case "gen":
		s, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(generate(os.Args[2], s), "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

// quiet keeps what the code under test prints out of the results.
var realOut *os.File

func silence() {
	realOut = os.Stdout
	if os.Getenv("VSIM_LOUD") != "" {
		os.Stdout = os.Stderr
		return
	}
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

type workerLine struct {
	Seed uint64     `json:"seed"`
	Res  *runResult `json:"res"`
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func worker(a []string) {
	prop := a[0]
	from, step, count := atoi(a[1]), atoi(a[2]), atoi(a[3])
	limit := time.Duration(atoi(a[4])) * time.Second
	status, err := os.Create(a[5])
	if err != nil {
		panic(err)
	}
	silence()
	out := bufio.NewWriter(realOut)
	defer out.Flush()
	start := time.Now()
	warmUp(prop)
	for i := 0; i < count && time.Since(start) < limit; i++ {
		seed := uint64(from + i*step)
		fmt.Fprintf(status, "S %d\n", seed)
		p := generate(prop, seed)
		tr := os.Getenv("VSIM_TRACESEED") == fmt.Sprint(seed)
		r := runPlan(p, tr)
		if tr { // to compare with an execution in a process of its own
			_ = os.WriteFile(os.Getenv("VSIM_TRACEFILE"), []byte(strings.Join(r.Trace, "\n")+"\n"), 0o600)
			r.Trace = nil
		}
		b, _ := json.Marshal(workerLine{seed, r})
		out.Write(b)
		out.WriteByte('\n')
		if len(relevant(r, prop)) > 0 {
			out.Flush()
		}
		if i%8 == 7 {
			runtime.GC()
		}
	}
	fmt.Fprintf(status, "done\n")
}

func warmUp(prop string) {
	runPlan(generate(prop, 1<<40), false)
	runtime.GC()
}

// relevant are the failures that count against the property.
func relevant(r *runResult, prop string) []failure {
	var out []failure
	for _, f := range r.Fails {
		if contains(f.Props, prop) {
			out = append(out, f)
		}
	}
	return out
}

func execPlan(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		panic(err)
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		panic(err)
	}
	silence()
	warmUp(p.Prop)
	trace := len(a) > 1 && a[1] == "trace"
	r := runPlan(&p, trace)
	for _, l := range r.Trace {
		fmt.Fprintln(realOut, l)
	}
	r.Trace = nil
	o, _ := json.Marshal(workerLine{p.Seed, r})
	fmt.Fprintln(realOut, string(o))
}

func (w *World) traceLines() []string {
	var out []string
	for _, q := range w.reqs {
		b := q.body
		if j := decodeJWT(b); j != nil {
			b = string(j.payload)
		}
		if len(b) > 600 {
			b = b[:600] + "..."
		}
		out = append(out, fmt.Sprintf("%12v %12v op%d %s %s fault=%s status=%d %s", q.at, q.done, q.tag, q.method, q.url, q.fault, q.status, strings.ReplaceAll(b, "\n", " ")))
	}
	for _, r := range w.results {
		out = append(out, fmt.Sprintf("op %d %v-%v %s err=%s chains=%d %s", r.idx, r.t0, r.t1, mustJSON(r.op), r.err, len(r.chains), func() string {
			if r.snap == nil {
				return ""
			}
			return fmt.Sprint(r.snap.paths)
		}()))
	}
	return out
}
