// Command harness runs the monitored workloads against the library in /repo.
//
//	harness run   -property C01 -tier quick -seed 1 -out DIR   supervises worker processes, writes evidence
//	harness work  ...                                          one worker (internal)
//	harness replay FILE                                        runs again the case of a replay file
//	harness list
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|work|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2:]))
	case "work":
		os.Exit(work(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "digest":
		var s uint64
		fmt.Sscan(os.Args[2], &s)
		digest(s)
	case "cold":
		var s uint64
		fmt.Sscan(os.Args[2], &s)
		cold(s)
	case "list":
		for _, id := range ids() {
			p := props[id]
			fmt.Printf("%s race=%v quick=%d thorough=%d\n", id, p.Race, p.Quick, p.Thorough)
		}
	default:
		os.Exit(2)
	}
}

func ids() []string {
	var r []string
	for id := range props {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

type message struct {
	V *Violation `json:"v,omitempty"`
	S *Stats     `json:"s,omitempty"`
}

// work runs the cases i with i % shards == shard, i >= from. It journals the case it is in, so that the
// supervisor can attribute a death of the process to it.
func work(args []string) int {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 0, "")
	journal := fs.String("journal", "", "")
	_ = fs.Parse(args)
	p := props[*prop]
	if p == nil {
		return 2
	}
	debug.SetGCPercent(200)
	rec := newRecorder()
	out := bufio.NewWriter(os.Stdout)
	var outMu sync.Mutex
	send := func(m message) {
		outMu.Lock()
		defer outMu.Unlock()
		b, _ := json.Marshal(m)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	var jf *os.File
	if *journal != "" {
		jf, _ = os.OpenFile(*journal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	var mu sync.Mutex
	cur, start := -1, cpuSeconds()
	go func() { // runaway monitor: decides on CPU time and heap, not on wall clock
		for range time.Tick(500 * time.Millisecond) {
			mu.Lock()
			i, s := cur, start
			mu.Unlock()
			if i < 0 {
				continue
			}
			var ms runtime.MemStats
			why := ""
			if used := cpuSeconds() - s; used > p.MaxCPU {
				why = fmt.Sprintf("one case used %.0f CPU seconds", used)
			} else if runtime.ReadMemStats(&ms); ms.HeapAlloc > 3<<30 {
				why = fmt.Sprintf("one case uses %d MB of heap", ms.HeapAlloc>>20)
			}
			if why != "" {
				mu.Lock()
				same := i == cur
				mu.Unlock()
				if same {
					send(message{V: &Violation{Property: p.ID, Seed: *seed, Tier: *tier, Case: i, Kind: "runaway", Detail: why}})
					os.Exit(4)
				}
			}
		}
	}()
	sent := 0
	for i := *from; i < *n; i++ {
		if i%*shards != *shard {
			continue
		}
		if jf != nil {
			_, _ = jf.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		mu.Lock()
		cur, start = i, cpuSeconds()
		mu.Unlock()
		runCase(p, rec, *seed, *tier, i)
		if d := cpuSeconds() - start; d > rec.stats.Slowest {
			rec.stats.Slowest, rec.stats.SlowIdx = d, i
		}
		for ; sent < len(rec.viols); sent++ {
			send(message{V: rec.viols[sent]})
		}
		if sent >= 3 {
			break
		}
	}
	mu.Lock()
	cur = -1
	mu.Unlock()
	send(message{S: rec.snapshot()})
	return 0
}

func supervise(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	outDir := fs.String("out", "/verif/evidence", "")
	nCases := fs.Int("n", 0, "override the number of cases")
	known := fs.String("known", "", "known findings file")
	wall := fs.Duration("wall", 14*time.Minute, "wall clock safety net; reaching it is inconclusive")
	_ = fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	t0 := time.Now()
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *nCases > 0 {
		n = *nCases
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Serial {
		shards = 1
	}
	if shards > n {
		shards = n
	}
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	self, _ := os.Executable()
	total := Stats{Counts: map[string]int{}}
	sigs := map[uint64]bool{}
	var viols []*Violation
	var mu sync.Mutex
	inconclusive := ""
	var wg sync.WaitGroup
	deadline := time.Now().Add(*wall)
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			journal := filepath.Join(tmp, fmt.Sprintf("j%d", k))
			raceLog := filepath.Join(tmp, fmt.Sprintf("race%d", k))
			cmd := exec.Command(self, "work", "-property", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed),
				"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards), "-n", fmt.Sprint(n), "-journal", journal)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog, "GOTRACEBACK=single", "VERIF_SCRATCH="+tmp)
			var errBuf tailBuffer
			cmd.Stderr = &errBuf
			pipe, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				mu.Lock()
				inconclusive = err.Error()
				mu.Unlock()
				return
			}
			timer := time.AfterFunc(time.Until(deadline), func() {
				mu.Lock()
				inconclusive = "wall clock safety net reached"
				mu.Unlock()
				_ = cmd.Process.Kill()
			})
			done, sawV := false, false
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var m message
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				if m.V != nil {
					viols = append(viols, m.V)
					sawV = true
				}
				if m.S != nil {
					done = true
					total.Cases += m.S.Cases
					if m.S.Slowest > total.Slowest {
						total.Slowest, total.SlowIdx = m.S.Slowest, m.S.SlowIdx
					}
					for k, v := range m.S.Counts {
						total.Counts[k] += v
					}
					for _, h := range m.S.Sigs {
						sigs[h] = true
					}
					total.Samples = append(total.Samples, m.S.Samples...)
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			timer.Stop()
			mu.Lock()
			defer mu.Unlock()
			if !done && !sawV && inconclusive == "" {
				b, _ := os.ReadFile(journal)
				i := -1
				fmt.Sscanf(strings.TrimSpace(string(b)), "%d", &i)
				viols = append(viols, &Violation{Property: p.ID, Seed: *seed, Tier: *tier, Case: i, Kind: "process-death",
					Detail: fmt.Sprintf("worker ended with %v\n%s", err, errBuf.String())})
			}
			if logs, _ := filepath.Glob(raceLog + "*"); len(logs) > 0 {
				for _, l := range logs {
					b, _ := os.ReadFile(l)
					blocks := strings.Count(string(b), "WARNING: DATA RACE")
					total.Counts["race_reports"] += blocks
					if blocks > 0 {
						viols = append(viols, &Violation{Property: p.ID, Seed: *seed, Tier: *tier, Case: -1, Kind: "data-race",
							Detail: clip(string(b), 6000)})
					}
				}
			}
		}(k)
	}
	wg.Wait()

	sort.Slice(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })
	harnessBug := false
	var real []*Violation
	for _, v := range viols {
		if v.Kind == "harness-panic" {
			harnessBug = true
			fmt.Fprintln(os.Stderr, "harness error:", v.Detail)
			continue
		}
		real = append(real, v)
	}
	real, knownSeen := filterKnown(*known, p.ID, real)
	for _, k := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}

	cov := map[string]any{
		"evaluations":         total.Cases,
		"distinct_nontrivial": len(sigs),
		"rule":                p.Rule,
		"observed":            total.Counts,
		"samples":             firstN(total.Samples, 4),
		"workers":             shards,
		"slowest_case_cpu_s":  round2(total.Slowest),
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "wall_s": round2(time.Since(t0).Seconds()), "violations": len(real),
		"assumptions": []string{"the property held on the executions counted here; nothing is claimed about inputs and schedules the workload does not produce"},
	}
	_ = os.MkdirAll(*outDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*outDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(real) > 0 {
		v := real[0]
		dir := filepath.Join(*outDir, "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-case%d.json", p.ID, *tier, *seed, v.Case))
		vb, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, append(vb, '\n'), 0o644)
		for i, v := range real {
			if i == 4 {
				break
			}
			fmt.Printf("%s case %d: %s: %s\n", p.ID, v.Case, v.Kind, clip(v.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if harnessBug {
		return 2
	}
	if inconclusive != "" {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s %s\n", p.ID, inconclusive)
		return 2
	}
	for k, m := range p.Min {
		if *nCases == 0 && total.Counts[k] < m {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s observed only %d of %q (need %d)\n", p.ID, total.Counts[k], k, m)
			return 2
		}
	}
	fmt.Printf("%s held on %d cases (%d distinct non-trivial), %.1fs, slowest case %d: %.1f CPU s; observed %v\n", p.ID, total.Cases, len(sigs), time.Since(t0).Seconds(), total.SlowIdx, total.Slowest, total.Counts)
	return 0
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func firstN(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	if s == nil {
		s = []string{}
	}
	return s
}

// tailBuffer keeps the first and last part of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 4000 {
		t.head = append(t.head, b...)
	} else {
		t.tail = append(t.tail, b...)
		if len(t.tail) > 4000 {
			t.tail = t.tail[len(t.tail)-2000:]
		}
	}
	return len(b), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return clip(string(t.head), 4000) + "\n…\n" + string(t.tail)
}

// filterKnown takes out violations listed as known findings (matched by property, kind and a substring of
// the witness), so that any other violation is still reported.
func filterKnown(path, id string, vs []*Violation) (rest []*Violation, seen []string) {
	var file struct {
		Findings []struct{ Property, Kind, Match, What string }
	}
	if path != "" {
		if b, err := os.ReadFile(path); err == nil {
			_ = json.Unmarshal(b, &file)
		}
	}
	got := map[string]bool{}
	for _, v := range vs {
		k := ""
		for _, f := range file.Findings {
			if f.Property == id && f.Kind == v.Kind && f.Match != "" && strings.Contains(v.Detail, f.Match) {
				k = f.What
			}
		}
		if k == "" {
			rest = append(rest, v)
		} else if !got[k] {
			got[k] = true
			seen = append(seen, k)
		}
	}
	return rest, seen
}

func replay(args []string) int {
	if len(args) != 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil || props[v.Property] == nil {
		fmt.Fprintln(os.Stderr, "not a replay file", err)
		return 2
	}
	rec := newRecorder()
	if c := runCase(props[v.Property], rec, v.Seed, v.Tier, v.Case); os.Getenv("VERIF_DUMP") != "" {
		for k, s := range c.inputs {
			fmt.Printf("=== %s\n%s\n", k, s)
		}
	}
	for _, w := range rec.viols {
		fmt.Printf("%s case %d: %s: %s\n", w.Property, w.Case, w.Kind, w.Detail)
		for k, s := range w.Inputs {
			fmt.Printf("--- %s\n%s\n", k, s)
		}
	}
	if len(rec.viols) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, args[0])
		return 1
	}
	fmt.Println("case held")
	return 0
}
