package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type hexKey []byte

func (h hexKey) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *hexKey) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Stats is what the monitors observed; it goes into the evidence.
type Stats struct {
	ops      map[string]int
	shapes   map[string]int
	styles   map[string]int
	counters map[string]int
	obsPos   int
	obsNeg   int
	distinct map[uint64]struct{}
	cases    int
	nontriv  int
	samples  []sample
}

func newStats() *Stats {
	return &Stats{ops: map[string]int{}, shapes: map[string]int{}, styles: map[string]int{}, counters: map[string]int{}, distinct: map[uint64]struct{}{}}
}
func (s *Stats) op(k string)         { s.ops[k]++ }
func (s *Stats) add(k string, n int) { s.counters[k] += n }
func (s *Stats) obs(nonEmpty bool) {
	if nonEmpty {
		s.obsPos++
	} else {
		s.obsNeg++
	}
}
func (s *Stats) merge(o *Stats) {
	for k, v := range o.ops {
		s.ops[k] += v
	}
	for k, v := range o.shapes {
		s.shapes[k] += v
	}
	for k, v := range o.styles {
		s.styles[k] += v
	}
	for k, v := range o.counters {
		s.counters[k] += v
	}
	s.obsPos += o.obsPos
	s.obsNeg += o.obsNeg
	for k := range o.distinct {
		s.distinct[k] = struct{}{}
	}
	s.cases += o.cases
	s.nontriv += o.nontriv
	for _, sm := range o.samples {
		s.sample(sm.i, sm.ops)
	}
}

// A sample is a non-trivial case that is written out in the evidence.
type sample struct {
	i   int
	ops []Op
}

// sample keeps the two cases with the lowest numbers.
func (s *Stats) sample(i int, ops []Op) {
	s.samples = append(s.samples, sample{i, ops})
	sort.Slice(s.samples, func(a, b int) bool { return s.samples[a].i < s.samples[b].i })
	s.samples = s.samples[:min(2, len(s.samples))]
}

// Prop is one property: how its cases are generated and which monitor decides
// them.
type Prop struct {
	ID       string
	Title    string
	Rule     string
	Quick    int // cases
	Thorough int
	Gen      func(r *rand.Rand) ([]Op, string)
	GenAt    func(i int, r *rand.Rand) ([]Op, string) // instead of Gen
	Run      func(ops []Op, st *Stats) error
	// Stress properties generate their own concurrent executions from a case
	// number; Workers limits how many cases run at once.
	Workers int
	// NonTrivial decides, from the stats delta, nothing; a case is non-trivial
	// if the monitor made at least MinObs positive observations in it.
	MinObs   int
	NoShrink bool
	Assume   []string
	// Require lists counters that must be non-zero, or the run is inconclusive.
	Require []string
}

var props []*Prop

type replayFile struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Style    string `json:"style"`
	Error    string `json:"error"`
	Ops      []Op   `json:"ops"`
	OrigOps  int    `json:"original_ops"`
	HowTo    string `json:"how_to"`
}

func caseRand(seed int64, prop string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (p *Prop) gen(seed int64, i int) ([]Op, string) {
	r := caseRand(seed, p.ID, i)
	if p.GenAt != nil {
		return p.GenAt(i, r)
	}
	return p.Gen(r)
}

// runGuarded turns a panic of the code under test into a violation.
func runGuarded(p *Prop, ops []Op, st *Stats) (err error) {
	defer func() {
		if e := recover(); e != nil {
			stack := string(debug.Stack())
			lines := strings.Split(stack, "\n")
			var keep []string
			for _, l := range lines {
				if strings.Contains(l, "/repo/") || strings.Contains(l, "harness/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			err = fmt.Errorf("panic: %v [%s]", e, strings.Join(keep, " | "))
		}
	}()
	return p.Run(ops, st)
}

// shrink is a bounded ddmin over the operations.
func shrink(p *Prop, ops []Op, err error) ([]Op, error) {
	deadline := time.Now().Add(20 * time.Second)
	n := 2
	for len(ops) > 1 && time.Now().Before(deadline) {
		chunk := (len(ops) + n - 1) / n
		progress := false
		for i := 0; i < len(ops) && time.Now().Before(deadline); i += chunk {
			j := min(i+chunk, len(ops))
			cand := append(append([]Op{}, ops[:i]...), ops[j:]...)
			if e := runGuarded(p, cand, newStats()); e != nil {
				ops, err = cand, e
				progress = true
				n = max(n-1, 2)
				break
			}
		}
		if !progress {
			if chunk == 1 {
				break
			}
			n = min(n*2, len(ops))
		}
	}
	return ops, err
}

func writeReplay(dir string, rf replayFile) string {
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", rf.Property, rf.Seed, rf.Case))
	rf.HowTo = "bash /verif/check.sh replay " + f
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func main() {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "PRNG seed")
	out := flag.String("evidence", "", "evidence file to write")
	replayDir := flag.String("replays", "", "directory for replay files")
	replay := flag.String("replay", "", "replay file to execute")
	child := flag.Bool("child", false, "internal: run the cases in this process")
	cases := flag.Int("cases", 0, "override the number of cases")
	level := flag.String("level", "exploration", "evidence level")
	all := flag.Bool("all", false, "keep going after the first violation and print a summary")
	flag.Parse()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p := find(rf.Property)
		tries := 1
		if p.NoShrink {
			tries = 200 // depends on the schedule
		}
		for i := 0; i < tries; i++ {
			if e := runGuarded(p, rf.Ops, newStats()); e != nil {
				fmt.Println("reproduced:", e)
				os.Exit(1)
			}
		}
		fmt.Println("not reproduced")
		return
	}

	p := find(*id)
	if !*child {
		supervise(p, *tier, *seed, *replayDir, *out, *level)
		return
	}
	runChild(p, *tier, *seed, *out, *replayDir, *level, *cases, *all)
}

func find(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	fmt.Println("no such property:", id)
	os.Exit(2)
	return nil
}

// supervise runs the cases in a child, so that an unrecoverable crash of the
// code under test (stack overflow, concurrent map access, a race report, memory
// exhaustion) is still attributed to the case that caused it.
func supervise(p *Prop, tier string, seed int64, replayDir, out, level string) {
	start := time.Now()
	args := append([]string{"-child"}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stdout
	var tail tailBuf
	cmd.Stderr = &tail
	prog, err := os.CreateTemp("", "verif-progress-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	prog.Close()
	defer os.Remove(prog.Name())
	cmd.Env = append(os.Environ(), "VERIF_PROGRESS="+prog.Name(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch code {
	case 0, 1, 3:
		os.Stderr.Write(tail.b)
		os.Remove(prog.Name())
		os.Exit(code)
	}
	// crashed
	b, _ := os.ReadFile(prog.Name())
	os.Remove(prog.Name())
	msg := string(tail.b)
	what := "crash"
	switch {
	case strings.Contains(msg, "WARNING: DATA RACE"):
		what = "data race reported by the race detector"
	case strings.Contains(msg, "stack overflow"):
		what = "unbounded recursion (stack overflow)"
	case strings.Contains(msg, "fatal error:"):
		i := strings.Index(msg, "fatal error:")
		what = strings.SplitN(msg[i:], "\n", 2)[0]
	case strings.Contains(msg, "panic:"):
		i := strings.Index(msg, "panic:")
		what = strings.SplitN(msg[i:], "\n", 2)[0]
	}
	lo := -1
	for _, f := range strings.Fields(string(b)) {
		if n, e := strconv.Atoi(f); e == nil && (lo < 0 || n < lo) {
			lo = n
		}
	}
	if !strings.Contains(msg, "/repo/") && !strings.Contains(msg, "adaptive") {
		// not the code under test: an error of the check, not a verdict
		fmt.Printf("INCONCLUSIVE property=%s child ended with code %d: %s\n%s\n", p.ID, code, what, msg)
		os.Exit(3)
	}
	rf := replayFile{Property: p.ID, Seed: seed, Case: lo, Error: what + "\n" + msg}
	if lo >= 0 {
		rf.Ops, rf.Style = p.gen(seed, lo)
	}
	f := writeReplay(replayDir, rf)
	fmt.Printf("%s: %s (cases in flight: %s)\n%s\n", p.ID, what, strings.TrimSpace(string(b)), msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
	if out != "" {
		writeEvidence(out, crashEvidence(p, tier, seed, level, start, what, f))
	}
	os.Exit(1)
}

// crashEvidence is the evidence of a run that ended in the middle of a case.
func crashEvidence(p *Prop, tier string, seed int64, level string, start time.Time, what, replay string) map[string]any {
	return map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": level,
		"wall_s": time.Since(start).Seconds(), "violations": 1, "assumptions": []string{},
		"coverage": map[string]any{
			"evaluations": 1, "distinct_nontrivial": 1, "rule": p.Rule,
			"samples": []any{what, replay},
		},
	}
}

// writeEvidence replaces the evidence file in one step, so that it is never
// seen empty or half written.
func writeEvidence(out string, ev map[string]any) {
	err := func() error {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		f, err := os.Create(out + ".new")
		if err != nil {
			return err
		}
		if _, err := f.Write(append(b, '\n')); err != nil {
			return err
		}
		if err := f.Sync(); err != nil {
			return err
		}
		if err := f.Close(); err != nil {
			return err
		}
		if err := os.Rename(out+".new", out); err != nil {
			return err
		}
		if d, err := os.Open(filepath.Dir(out)); err == nil {
			d.Sync()
			d.Close()
		}
		return nil
	}()
	if err != nil {
		fmt.Println("ERROR: evidence:", err)
		os.Exit(2)
	}
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 16000 {
		t.b = append(t.b, p[:min(len(p), 16000-len(t.b))]...)
	}
	return len(p), nil
}

type violation struct {
	i     int
	style string
	ops   []Op
	err   error
}

func runChild(p *Prop, tier string, seed int64, out, replayDir, level string, override int, all bool) {
	debug.SetMaxStack(256 << 20)
	start := time.Now()
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if override > 0 {
		n = override
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	var next int64 = -1
	var stop atomic.Bool
	var mu sync.Mutex
	var vio *violation
	summary := map[string]int{}
	total := newStats()
	inflight := make([]int64, workers)
	since := make([]int64, workers)
	for i := range inflight {
		inflight[i] = -1
	}
	progress := os.Getenv("VERIF_PROGRESS")
	writeProgress := func() {
		if progress == "" {
			return
		}
		var sb strings.Builder
		for i := range inflight {
			if c := atomic.LoadInt64(&inflight[i]); c >= 0 {
				fmt.Fprintf(&sb, "%d ", c)
			}
		}
		os.WriteFile(progress, []byte(sb.String()), 0o644)
	}
	// Watchdog: a single case normally takes milliseconds. One that has not
	// finished after five minutes, or eats memory without bound, does not
	// terminate; that is a violation of every property here (all promise a
	// result).
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			writeProgress()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			stuck := -1
			for i := range since {
				if s := atomic.LoadInt64(&since[i]); s != 0 && time.Since(time.Unix(0, s)) > 5*time.Minute {
					stuck = i
				}
			}
			if stuck >= 0 || ms.HeapAlloc > 12<<30 {
				what := "an operation did not return within five minutes"
				if stuck < 0 {
					what = "memory use grew without bound"
					stuck = 0
					for i := range since {
						if a, b := atomic.LoadInt64(&since[i]), atomic.LoadInt64(&since[stuck]); a != 0 && (b == 0 || a < b) {
							stuck = i
						}
					}
				}
				c := int(atomic.LoadInt64(&inflight[stuck]))
				rf := replayFile{Property: p.ID, Seed: seed, Case: c, Error: what}
				if c >= 0 {
					rf.Ops, rf.Style = p.gen(seed, c)
				}
				f := writeReplay(replayDir, rf)
				fmt.Printf("%s: %s (case %d)\n", p.ID, what, c)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
				if out != "" {
					writeEvidence(out, crashEvidence(p, tier, seed, level, start, what, f))
				}
				os.Exit(1)
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			st := newStats()
			for !stop.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					break
				}
				atomic.StoreInt64(&inflight[w], int64(i))
				atomic.StoreInt64(&since[w], time.Now().UnixNano())
				ops, style := p.gen(seed, i)
				if strings.Contains(style, "+") {
					st.styles["combinations of two styles"]++
				} else {
					st.styles[style]++
				}
				st.cases++
				before := st.obsPos
				err := runGuarded(p, ops, st)
				if st.obsPos-before >= p.MinObs {
					h := fnv.New64a()
					for _, o := range ops {
						fmt.Fprintf(h, "%s %x %d %d;", o.K, []byte(o.A), o.N, o.V)
					}
					if _, dup := st.distinct[h.Sum64()]; !dup {
						st.distinct[h.Sum64()] = struct{}{}
						st.nontriv++
					}
					if len(st.samples) < 2 {
						st.sample(i, ops)
					}
				}
				atomic.StoreInt64(&since[w], 0)
				if err != nil {
					mu.Lock()
					if all {
						k := err.Error()
						if j := strings.IndexAny(k, "(:"); j > 0 {
							k = k[:j]
						}
						summary[k]++
					}
					if vio == nil || i < vio.i {
						vio = &violation{i, style, ops, err}
					}
					mu.Unlock()
					if !all {
						stop.Store(true)
					}
				}
			}
			atomic.StoreInt64(&inflight[w], -1)
			mu.Lock()
			total.merge(st)
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	close(done)
	nv := 0
	exit := 0
	if vio != nil {
		nv = 1
		exit = 1
		orig := len(vio.ops)
		ops, err := vio.ops, vio.err
		if !p.NoShrink {
			ops, err = shrink(p, ops, err)
		}
		f := writeReplay(replayDir, replayFile{Property: p.ID, Seed: seed, Case: vio.i, Style: vio.style, Error: err.Error(), Ops: ops, OrigOps: orig})
		fmt.Printf("%s: case %d (%s, %d ops, shrunk to %d): %v\n", p.ID, vio.i, vio.style, orig, len(ops), err)
		if len(ops) <= 40 {
			for _, o := range ops {
				fmt.Printf("   %s %q v=%d n=%d\n", o.K, []byte(o.A), o.V, o.N)
			}
		}
		for k, c := range summary {
			fmt.Printf("   summary: %6d  %s\n", c, k)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
	} else {
		for _, c := range p.Require {
			if total.counters[c] == 0 && total.ops[c] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s: nothing observed for %q\n", p.ID, c)
				exit = 3
			}
		}
		if total.obsPos == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: the monitors observed nothing\n", p.ID)
			exit = 3
		}
	}
	wall := time.Since(start).Seconds()
	if out != "" {
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": level,
			"wall_s": wall, "violations": nv, "assumptions": p.Assume,
			"coverage": map[string]any{
				"evaluations":           total.cases,
				"distinct_nontrivial":   len(total.distinct),
				"rule":                  p.Rule,
				"samples":               samples(total),
				"operations_executed":   total.ops,
				"observations_nonempty": total.obsPos,
				"observations_empty":    total.obsNeg,
				"radix_shapes_reached":  total.shapes,
				"key_pool_styles":       total.styles,
				"monitor_counters":      total.counters,
			},
		}
		if p.Assume == nil {
			ev["assumptions"] = []string{}
		}
		writeEvidence(out, ev)
	}
	if exit == 0 {
		fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %d+%d observations, %.1fs\n", p.ID, total.cases, len(total.distinct), total.obsPos, total.obsNeg, wall)
	}
	os.Exit(exit)
}

func samples(s *Stats) []any {
	var out []any
	for _, sm := range s.samples {
		lines := []string{fmt.Sprintf("case %d, %d operations", sm.i, len(sm.ops))}
		for j, o := range sm.ops {
			if j == 60 {
				lines = append(lines, "...")
				break
			}
			l := fmt.Sprintf("%s %q", o.K, []byte(o.A[:min(80, len(o.A))]))
			if len(o.A) > 80 {
				l += fmt.Sprintf("... (%d bytes)", len(o.A))
			}
			if o.V != 0 {
				l += fmt.Sprintf(" v=%d", o.V)
			}
			if o.N != 0 {
				l += fmt.Sprintf(" n=%d", o.N)
			}
			lines = append(lines, l)
		}
		out = append(out, lines)
	}
	if out == nil {
		var ks []string
		for k := range s.counters {
			ks = append(ks, fmt.Sprintf("%s=%d", k, s.counters[k]))
		}
		sort.Strings(ks)
		out = append(out, ks)
	}
	return out
}
