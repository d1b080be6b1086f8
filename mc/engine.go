package main

// The explorer: every worker process enumerates the same finite case space in
// the same order and executes the cases whose index falls to its shard.  A
// case is one execution of the real code compared with the reference model.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Level       string // default model_checking
	Secs        []gsec
	Workers     int // 0: default
	Run         func(c *C)
	Replay      func(c *C, input string) // nil: Diff program
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	props[p.ID] = p
}

type Violation struct {
	Key   string `json:"key"`
	Kind  string `json:"kind"`
	Input string `json:"input"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

type Result struct {
	Cases       int64            `json:"cases"`
	Skipped     int64            `json:"skipped"`
	Transitions int64            `json:"transitions"`
	States      int64            `json:"states"`
	Sections    map[string]int64 `json:"sections"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Deadline    bool             `json:"deadline"`
	Resume      int64            `json:"resume"` // >0: continue in a fresh process from this case
	Flaky       int64            `json:"flaky"`
	SkipWhy     map[string]int64 `json:"skip_why"`
}

// C is the context of one worker.
type C struct {
	prop     *Prop
	tier     string
	shard, n int
	idx      int64
	deadline time.Time
	cur      []byte // mmap'ed description of the running case
	res      Result
	section  string
	outcomes map[uint64]struct{}
	world    *implWorld
	worldUse int
	worldMax int // cases per World
	wildSet  int
	stopped  bool
	replay   bool
	uid      int64
	scratch  string
	skipSet  map[int64]bool
	from     int64  // cases before this one were done by an earlier process
	only     string // replay: execute just this case
}

const curSize = 1 << 16

func (c *C) Thorough() bool { return c.tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *C) Section(name string) { c.section = name }

func (c *C) Stop() bool { return c.stopped }

// Take reports whether the next case of the enumeration belongs to this worker.
func (c *C) Take() bool {
	i := c.idx
	c.idx++
	if c.stopped {
		return false
	}
	if i%int64(c.n) != int64(c.shard) || i < c.from {
		return false
	}
	if i/int64(c.n)%1024 == 1023 && c.heap() > heapLimit {
		// Global variables outlive their World; a fresh process has none.
		c.stopped = true
		c.res.Resume = i
		return false
	}
	if i/int64(c.n)%64 == 0 && time.Now().After(c.deadline) {
		c.stopped = true
		c.res.Deadline = true
		return false
	}
	if c.skipSet != nil && c.skipSet[i] {
		return false
	}
	return true
}

const heapLimit = 1200 << 20

func (c *C) heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func (c *C) setCur(input string) {
	if c.cur == nil {
		return
	}
	n := len(input)
	if n > curSize-64 {
		n = curSize - 64
	}
	binary.LittleEndian.PutUint64(c.cur[0:], uint64(c.idx-1))
	binary.LittleEndian.PutUint64(c.cur[8:], uint64(n))
	copy(c.cur[16:], input[:n])
	binary.LittleEndian.PutUint64(c.cur[curSize-8:], binary.LittleEndian.Uint64(c.cur[curSize-8:])+1)
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a distinct model state (canonical form).
func (c *C) State(canon string) bool {
	h := hash64(canon)
	if _, ok := c.outcomes[h]; ok {
		return false
	}
	if len(c.outcomes) < 4_000_000 {
		c.outcomes[h] = struct{}{}
	}
	return true
}

func (c *C) count(input string) {
	c.res.Cases++
	c.res.Sections[c.section]++
	if n := c.res.Cases; n == 1 || n == 100 || n == 5000 {
		if len(input) > 600 {
			input = input[:600] + "..."
		}
		c.res.Samples = append(c.res.Samples, c.section+": "+input)
	}
}

// Case executes one case; f returns what the model demands and what the code did.
// A difference is confirmed five times before it counts.
func (c *C) Case(kind, input string, f func() (want, got string)) bool {
	if c.only != "" && c.only != input {
		return true
	}
	c.setCur(input)
	c.count(input)
	want, got := guarded(f)
	c.res.Transitions++
	if want == got {
		c.State(want)
		return true
	}
	for i := 0; i < 5; i++ {
		c.ResetWorld()
		w2, g2 := guarded(f)
		if w2 == g2 {
			c.res.Flaky++
			c.History(kind, input, want, got)
			return false
		}
		want, got = w2, g2
	}
	c.ResetWorld()
	c.Violate(Violation{Kind: kind, Input: input, Want: want, Got: got})
	return false
}

// History is called for a difference that did not repeat in a fresh world.
func (c *C) History(kind, input, want, got string) {
	fmt.Fprintf(noteOut, "note: not reproduced in a fresh world: %s %s\n want %s\n got  %s\n", kind, input, want, got)
}

func (c *C) Violate(v Violation) {
	v.Key = fmt.Sprintf("%016x", hash64(v.Kind+"\x00"+v.Input))
	if len(c.res.Violations) < 200 {
		c.res.Violations = append(c.res.Violations, v)
	}
	if c.replay {
		return
	}
	if f := os.Getenv("MC_FIRST"); f != "" {
		os.WriteFile(f, []byte(v.Input+"\n  want: "+v.Want+"\n  got:  "+v.Got), 0o644)
	}
	if len(c.res.Violations) >= 200 {
		c.stopped = true
	}
}

func (c *C) Skip(why string) {
	c.res.Skipped++
	if i := strings.IndexByte(why, ':'); i > 0 {
		why = why[:i]
	}
	c.res.SkipWhy[why]++
}

func guarded(f func() (string, string)) (want, got string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(harnessBug); ok {
				panic(string(s))
			}
			want = "no host panic"
			got = fmt.Sprintf("HOST PANIC: %v", r)
			if os.Getenv("MC_STACK") != "" {
				got += "\n" + string(debug.Stack())
			}
		}
	}()
	return f()
}

type harnessBug string

// ---- worker and parent -------------------------------------------------

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func newC(p *Prop, tier string, shard, n int, deadline time.Time) *C {
	return &C{prop: p, tier: tier, shard: shard, n: n, deadline: deadline, worldMax: 2000,
		outcomes: map[uint64]struct{}{},
		res:      Result{Sections: map[string]int64{}, SkipWhy: map[string]int64{}}}
}

func mapCur(name string) []byte {
	fd, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	if err := fd.Truncate(curSize); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(fd.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return m
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Float64("secs", 60, "")
	dir := fs.String("dir", "", "")
	skip := fs.String("skip", "", "")
	from := fs.Int64("from", 0, "")
	fs.Parse(args[1:])
	p := props[args[0]]
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	c := newC(p, *tier, *shard, *n, time.Now().Add(time.Duration(*secs*float64(time.Second))))
	c.from = *from
	c.cur = mapCur(filepath.Join(*dir, fmt.Sprintf("cur.%d", *shard)))
	if *skip != "" {
		c.skipSet = map[int64]bool{}
		for _, s := range strings.Split(*skip, ",") {
			i, _ := strconv.ParseInt(s, 10, 64)
			c.skipSet[i] = true
		}
	}
	c.scratch = filepath.Join(*dir, fmt.Sprintf("scratch.%d", *shard))
	os.MkdirAll(c.scratch, 0o755)
	if err := os.Chdir(c.scratch); err != nil {
		panic(err)
	}
	if os.Getenv("MC_SIZES") == "" { // set: the size ladders alone
		p.Run(c)
	}
	runLadders(c)
	if name := os.Getenv("MC_HEAP"); name != "" {
		fd, _ := os.Create(name)
		runtime.GC()
		pprof.WriteHeapProfile(fd)
		fd.Close()
	}
	c.res.States = int64(len(c.outcomes))
	fd, _ := os.Create(filepath.Join(*dir, fmt.Sprintf("states.%d", *shard)))
	bw := bufio.NewWriter(fd)
	for h := range c.outcomes {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	fd.Close()
	out, _ := json.Marshal(&c.res)
	if err := os.WriteFile(filepath.Join(*dir, fmt.Sprintf("result.%d", *shard)), out, 0o644); err != nil {
		panic(err)
	}
}

type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind,omitempty"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

func loadKnown() []known {
	var r struct {
		Findings []known `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r.Findings
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	defTier := os.Getenv("VERIF_TIER")
	if defTier == "" {
		defTier = "quick"
	}
	tier := fs.String("tier", defTier, "")
	workers := fs.Int("workers", 0, "")
	secs := fs.Float64("secs", 0, "")
	verbose := fs.Bool("v", false, "")
	maxShow := fs.Int("show", 10, "")
	fs.Parse(args[1:])
	p, ok := props[args[0]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		return 2
	}
	n := 8
	if p.Workers > 0 {
		n = p.Workers
	}
	if *workers > 0 {
		n = *workers
	}
	if *secs == 0 {
		if *tier == "thorough" {
			*secs = 780
		} else {
			*secs = 420
		}
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	results := make([][]Result, n)
	states := map[uint64]struct{}{}
	var mu sync.Mutex
	extra := make([][]Violation, n)
	var incomplete atomic.Bool
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			var skip []string
			from := int64(0)
			for attempt := 0; ; attempt++ {
				left := *secs - time.Since(start).Seconds()
				if left < 1 {
					incomplete.Store(true)
					return
				}
				var stderr bytes.Buffer
				cmd := exec.Command(self, "worker", p.ID, "-shard", strconv.Itoa(s), "-n", strconv.Itoa(n),
					"-tier", *tier, "-secs", fmt.Sprint(left), "-dir", dir, "-skip", strings.Join(skip, ","), "-from", strconv.FormatInt(from, 10))
				cmd.Stderr = &limitWriter{buf: &stderr, max: 1 << 20}
				cmd.Stdout = &limitWriter{buf: &bytes.Buffer{}, max: 1 << 16}
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				if err := cmd.Start(); err != nil {
					panic(err)
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				var werr error
				hung := false
				curName := filepath.Join(dir, fmt.Sprintf("cur.%d", s))
				lastTick := uint64(0)
				lastMove := time.Now()
			loop:
				for {
					select {
					case werr = <-done:
						break loop
					case <-time.After(time.Second):
						_, _, tick := readCur(curName)
						if tick != lastTick {
							lastTick, lastMove = tick, time.Now()
						} else if time.Since(lastMove) > hangLimit {
							hung = true
							cmd.Process.Kill()
							werr = <-done
							break loop
						}
					}
				}
				if *verbose && stderr.Len() > 0 {
					os.Stderr.Write(tail(stderr.Bytes(), 3000))
				}
				if werr == nil {
					var r Result
					b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", s)))
					if err == nil {
						err = json.Unmarshal(b, &r)
					}
					if err != nil {
						fmt.Fprintln(os.Stderr, "no result of a worker:", err)
						incomplete.Store(true)
						return
					}
					b, _ = os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%d", s)))
					mu.Lock()
					results[s] = append(results[s], r)
					for i := 0; i+8 <= len(b); i += 8 {
						states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
					}
					mu.Unlock()
					if r.Resume > 0 {
						from = r.Resume
						attempt--
						continue
					}
					if stderr.Len() > 0 && *verbose {
						os.Stderr.Write(tail(stderr.Bytes(), 2000))
					}
					return
				}
				// The process died while running a case: attribute it.
				idx, input, tick := readCur(curName)
				if tick == 0 {
					fmt.Fprintf(os.Stderr, "worker %d failed before its first case: %v\n%s\n", s, werr, tail(stderr.Bytes(), 3000))
					incomplete.Store(true)
					return
				}
				why := "process died: " + firstLine(stderr.String())
				if hung {
					why = fmt.Sprintf("no progress for %v", hangLimit)
				}
				if strings.Contains(stderr.String(), "harness bug") {
					fmt.Fprintf(os.Stderr, "HARNESS BUG in case %q\n%s\n", input, tail(stderr.Bytes(), 4000))
					incomplete.Store(true)
					return
				}
				if !hung && confirmCrash(self, p.ID, dir, s, input) || hung {
					extra[s] = append(extra[s], Violation{Kind: "crash", Input: input, Want: "a value or an error", Got: why})
				} else {
					fmt.Fprintf(os.Stderr, "worker %d died (%v) in case %q; not reproduced alone\n%s\n", s, werr, input, tail(stderr.Bytes(), 3000))
					incomplete.Store(true)
				}
				skip = append(skip, strconv.FormatInt(int64(idx), 10))
				// One hang is enough to report; the rest would take too long.
				if len(extra[s]) >= 5 || attempt > 10 || hung {
					incomplete.Store(true)
					return
				}
			}
		}(s)
	}
	wg.Wait()

	// merge
	total := Result{Sections: map[string]int64{}, SkipWhy: map[string]int64{}}
	exhaustive := !incomplete.Load()
	var flat []*Result
	for s := range results {
		for i := range results[s] {
			flat = append(flat, &results[s][i])
		}
		for _, v := range extra[s] {
			v.Key = fmt.Sprintf("%016x", hash64(v.Kind+"\x00"+v.Input))
			total.Violations = append(total.Violations, v)
		}
	}
	for _, r := range flat {
		total.Cases += r.Cases
		total.Skipped += r.Skipped
		total.Transitions += r.Transitions
		total.Flaky += r.Flaky
		for k, v := range r.Sections {
			total.Sections[k] += v
		}
		for k, v := range r.SkipWhy {
			total.SkipWhy[k] += v
		}
		if len(r.Samples) > 0 && len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.Violations = append(total.Violations, r.Violations...)
		if r.Deadline {
			exhaustive = false
		}
	}
	sort.SliceStable(total.Violations, func(i, j int) bool {
		return len(total.Violations[i].Input) < len(total.Violations[j].Input)
	})
	knowns := loadKnown()
	var fresh []Violation
	seenKnown := map[string]bool{}
	for _, v := range total.Violations {
		hit := false
		for _, k := range knowns {
			if k.Property == p.ID && k.Input == v.Input && (k.Kind == "" || k.Kind == v.Kind) {
				hit = true
				if !seenKnown[k.Input] {
					seenKnown[k.Input] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.Input, k.What)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states":                         len(states),
		"transitions":                    total.Transitions,
		"traces_validated_against_impl":  total.Cases,
		"evaluations":                    total.Cases,
		"distinct_nontrivial":            len(states),
		"rule":                           p.Rule,
		"samples":                        total.Samples,
		"exhaustive":                     exhaustive && total.Flaky == 0,
		"sections":                       total.Sections,
		"outside_the_defined_behaviour":  total.Skipped,
		"outside_by_reason":              total.SkipWhy,
		"not_reproduced_in_fresh_worlds": total.Flaky,
		"workers":                        n,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%s %s: cases=%d skipped=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n",
		p.ID, *tier, total.Cases, total.Skipped, len(states), total.Transitions, exhaustive, time.Since(start).Seconds())
	if *verbose {
		fmt.Println("sections:", total.Sections, "skips:", total.SkipWhy)
	}
	if len(fresh) == 0 {
		return 0
	}
	repDir := filepath.Join(evDir, "replays")
	os.MkdirAll(repDir, 0o755)
	for i, v := range fresh {
		if i >= *maxShow {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		name := filepath.Join(repDir, p.ID+"-"+v.Key+".json")
		rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "kind": v.Kind, "input": v.Input, "want": v.Want, "got": v.Got,
			"how": "/verif/run replay " + name}, "", " ")
		os.WriteFile(name, append(rb, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  want: %s\n  got:  %s\n", p.ID, name, v.Input, v.Want, v.Got)
	}
	return 1
}

var hangLimit = 100 * time.Second

type limitWriter struct {
	buf *bytes.Buffer
	max int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.buf.Len() < l.max {
		l.buf.Write(p)
	}
	return len(p), nil
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal") || strings.Contains(l, "panic") || strings.Contains(l, "exceeds") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

func readCur(name string) (uint64, string, uint64) {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < curSize {
		return 0, "", 0
	}
	n := binary.LittleEndian.Uint64(b[8:])
	if n > curSize-64 {
		n = 0
	}
	return binary.LittleEndian.Uint64(b), string(b[16 : 16+n]), binary.LittleEndian.Uint64(b[curSize-8:])
}

// confirmCrash runs one case alone, twice, in its own process.
func confirmCrash(self, prop, dir string, s int, input string) bool {
	name := filepath.Join(dir, fmt.Sprintf("crash.%d.json", s))
	b, _ := json.Marshal(map[string]any{"property": prop, "input": input, "kind": map[bool]string{true: "graph"}[graphMode]})
	os.WriteFile(name, b, 0o644)
	for i := 0; i < 2; i++ {
		ctx, stop := context.WithTimeout(context.Background(), hangLimit)
		cmd := exec.CommandContext(ctx, self, "replay", "-crash", name)
		cmd.Stderr = &limitWriter{buf: &bytes.Buffer{}, max: 1 << 16}
		err := cmd.Run()
		hangs := ctx.Err() != nil
		stop()
		if hangs {
			return true
		}
		if err == nil {
			return false
		} else if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			return false // ended normally, reporting a difference
		}
	}
	return true
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	crash := fs.Bool("crash", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct{ Property, Kind, Input string }
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	debug.SetMaxStack(256 << 20)
	c := newC(p, "quick", 0, 1, time.Now().Add(time.Hour))
	c.replay = true
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	c.scratch = dir
	os.Chdir(dir)
	graphMode = r.Kind == "graph"
	if c.replayLadder(r.Input) {
	} else if p.Replay != nil {
		p.Replay(c, r.Input)
	} else {
		c.Diff(r.Input)
	}
	if *crash {
		return len(c.res.Violations) & 1
	}
	for _, v := range c.res.Violations {
		fmt.Printf("case: %s\nwant: %s\ngot:  %s\n", v.Input, v.Want, v.Got)
	}
	if len(c.res.Violations) > 0 {
		return 1
	}
	fmt.Println("no difference")
	return 0
}

// noteOut is the standard error even while tracing output is discarded.
var noteOut = os.Stderr

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|show ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "count":
		n, _ := strconv.Atoi(os.Args[3])
		for _, s := range props[os.Args[2]].Secs {
			nt := s.nt
			if nt == "" {
				nt = "P"
			}
			fmt.Println(s.name, s.q, s.t, NewGram(s.rules).Count(nt, n))
		}
	case "list":
		for id, p := range props {
			fmt.Println(id, p.Level)
		}
	case "show":
		src := strings.Join(os.Args[2:], " ")
		c := newC(&Prop{ID: "X"}, "quick", 0, 1, time.Now().Add(time.Hour))
		graphMode = os.Getenv("GRAPH") != ""
		m := refRun(strings.ReplaceAll(src, "@", "0"))
		fmt.Println("model:", m.describe())
		fmt.Println("code: ", c.implRun(strings.ReplaceAll(src, "@", "0")).describe())
	}
}
