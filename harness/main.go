package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one workload. It is made from (seed, property, number) and can be written to a replay file.
type Case struct {
	Prop string            `json:"property"`
	Fam  string            `json:"family"`
	Seed uint64            `json:"seed"`
	N    int               `json:"n"`
	Ops  []Op              `json:"ops,omitempty"`
	Aux  map[string]string `json:"aux,omitempty"`
	Ints map[string]int    `json:"ints,omitempty"`
}

// Rec is what the monitors observed in one case.
type Rec struct {
	Violation  string            `json:"violation,omitempty"`
	Events     map[string]int    `json:"events,omitempty"`
	States     []uint64          `json:"states,omitempty"`
	Nontrivial bool              `json:"nontrivial,omitempty"`
	Notes      map[string]string `json:"-"`
	Step       int               `json:"step"`
}

func newRec() *Rec { return &Rec{Events: map[string]int{}, Notes: map[string]string{}} }

func (r *Rec) Ev(name string) { r.Events[name]++ }

func (r *Rec) EvN(name string, n int) { r.Events[name] += n }

func (r *Rec) State(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	r.States = append(r.States, h.Sum64())
}

// Fail records the first violation of the case.
func (r *Rec) Fail(format string, args ...any) {
	if r.Violation == "" {
		r.Violation = fmt.Sprintf(format, args...)
	}
}

func (r *Rec) Failed() bool { return r.Violation != "" }

// Family is one way of making and running cases of a property.
type Family struct {
	Name   string
	Weight int
	Gen    func(r *Rng, c *Case, thorough bool)
	Run    func(c *Case, rec *Rec)
}

// Prop is a property with its workloads and monitors.
type Prop struct {
	ID       string
	Rule     string
	Quick    int
	Thorough int
	Families []Family
	Workers  int
	Level    string
	Need     []string // events that must have been observed, or the run decided nothing
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func makeCase(p *Prop, seed uint64, n int, thorough bool) *Case {
	total := 0
	for _, f := range p.Families {
		total += f.Weight
	}
	x := n % total // families take turns, so that every run has its share of each
	for _, f := range p.Families {
		x -= f.Weight
		if x < 0 {
			c := &Case{Prop: p.ID, Fam: f.Name, Seed: seed, N: n}
			f.Gen(newRng(seed, p.ID+"/"+f.Name, n), c, thorough)
			// In some cases the world is looked at only now and then: looking can hide what it is about.
			if r := newRng(seed, p.ID+"/"+f.Name+"/blind", n); r.chance(0.35) {
				if c.Ints == nil {
					c.Ints = map[string]int{}
				}
				c.Ints["blind"] = r.pickInt(3, 7, 20, 1000)
			}
			if c.Ints["long"] == 1 {
				c.Ints["blind"] = newRng(seed, "long", n).between(60, 150)
			}
			return c
		}
	}
	return nil
}

func (p *Prop) family(name string) *Family {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return &p.Families[i]
		}
	}
	return nil
}

var scratchDir string // for files the code under test writes

func runCase(c *Case) (rec *Rec) {
	rec = newRec()
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			rec.Fail("panic: %v\n%s", e, buf)
		}
	}()
	p := props[c.Prop]
	if p == nil {
		rec.Fail("no property %s", c.Prop)
		return rec
	}
	f := p.family(c.Fam)
	if f == nil {
		rec.Fail("no family %s", c.Fam)
		return rec
	}
	f.Run(c, rec)
	return rec
}

// shrink drops commands while the case still fails, within a budget.
func shrink(c *Case, deadline time.Time) (*Case, *Rec) {
	best, rec := c, runCase(c)
	if rec.Violation == "" {
		return c, rec
	}
	try := func(ops []Op) bool {
		n := *best
		n.Ops = ops
		r := runCase(&n)
		if r.Violation != "" {
			best, rec = &n, r
			return true
		}
		return false
	}
	for size := (len(best.Ops) + 1) / 2; size >= 1; size /= 2 {
		for i := len(best.Ops) - size; i >= 0; {
			if time.Now().After(deadline) {
				return best, rec
			}
			ops := append(append([]Op{}, best.Ops[:i]...), best.Ops[i+size:]...)
			try(ops)
			i -= size
			if i+size > len(best.Ops) {
				i = len(best.Ops) - size
			}
		}
	}
	return best, rec
}

// --- worker ---

type workerMsg struct {
	N    int    `json:"n"`
	Hash uint64 `json:"hash"`
	Rec  *Rec   `json:"rec"`
	Case *Case  `json:"case,omitempty"`
}

func worker(p *Prop, seed uint64, thorough bool) {
	out := os.NewFile(3, "out")
	debug.SetMaxStack(256 << 20)
	go func() { // a runaway allocation ends this process, not the machine
		for {
			time.Sleep(300 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "fatal error: more than 3 GiB allocated")
				os.Exit(4)
			}
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(out)
	for in.Scan() {
		n, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil {
			os.Exit(3)
		}
		c := makeCase(p, seed, n, thorough)
		h := fnv.New64a()
		j, _ := json.Marshal(struct {
			F string
			O []Op
			A map[string]string
			I map[string]int
		}{c.Fam, c.Ops, c.Aux, c.Ints})
		h.Write(j)
		rec := runCase(c)
		m := workerMsg{N: n, Hash: h.Sum64(), Rec: rec}
		if rec.Violation != "" {
			m.Case, m.Rec = shrink(c, time.Now().Add(8*time.Second))
			if m.Rec.Violation == "" {
				// It does not fail every time: keep the case as it was.
				m.Case, m.Rec = c, rec
			}
		} else if n < 12 {
			m.Case = c
		}
		if err := enc.Encode(m); err != nil {
			os.Exit(3)
		}
	}
}

// --- master ---

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr string
}

func startWorker(dir string, id int, prop string, seed uint64, thorough bool) (*proc, error) {
	args := []string{"-worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-scratch", filepath.Join(dir, fmt.Sprintf("w%d", id))}
	if thorough {
		args = append(args, "-thorough")
	}
	// The code under test runs as a user who owns nothing but the scratch directory.
	cred, home := unprivileged(), filepath.Join(dir, fmt.Sprintf("w%d", id))
	if err := os.MkdirAll(home, 0755); err != nil {
		return nil, err
	}
	if cred != nil {
		if err := os.Chown(home, int(cred.Uid), int(cred.Gid)); err != nil {
			return nil, err
		}
	}
	cmd := exec.Command(os.Args[0], args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	errName := filepath.Join(dir, fmt.Sprintf("w%d.err", id))
	ef, err := os.Create(errName)
	if err != nil {
		return nil, err
	}
	cmd.Stderr = ef
	cmd.Stdout = nil
	if cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	}
	cmd.Dir = filepath.Join(dir, fmt.Sprintf("w%d", id))
	cmd.Env = append(os.Environ(), "HOME="+filepath.Join(dir, fmt.Sprintf("w%d", id)), "GOMAXPROCS=4",
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(home, "race"), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	w.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), stderr: errName}, nil
}

// unprivileged is the user that workers run as, if this one may choose.
func unprivileged() *syscall.Credential {
	if os.Geteuid() != 0 {
		return nil
	}
	return &syscall.Credential{Uid: 65534, Gid: 65534}
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// run asks the worker for one case. died tells that the worker ended or got stuck.
func (p *proc) run(n int, timeout time.Duration) (m *workerMsg, died string) {
	if _, err := fmt.Fprintf(p.in, "%d\n", n); err != nil {
		return nil, "the process ended: " + tail(p.stderr)
	}
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		b, err := p.out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.cmd.Wait()
			return nil, "the process ended: " + tail(p.stderr)
		}
		m = &workerMsg{}
		if err := json.Unmarshal(r.b, m); err != nil {
			return nil, "bad message: " + err.Error()
		}
		return m, ""
	case <-time.After(timeout):
		return nil, fmt.Sprintf("no answer within %v", timeout)
	}
}

func tail(file string) string {
	b, _ := os.ReadFile(file)
	for _, mark := range []string{"runtime: goroutine stack exceeds", "fatal error:", "panic:"} {
		if i := strings.Index(string(b), mark); i >= 0 {
			s := string(b[i:])
			if len(s) > 1500 {
				s = s[:1500]
			}
			return s
		}
	}
	if len(b) > 800 {
		b = b[len(b)-800:]
	}
	return string(b)
}

type found struct {
	Case *Case
	Why  string
}

type stats struct {
	mu       sync.Mutex
	evals    int
	distinct map[uint64]bool
	states   map[uint64]bool
	events   map[string]int
	samples  []any
	found    []found
	inconcl  []string
}

func caseSummary(c *Case, rec *Rec) map[string]any {
	var texts []string
	for i, op := range c.Ops {
		if i >= 12 {
			texts = append(texts, fmt.Sprintf("... %d more", len(c.Ops)-i))
			break
		}
		t := op.Text
		if t == "" {
			t = op.K
		}
		texts = append(texts, clip(t))
	}
	aux := map[string]string{}
	for k, v := range c.Aux {
		aux[k] = clip(v)
	}
	return map[string]any{"n": c.N, "family": c.Fam, "commands": texts, "aux": aux, "events": rec.Events}
}

func master(p *Prop, seed uint64, thorough bool, count int, verifDir string, knownFile string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0755)
	st := &stats{distinct: map[uint64]bool{}, states: map[uint64]bool{}, events: map[string]int{}}
	next := make(chan int)
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	go func() {
		defer close(next)
		for i := 0; i < count; i++ {
			select {
			case next <- i:
			case <-stop:
				return
			}
		}
	}()
	nw := p.Workers
	if nw == 0 {
		nw = min(8, runtime.NumCPU())
	}
	if k, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && k > 0 {
		nw = k
	}
	enough := 6
	if os.Getenv("VERIF_FIRST") != "" { // one violation is enough
		enough = 1
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	caseTimeout, retryTimeout := 90*time.Second, 120*time.Second
	var wg sync.WaitGroup
	errs := make(chan error, 64)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			pr, err := startWorker(dir, w, p.ID, seed, thorough)
			if err != nil {
				errs <- err
				halt()
				return
			}
			for n := range next {
				m, died := pr.run(n, caseTimeout)
				if died != "" {
					pr.kill()
					// Confirm it, alone in a new process.
					pr2, err := startWorker(dir, 100+w, p.ID, seed, thorough)
					if err != nil {
						errs <- err
						halt()
						return
					}
					m2, died2 := pr2.run(n, retryTimeout)
					pr2.kill()
					st.mu.Lock()
					if died2 != "" {
						st.found = append(st.found, found{makeCase(p, seed, n, thorough), "the code under test crashed or hung: " + died2})
						st.mu.Unlock()
						halt()
						return
					}
					st.inconcl = append(st.inconcl, fmt.Sprintf("case %d: %s; not confirmed", n, died))
					m = m2
					st.mu.Unlock()
					if pr, err = startWorker(dir, w, p.ID, seed, thorough); err != nil {
						errs <- err
						halt()
						return
					}
				}
				st.mu.Lock()
				st.evals++
				for k, v := range m.Rec.Events {
					st.events[k] += v
				}
				for _, s := range m.Rec.States {
					st.states[s] = true
				}
				if m.Rec.Nontrivial {
					st.distinct[m.Hash] = true
				}
				if m.Rec.Violation != "" {
					st.found = append(st.found, found{m.Case, m.Rec.Violation})
					if len(st.found) >= enough {
						halt()
					}
				} else if m.Case != nil && len(st.samples) < 4 && m.Rec.Nontrivial {
					st.samples = append(st.samples, caseSummary(m.Case, m.Rec))
				}
				st.mu.Unlock()
			}
			pr.in.Close()
			done := make(chan struct{})
			go func() { pr.cmd.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				pr.cmd.Process.Kill()
			}
		}(w)
	}
	wg.Wait()
	select {
	case err := <-errs:
		fmt.Println("error:", err)
		return 2
	default:
	}
	// Race reports.
	races, _ := filepath.Glob(filepath.Join(dir, "*", "race.*"))
	sort.Strings(races)
	nraces := 0
	for _, f := range races {
		b, _ := os.ReadFile(f)
		k := strings.Count(string(b), "WARNING: DATA RACE")
		nraces += k
		if k > 0 && len(st.found) < 10 {
			i := strings.Index(string(b), "WARNING: DATA RACE")
			s := string(b[i:])
			if len(s) > 2500 {
				s = s[:2500]
			}
			st.found = append(st.found, found{&Case{Prop: p.ID, Fam: "race", Seed: seed, N: -1, Aux: map[string]string{"report": s, "how": "run the check again; the race detector reports it while its concurrent workload runs"}}, "data race"})
		}
	}
	if raceEnabled {
		st.events["race-detector-reports"] = nraces
	}

	exit := 0
	known := readKnown(knownFile)
	reported := map[string]bool{}
	unlisted := 0
	sort.Slice(st.found, func(i, j int) bool { return st.found[i].Case.N < st.found[j].Case.N })
	for _, f := range st.found {
		if k := known.match(p.ID, f); k != "" {
			if !reported[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
				reported[k] = true
			}
			continue
		}
		unlisted++
		if unlisted > 3 {
			continue
		}
		path := writeReplay(verifDir, f)
		first, rest, _ := strings.Cut(f.Why, "\n")
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  %s\n", first)
		if rest != "" {
			fmt.Println(clip(rest))
		}
		for i, op := range f.Case.Ops {
			if i > 25 {
				fmt.Println("  ...")
				break
			}
			t := op.Text
			if t == "" {
				t = op.K
			}
			fmt.Printf("    %s\n", clip(strings.ReplaceAll(t, "\n", "\\n")))
		}
		exit = 1
	}
	if exit == 0 {
		for _, n := range p.Need {
			if st.events[n] == 0 {
				fmt.Printf("error: the run observed no %q, so it decided nothing\n", n)
				exit = 2
			}
		}
		if len(st.inconcl) > 0 {
			fmt.Println("inconclusive:", strings.Join(st.inconcl, "; "))
		}
	}
	if len(st.samples) == 0 {
		st.samples = append(st.samples, map[string]any{"note": "no sample: the run was cut short"})
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "wall_s": time.Since(start).Seconds(), "violations": unlisted,
		"coverage": map[string]any{
			"evaluations": st.evals, "distinct_nontrivial": len(st.distinct), "rule": p.Rule, "samples": st.samples,
			"distinct_states_observed": len(st.states), "events": st.events, "inconclusive": len(st.inconcl), "race_detector": raceEnabled,
			"undo_hooks": hooksAvailable,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d states, %.1fs, %d violations\n", p.ID, tier, seed, st.evals, len(st.distinct), len(st.states), time.Since(start).Seconds(), unlisted)
	return exit
}

func writeReplay(verifDir string, f found) string {
	j, _ := json.MarshalIndent(map[string]any{"why": f.Why, "case": f.Case}, "", " ")
	h := fnv.New64a()
	h.Write(j)
	d := filepath.Join(verifDir, "replays")
	os.MkdirAll(d, 0755)
	path := filepath.Join(d, fmt.Sprintf("%s-%016x.json", f.Case.Prop, h.Sum64()))
	os.WriteFile(path, append(j, '\n'), 0644)
	return path
}

// known findings: lines "finding: property=<id> match=<text in the violation> | <what fails>"; "fixed:" lines suppress nothing.
type knownList []struct{ prop, match, what string }

func readKnown(file string) knownList {
	var k knownList
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " match=")
		match, what, ok := strings.Cut(rest, " | ")
		if ok && match != "" {
			k = append(k, struct{ prop, match, what string }{strings.TrimSpace(prop), match, what})
		}
	}
	return k
}

func (k knownList) match(prop string, f found) string {
	for _, e := range k {
		if e.prop == prop && strings.Contains(f.Why, e.match) {
			return e.what
		}
	}
	return ""
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	thorough := flag.Bool("thorough", false, "thorough tier")
	isWorker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "replay file")
	count := flag.Int("count", 0, "number of cases")
	verifDir := flag.String("verif", "/verif", "where evidence and replays go")
	dump := flag.Int("dump", -1, "print case n")
	helper := flag.String("save-helper", "", "")
	flag.StringVar(&scratchDir, "scratch", "", "")
	flag.Parse()
	if *helper != "" {
		saveHelper(*helper)
		return
	}
	if scratchDir == "" {
		scratchDir, _ = os.MkdirTemp("", "verif-scratch-")
		defer os.RemoveAll(scratchDir)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var f struct {
			Case *Case `json:"case"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		rec := runCase(f.Case)
		fmt.Printf("violation: %s\n", rec.Violation)
		if rec.Violation != "" {
			os.RemoveAll(scratchDir)
			os.Exit(1)
		}
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("no such property:", *prop)
		os.Exit(2)
	}
	if *dump >= 0 {
		j, _ := json.MarshalIndent(makeCase(p, *seed, *dump, *thorough), "", " ")
		fmt.Println(string(j))
		return
	}
	if *isWorker {
		worker(p, *seed, *thorough)
		return
	}
	if (p.ID == "C23" && os.Getenv("VERIF_WASM") == "") || (p.ID == "C24" && os.Getenv("VERIF_CLI") == "") {
		fmt.Println("error: use check.sh, which builds what this check runs")
		os.Exit(2)
	}
	n := p.Quick
	if *thorough {
		n = p.Thorough
	}
	if *count > 0 {
		n = *count
	}
	code := master(p, *seed, *thorough, n, *verifDir, filepath.Join(*verifDir, "known_findings.txt"))
	os.RemoveAll(scratchDir)
	os.Exit(code)
}
