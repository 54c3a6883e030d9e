//go:build go1.23

// Package drv explores scenarios exhaustively within a deviation bound: a
// master process hands subtrees of the choice tree to worker processes.
package drv

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verifx/vs"
)

// Scenario is one closed program whose executions are enumerated.
type Scenario struct {
	Prop     string
	Name     string
	Desc     string
	Race     bool // explore in the race-detector build
	Quick    int  // deviation bound of the quick tier, -1: not run
	Thorough int  // deviation bound of the thorough tier
	Opts     vs.Options
	Body     func()
	Setup    func() // before each execution, outside of it
}

var scenarios []*Scenario
var byName = map[string]*Scenario{}

// Add registers a scenario.
func Add(s Scenario) {
	if s.Thorough < s.Quick {
		s.Thorough = s.Quick
	}
	if byName[s.Prop+"/"+s.Name] != nil {
		panic("duplicate scenario " + s.Name)
	}
	p := &s
	byName[s.Prop+"/"+s.Name] = p
	scenarios = append(scenarios, p)
}

func (s *Scenario) id() string { return s.Prop + "/" + s.Name }

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "finding" or "fixed"
	Scenario string `json:"scenario"`
	Match    string `json:"match"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

var knowns []known

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k known
		if strings.TrimSpace(l) == "" || json.Unmarshal([]byte(l), &k) != nil || k.Status != "finding" {
			continue
		}
		k.re = regexp.MustCompile(k.Match)
		knowns = append(knowns, k)
	}
}

func matchKnown(sc *Scenario, msg string) int {
	for i, k := range knowns {
		if k.Property == sc.Prop && (k.Scenario == "" || k.Scenario == sc.Name) && k.re.MatchString(msg) {
			return i
		}
	}
	return -1
}

type task struct {
	Scn     string
	Bound   int
	Prefix  []uint16
	Budget  int
	Millis  int
	Verbose bool
	Single  bool
	Race    bool
	Id      int
}

type result struct {
	Id       int
	Execs    int
	Nodes    int
	Steps    int
	MaxTrace int
	MaxSteps int
	Threads  int
	Left     [][]uint16
	Fail     *failure
	Known    map[int]int
	Obs      map[uint64]string
	Nondet   []string
	Reexec   int
	Log      []string
	ObsList  []string
	Hit      int
}

type failure struct {
	Prefix []uint16
	Msg    string
	Stack  string
	Log    []string
}

var (
	fWorker  = flag.Bool("worker", false, "worker process")
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "tier")
	fRaceBin = flag.String("racebin", "", "race build of this program")
	fScratch = flag.String("scratch", "", "scratch directory")
	fVerif   = flag.String("verif", "/verif", "directory of the framework")
	fReplay  = flag.String("replay", "", "replay file")
	fScn     = flag.String("scn", "", "only scenarios matching this regexp")
	fDead    = flag.Int("deadline", 0, "seconds of exploration")
	fBound   = flag.Int("bound", -1, "override of the deviation bound")
	fList    = flag.Bool("list", false, "list scenarios")
	fSeed    = flag.Int("seed", 1, "seed recorded in the evidence")
	fWorkers = flag.Int("workers", 8, "worker processes")
	fV       = flag.Bool("v", false, "verbose progress")
	fEvid    = flag.String("evidence", "", "evidence file")
)

// Scratch returns the scratch directory of this process.
func Scratch() string { return *fScratch }

// Init is called before anything is explored.
var Init func()

// Main is the program.
func Main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	vs.SelfTest()
	loadKnown(filepath.Join(*fVerif, "known_findings.jsonl"))
	if Init != nil {
		Init()
	}
	switch {
	case *fList:
		for _, s := range scenarios {
			fmt.Printf("%-40s race=%v bounds=%d/%d %s\n", s.id(), s.Race, s.Quick, s.Thorough, s.Desc)
		}
	case *fWorker:
		worker()
	case *fReplay != "":
		replay()
	default:
		os.Exit(master())
	}
}

// ---------------------------------------------------------------- worker

func runOne(s *Scenario, prefix []uint16, verbose bool) *vs.Exec {
	if s.Setup != nil {
		s.Setup()
	}
	o := s.Opts
	o.Verbose = verbose
	return vs.Run(prefix, o, s.Body)
}

func h64(l []string) uint64 {
	h := fnv.New64a()
	for _, s := range l {
		io.WriteString(h, s)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func worker() {
	debug.SetGCPercent(400)
	os.MkdirAll(*fScratch, 0777)
	in := gob.NewDecoder(bufio.NewReader(os.NewFile(3, "in")))
	outf := os.NewFile(4, "out")
	bw := bufio.NewWriter(outf)
	out := gob.NewEncoder(bw)
	cur, _ := os.OpenFile(filepath.Join(*fScratch, "current"), os.O_RDWR|os.O_CREATE, 0666)
	for {
		var t task
		if err := in.Decode(&t); err != nil {
			return
		}
		r := work(&t, cur)
		r.Id = t.Id
		out.Encode(r)
		bw.Flush()
	}
}

func note(cur *os.File, prefix []uint16) {
	b := make([]byte, 2+2*len(prefix))
	b[0], b[1] = byte(len(prefix)), byte(len(prefix)>>8)
	for i, c := range prefix {
		b[2+2*i], b[3+2*i] = byte(c), byte(c>>8)
	}
	cur.WriteAt(b, 0)
}

func readNote(path string) []uint16 {
	b, _ := os.ReadFile(path)
	if len(b) < 2 {
		return nil
	}
	n := int(b[0]) | int(b[1])<<8
	var p []uint16
	for i := 0; i < n && 3+2*i < len(b); i++ {
		p = append(p, uint16(b[2+2*i])|uint16(b[3+2*i])<<8)
	}
	return p
}

func work(t *task, cur *os.File) *result {
	s := byName[t.Scn]
	r := &result{Known: map[int]int{}, Obs: map[uint64]string{}}
	if s == nil {
		r.Fail = &failure{Msg: "no such scenario " + t.Scn}
		return r
	}
	stack := [][]uint16{t.Prefix}
	end := time.Now().Add(time.Duration(t.Millis) * time.Millisecond)
	for len(stack) > 0 {
		if r.Execs >= t.Budget || (t.Millis > 0 && r.Execs > 0 && time.Now().After(end)) {
			break
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		note(cur, p)
		x := runOne(s, p, t.Verbose)
		r.Execs++
		r.Nodes += len(x.Trace) - len(p) + 1
		r.Steps += x.Steps
		if len(x.Trace) > r.MaxTrace {
			r.MaxTrace = len(x.Trace)
		}
		if x.Steps > r.MaxSteps {
			r.MaxSteps = x.Steps
		}
		if n := x.NThreads(); n > r.Threads {
			r.Threads = n
		}
		if t.Verbose {
			r.Log = x.Log()
			r.ObsList = x.Obs
		}
		if d := x.Diverged(); d != "" {
			if len(r.Nondet) < 5 {
				r.Nondet = append(r.Nondet, d)
			}
			if x.Failure() == nil {
				continue
			}
		}
		if f := x.Failure(); f != nil {
			if k := matchKnown(s, f.Msg); k >= 0 {
				r.Known[k]++
			} else {
				full := make([]uint16, len(x.Trace))
				for i, c := range x.Trace {
					full[i] = c.C
				}
				r.Fail = &failure{Prefix: full, Msg: f.Msg, Stack: f.Stack, Log: x.Log()}
				return r
			}
		}
		if h := h64(x.Obs); len(r.Obs) < 20000 {
			if _, ok := r.Obs[h]; !ok {
				if len(r.Obs) < 3 {
					r.Obs[h] = strings.Join(x.Obs, " | ")
				} else {
					r.Obs[h] = ""
				}
			}
		}
		if t.Single {
			break
		}
		// determinism: re-execute some prefixes and compare
		if r.Execs == 1 || r.Execs%257 == 0 {
			full := make([]uint16, len(x.Trace))
			for i, c := range x.Trace {
				full[i] = c.C
			}
			y := runOne(s, full, false)
			r.Reexec++
			if y.Hash() != x.Hash() || h64(y.Obs) != h64(x.Obs) || y.Diverged() != "" {
				if len(r.Nondet) < 5 {
					r.Nondet = append(r.Nondet, fmt.Sprintf("re-execution differs: steps %d/%d choices %d/%d obs %v/%v %s", x.Steps, y.Steps, len(x.Trace), len(y.Trace), x.Obs, y.Obs, y.Diverged()))
				}
			}
		}
		cost := 0
		for i, c := range x.Trace {
			if i >= len(p) && c.N > 1 && (c.Cost == 0 || cost+int(c.Cost) <= t.Bound) {
				for alt := int(c.N) - 1; alt >= 1; alt-- {
					np := make([]uint16, i+1)
					for j := 0; j < i; j++ {
						np[j] = x.Trace[j].C
					}
					np[i] = uint16(alt)
					stack = append(stack, np)
				}
			}
			if c.C != 0 {
				cost += int(c.Cost)
			}
		}
	}
	r.Left = stack
	return r
}

// ---------------------------------------------------------------- master

type proc struct {
	cmd     *exec.Cmd
	in      *os.File
	out     *os.File
	enc     *gob.Encoder
	dec     *gob.Decoder
	scratch string
	race    bool
	n       int
}

var procMu sync.Mutex
var procSeq int

func startProc(race bool) (*proc, error) {
	procMu.Lock()
	procSeq++
	n := procSeq
	procMu.Unlock()
	bin := os.Args[0]
	if race {
		bin = *fRaceBin
	}
	sc := filepath.Join(*fScratch, fmt.Sprintf("w%d", n))
	os.MkdirAll(sc, 0777)
	pr1, pw1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	pr2, pw2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "-worker", "-scratch", sc, "-verif", *fVerif)
	cmd.ExtraFiles = []*os.File{pr1, pw2}
	errf, _ := os.Create(filepath.Join(sc, "stderr"))
	cmd.Stderr = errf
	cmd.Stdout = nil
	cmd.Dir = sc
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "TZ=UTC", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GODEBUG=")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	errf.Close()
	pr1.Close()
	pw2.Close()
	return &proc{cmd: cmd, in: pw1, out: pr2, enc: gob.NewEncoder(pw1), dec: gob.NewDecoder(bufio.NewReader(pr2)), scratch: sc, race: race, n: n}, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.out.Close()
	os.RemoveAll(p.scratch)
}

func (p *proc) stderrTail() string {
	b, _ := os.ReadFile(filepath.Join(p.scratch, "stderr"))
	if len(b) > 12000 {
		b = b[:12000]
	}
	return string(b)
}

const hangSeconds = 40

// do runs a task; a dead or hanging worker yields a failure with the prefix
// that was being executed.
func (p *proc) do(t task) (*result, bool) {
	type rr struct {
		r   *result
		err error
	}
	c := make(chan rr, 1)
	go func() {
		if err := p.enc.Encode(t); err != nil {
			c <- rr{nil, err}
			return
		}
		var r result
		err := p.dec.Decode(&r)
		c <- rr{&r, err}
	}()
	last := ""
	same := 0
	for {
		select {
		case x := <-c:
			if x.err == nil {
				return x.r, true
			}
			p.cmd.Process.Kill()
			p.cmd.Wait()
			pre := readNote(filepath.Join(p.scratch, "current"))
			tail := p.stderrTail()
			msg := "process died"
			for _, l := range strings.Split(tail, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
					msg += ": " + l
					break
				}
			}
			return &result{Fail: &failure{Prefix: pre, Msg: msg, Stack: tail}}, false
		case <-time.After(time.Second):
			b, _ := os.ReadFile(filepath.Join(p.scratch, "current"))
			if string(b) == last {
				same++
			} else {
				same, last = 0, string(b)
			}
			if same >= hangSeconds {
				pre := readNote(filepath.Join(p.scratch, "current"))
				p.cmd.Process.Signal(syscall.SIGQUIT) // for the stacks
				time.Sleep(time.Second)
				p.cmd.Process.Kill()
				p.cmd.Wait()
				<-c
				return &result{Fail: &failure{Prefix: pre, Msg: fmt.Sprintf("hang: a step of one execution did not end within %d s", hangSeconds), Stack: p.stderrTail()}}, false
			}
		}
	}
}

type scnStat struct {
	Scenario  string `json:"scenario"`
	Desc      string `json:"what,omitempty"`
	Race      bool   `json:"race_detector"`
	Bound     int    `json:"deviation_bound"`
	Delay     bool   `json:"delay_bounding"`
	Completed int    `json:"completed_bound"`
	Execs     int    `json:"executions"`
	Nodes     int    `json:"decision_states"`
	Steps     int    `json:"steps"`
	MaxTrace  int    `json:"max_choices"`
	MaxSteps  int    `json:"max_steps"`
	Threads   int    `json:"threads"`
	Outcomes  int    `json:"distinct_outcomes"`
	All       int    `json:"executions_all_bounds"`
	obs       map[uint64]string
	nondet    []string
	reexec    int
	known     map[int]int
	pending   int
	failed    bool
	capped    bool
	wall      time.Duration
	hit       int
	sample    []uint16
	obsSample []string
}

type master_ struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []task
	busy   int
	stats  map[string]*scnStat
	order  []*scnStat
	viol   []*violation
	stop   bool
	dead   time.Time
	nextID int
}

type violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Desc     string   `json:"scenario_description"`
	Race     bool     `json:"race_build"`
	Msg      string   `json:"message"`
	Prefix   []uint16 `json:"choices"`
	Stack    string   `json:"stack"`
	Log      []string `json:"trace"`
	Confirm  string   `json:"confirmed"`
	path     string
}

func master() int {
	start := time.Now()
	tier := *fTier
	if *fDead == 0 {
		*fDead = 60
		if tier == "thorough" {
			*fDead = 1500
		}
	}
	m := &master_{stats: map[string]*scnStat{}}
	m.cond = sync.NewCond(&m.mu)
	m.dead = start.Add(time.Duration(*fDead) * time.Second)
	var sel []*Scenario
	var re *regexp.Regexp
	if *fScn != "" {
		re = regexp.MustCompile(*fScn)
	}
	for _, s := range scenarios {
		if s.Prop != *fProp || (re != nil && !re.MatchString(s.Name)) {
			continue
		}
		b := s.Quick
		if tier == "thorough" {
			b = s.Thorough
		}
		if *fBound >= 0 {
			b = *fBound
		}
		if b < 0 {
			continue
		}
		if s.Race && *fRaceBin == "" {
			fmt.Printf("note: %s needs the race build, skipped\n", s.id())
			continue
		}
		st := &scnStat{Scenario: s.Name, Desc: s.Desc, Race: s.Race, Bound: b, Delay: s.Opts.Delay, Completed: -1, obs: map[uint64]string{}, known: map[int]int{}}
		m.stats[s.id()] = st
		m.order = append(m.order, st)
		sel = append(sel, s)
	}
	if len(sel) == 0 {
		fmt.Println("no scenarios for", *fProp)
		return 2
	}
	for _, s := range sel {
		m.enqueue(s, 0)
	}
	m.pass()
	if *fV {
		for _, st := range m.order {
			fmt.Printf("%-30s bound=%d completed=%d execs=%d nodes=%d steps=%d maxtrace=%d threads=%d outcomes=%d nondet=%d wall=%v\n", st.Scenario, st.Bound, st.Completed, st.Execs, st.Nodes, st.Steps, st.MaxTrace, st.Threads, len(st.obs), len(st.nondet), st.wall.Round(time.Millisecond))
			for _, n := range st.nondet {
				fmt.Println("   NONDET", n)
			}
		}
	}
	code := 0
	for _, st := range m.order {
		for k, n := range st.known {
			if n > 0 && !knownPrinted[k] {
				knownPrinted[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", knowns[k].Property, knowns[k].What)
			}
		}
	}
	for _, v := range m.viol {
		code = 1
		fmt.Printf("%s: %s\n  scenario: %s\n", v.Property, firstLines(v.Msg, 30), v.Scenario)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, v.path)
	}
	m.evidence(sel, tier, time.Since(start))
	return code
}

var knownPrinted = map[int]bool{}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

// enqueue starts a scenario's exploration at a bound.
func (m *master_) enqueue(s *Scenario, b int) {
	st := m.stats[s.id()]
	st.Execs, st.Nodes, st.Steps, st.pending = 0, 0, 0, 1
	m.queue = append(m.queue, task{Scn: s.id(), Bound: b, Race: s.Race})
}

func (m *master_) pass() {
	var wg sync.WaitGroup
	for i := 0; i < *fWorkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs := map[bool]*proc{}
			defer func() {
				for _, p := range procs {
					p.stop()
				}
			}()
			for {
				m.mu.Lock()
				for len(m.queue) == 0 && m.busy > 0 && !m.stop {
					m.cond.Wait()
				}
				if m.stop || len(m.queue) == 0 {
					m.cond.Broadcast()
					m.mu.Unlock()
					return
				}
				if time.Now().After(m.dead) {
					for _, t := range m.queue {
						m.stats[t.Scn].capped = true
					}
					m.queue = nil
					m.cond.Broadcast()
					m.mu.Unlock()
					continue
				}
				// the scenario that has used least time so far goes first
				best := len(m.queue) - 1
				for i := len(m.queue) - 1; i >= 0 && i > len(m.queue)-4000; i-- {
					if m.stats[m.queue[i].Scn].wall < m.stats[m.queue[best].Scn].wall {
						best = i
					}
				}
				t := m.queue[best]
				m.queue = append(m.queue[:best], m.queue[best+1:]...)
				st := m.stats[t.Scn]
				if st.failed {
					m.mu.Unlock()
					continue
				}
				m.busy++
				st.wall += time.Millisecond
				m.nextID++
				t.Id = m.nextID
				// short tasks while there is little to share
				t.Budget, t.Millis = 1<<30, 300
				if len(m.queue) < 2**fWorkers {
					t.Millis = 40
				}
				m.mu.Unlock()

				p := procs[t.Race]
				if p != nil && p.n < 0 {
					p.stop()
					p = nil
				}
				var r *result
				var err error
				ok := true
				t0 := time.Now()
				if p == nil {
					p, err = startProc(t.Race)
					if err != nil {
						fmt.Fprintln(os.Stderr, "cannot start worker:", err)
						os.Exit(3)
					}
					procs[t.Race] = p
				}
				r, ok = p.do(t)
				if !ok {
					p.stop()
					delete(procs, t.Race)
				}
				m.mu.Lock()
				m.busy--
				st.wall += time.Since(t0)
				st.Execs += r.Execs
				st.All += r.Execs
				st.Nodes += r.Nodes
				st.Steps += r.Steps
				st.reexec += r.Reexec
				if r.MaxTrace > st.MaxTrace {
					st.MaxTrace = r.MaxTrace
				}
				if r.MaxSteps > st.MaxSteps {
					st.MaxSteps = r.MaxSteps
				}
				if r.Threads > st.Threads {
					st.Threads = r.Threads
				}
				for h, o := range r.Obs {
					if _, ok := st.obs[h]; !ok && len(st.obs) < 200000 {
						st.obs[h] = ""
						if o != "" && len(st.obsSample) < 3 {
							st.obsSample = append(st.obsSample, o)
						}
					}
				}
				for k, n := range r.Known {
					st.known[k] += n
				}
				if len(st.nondet) < 5 {
					st.nondet = append(st.nondet, r.Nondet...)
				}
				st.pending += len(r.Left) - 1
				if len(r.Left) > 0 {
					st.sample = r.Left[len(r.Left)-1]
				}
				for _, l := range r.Left {
					m.queue = append(m.queue, task{Scn: t.Scn, Bound: t.Bound, Race: t.Race, Prefix: l})
				}
				if st.pending == 0 && r.Fail == nil && !st.failed && !st.capped {
					st.Completed = t.Bound
					if *fV {
						fmt.Printf("  %s: bound %d done, %d executions, %v\n", t.Scn, t.Bound, st.Execs, st.wall.Round(time.Millisecond))
					}
					if t.Bound < st.Bound {
						m.enqueue(byName[t.Scn], t.Bound+1)
					}
				}
				if r.Fail != nil {
					m.busy++ // others wait for the confirmation
				}
				m.cond.Broadcast()
				m.mu.Unlock()
				if r.Fail != nil {
					m.confirm(t, r.Fail)
					m.mu.Lock()
					m.busy--
					m.cond.Broadcast()
					m.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
}

// confirm re-runs a failing execution in fresh processes; only a failure that
// shows every time is believed.
func (m *master_) confirm(t task, f *failure) {
	m.mu.Lock()
	st := m.stats[t.Scn]
	if st.failed || m.stop {
		m.mu.Unlock()
		return
	}
	m.mu.Unlock()
	n := 5
	if strings.HasPrefix(f.Msg, "hang") {
		n = 3
	}
	var last *result
	var tail string
	got := 0
	for i := 0; i < n; i++ {
		p, err := startProc(t.Race)
		if err != nil {
			break
		}
		r, _ := p.do(task{Scn: t.Scn, Prefix: f.Prefix, Budget: 1, Single: true, Verbose: i == n-1})
		if r.Fail != nil {
			got++
			last = r
			tail = p.stderrTail()
		}
		p.stop()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if got < n {
		st.nondet = append(st.nondet, fmt.Sprintf("failure %q seen %d of %d times on re-execution: not believed", firstLines(f.Msg, 1), got, n))
		st.capped = true
		return
	}
	if st.failed {
		return
	}
	st.failed = true
	s := byName[t.Scn]
	v := &violation{Property: s.Prop, Scenario: s.Name, Desc: s.Desc, Race: t.Race, Msg: f.Msg, Prefix: f.Prefix, Stack: last.Fail.Stack, Log: last.Fail.Log, Confirm: fmt.Sprintf("%d of %d re-executions in fresh processes", got, n)}
	if v.Stack == "" {
		v.Stack = f.Stack
	}
	if last.Fail.Msg != "" {
		v.Msg = last.Fail.Msg
	}
	if strings.Contains(v.Msg, "data race") {
		v.Msg += "\n" + tail
	}
	os.MkdirAll(filepath.Join(*fVerif, "replays"), 0777)
	v.path = filepath.Join(*fVerif, "replays", fmt.Sprintf("%s-%s-%08x.json", s.Prop, sanitize(s.Name), uint32(h64([]string{fmt.Sprint(v.Prefix), f.Msg}))))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(v.path, b, 0666)
	m.viol = append(m.viol, v)
	m.stop = true
	m.cond.Broadcast()
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// Level and rule of each property's evidence.
type Level struct {
	Level string
	Rule  string
	Assum []string
}

// Levels by property.
var Levels = map[string]Level{}

func (m *master_) evidence(sel []*Scenario, tier string, wall time.Duration) {
	lv, ok := Levels[*fProp]
	if !ok {
		lv.Level = "model_checking"
	}
	execs, nodes, steps, outcomes, reexec, all := 0, 0, 0, 0, 0, 0
	exhaustive := true
	var nondet []string
	var samples []interface{}
	for i, st := range m.order {
		st.Outcomes = len(st.obs)
		execs += st.Execs
		all += st.All
		nodes += st.Nodes
		steps += st.Steps
		outcomes += len(st.obs)
		reexec += st.reexec
		if st.Completed < st.Bound {
			exhaustive = false
		}
		nondet = append(nondet, st.nondet...)
		if len(samples) < 6 && i%((len(m.order)+5)/6) == 0 && !m.stop {
			samples = append(samples, m.sample(sel[i], st))
		}
	}
	if len(samples) == 0 {
		for _, v := range m.viol {
			samples = append(samples, map[string]interface{}{"scenario": v.Scenario, "choices": v.Prefix, "violation": v.Msg})
		}
	}
	cov := map[string]interface{}{
		"distinct_outcomes":    outcomes,
		"scenarios":            m.order,
		"exhaustive":           exhaustive,
		"samples":              samples,
		"reexecuted_identical": reexec - len(nondet),
		"bound_unit":           "deviations from the default choice: preemptive context switches, injected failures or crash points (with delay bounding also choices at blocking points); otherwise scheduling at blocking points is unbounded, and harness inputs always are",
	}
	if len(nondet) > 0 {
		cov["nondeterminism"] = nondet
	}
	if lv.Level == "fault_enumeration" || lv.Level == "exploration" {
		cov["evaluations"] = all
		cov["distinct_nontrivial"] = outcomes
		cov["rule"] = lv.Rule
		cov["states"] = nodes
		cov["transitions"] = steps
	} else {
		cov["states"] = nodes
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = execs
	}
	ev := map[string]interface{}{
		"property":    *fProp,
		"tier":        tier,
		"seed":        *fSeed,
		"level":       lv.Level,
		"coverage":    cov,
		"assumptions": lv.Assum,
		"wall_s":      wall.Seconds(),
		"violations":  len(m.viol),
	}
	if lv.Assum == nil {
		delete(ev, "assumptions")
	}
	path := *fEvid
	if path == "" {
		path = filepath.Join(*fVerif, "evidence", *fProp+".json")
	}
	os.MkdirAll(filepath.Dir(path), 0777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: %d scenarios, %d executions (%d over all bounds), %d states, %d transitions, %d distinct outcomes, exhaustive=%v, violations=%d, %.1fs\n",
		*fProp, tier, len(m.order), execs, all, nodes, steps, outcomes, exhaustive, len(m.viol), wall.Seconds())
	for _, n := range nondet {
		fmt.Println("note: nondeterminism:", firstLines(n, 3))
	}
}

// sample re-runs one execution verbosely.
func (m *master_) sample(s *Scenario, st *scnStat) interface{} {
	res := map[string]interface{}{"scenario": s.id(), "choices": st.sample, "outcomes": st.obsSample}
	p, err := startProc(s.Race)
	if err != nil {
		return res
	}
	defer p.stop()
	r, ok := p.do(task{Scn: s.id(), Prefix: st.sample, Budget: 1, Single: true, Verbose: true})
	if ok {
		l := r.Log
		if len(l) > 40 {
			l = append(l[:40:40], fmt.Sprintf("... %d more lines", len(r.Log)-40))
		}
		res["trace"] = l
		res["outcome"] = strings.Join(r.ObsList, " | ")
	}
	return res
}

func replay() {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if v.Race && *fRaceBin == "" {
		fmt.Println("replay needs the race build")
		os.Exit(2)
	}
	p, err := startProc(v.Race)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r, _ := p.do(task{Scn: v.Property + "/" + v.Scenario, Prefix: v.Prefix, Budget: 1, Single: true, Verbose: true})
	l := r.Log
	if r.Fail != nil {
		l = r.Fail.Log
	}
	for _, s := range l {
		fmt.Println(s)
	}
	fmt.Println("observed:", strings.Join(r.ObsList, " | "))
	tail := p.stderrTail()
	p.stop()
	if r.Fail != nil {
		fmt.Println(r.Fail.Msg)
		fmt.Println(r.Fail.Stack)
		fmt.Println(tail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, *fReplay)
		os.Exit(1)
	}
	fmt.Println("no violation")
}

var _ = sort.Strings
