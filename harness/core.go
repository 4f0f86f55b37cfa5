package main

// Monitoring framework: a supervisor process enumerates a deterministic case
// list per property, shards it over worker processes that execute the real
// code from /repo, and turns what the monitors observed into a verdict.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// Require lists observation keys that must be non-zero for a run to count.
	Require []string
	Cases   func(r *Run)
	Shards  int // 0: default
	Race    bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Run enumerates the cases of a property.
type Run struct {
	Prop     *Prop
	Seed     int64
	Thorough bool
	idx      int
	names    map[string]bool
	exec     func(idx int, name string, f func(c *C))
}

// quickFactor: the quick tier of every property still takes well below a minute.
const quickFactor = 4

// N picks the quick or thorough repetition count.
func (r *Run) N(quick, thorough int) int {
	if !r.Prop.Race && quick >= 50 {
		if os.Getenv("VH_SMALL") == "" { // set when measuring planted changes in bulk
			quick *= quickFactor
			if s := quickScale[r.Prop.ID]; s > 0 {
				quick *= s
			}
		}
		if thorough < 4*quick {
			thorough = 4 * quick
		}
	}
	if s := unitScale[r.Prop.ID]; s > 0 && os.Getenv("VH_SMALL") == "" {
		quick *= s
		thorough = max(thorough, 4*quick)
	}
	if r.Thorough {
		return thorough
	}
	return min(quick, thorough)
}

// quickScale: more cases of the properties whose cases are cheap.
var quickScale = map[string]int{
	"P07": 20, "P08": 15, "P09": 10, "P10": 3, "P11": 20, "P12": 15,
	"P13": 6, "P14": 6, "P15": 8, "P16": 3, "P17": 40, "P18": 6, "P19": 4, "P20": 4, "P23": 2, "P26": 2, "P27": 2, "P28": 2, "P31": 2, "P34": 4,
}

// unitScale: the same for properties that count in units of several cases.
var unitScale = map[string]int{"P01": 30, "P02": 30, "P03": 16, "P04": 30, "P05": 6, "P06": 25}

// Case registers one execution. The name is unique within the property.
func (r *Run) Case(name string, f func(c *C)) {
	if r.names[name] {
		panic("duplicate case name " + name)
	}
	r.names[name] = true
	i := r.idx
	r.idx++
	r.exec(i, name, f)
}

// Repeat registers n randomised executions of f.
func (r *Run) Repeat(name string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("%s/%05d", name, i), f)
	}
}

// C is the context of one execution.
type C struct {
	Name     string
	R        *rand.Rand
	Thorough bool
	fails    []string
	keyed    []string
	obs      map[string]int64
	sigs     []string
	sample   interface{}
	tmp      string
	stop     bool
	relative bool // file contents must not depend on where they are
}

type stopCase struct{}

func (c *C) Failf(format string, a ...interface{}) {
	c.fails = append(c.fails, fmt.Sprintf(format, a...))
	c.keyed = append(c.keyed, "")
	if len(c.fails) >= 5 {
		panic(stopCase{})
	}
}

// Known reports a failure identified by a key that may be listed in the
// known-findings file.
func (c *C) FailKey(key, format string, a ...interface{}) {
	c.fails = append(c.fails, fmt.Sprintf(format, a...))
	c.keyed = append(c.keyed, key)
}

func (c *C) Fatalf(format string, a ...interface{}) {
	c.Failf(format, a...)
	panic(stopCase{})
}

// Obs counts monitor observations.
func (c *C) Obs(key string)         { c.obs[key]++ }
func (c *C) ObsN(key string, n int) { c.obs[key] += int64(n) }
func (c *C) Sig(format string, a ...interface{}) {
	c.sigs = append(c.sigs, fmt.Sprintf(format, a...))
}
func (c *C) Sample(v interface{}) { c.sample = v }

// Dir returns a scratch directory owned by this case.
func (c *C) Dir() string {
	if c.tmp == "" {
		d, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "case-")
		if err != nil {
			panic(infra{err})
		}
		c.tmp = d
	}
	return c.tmp
}

// infra marks failures of the harness itself (never a violation).
type infra struct{ err error }

func must(err error) {
	if err != nil {
		panic(infra{err})
	}
}

type msg struct {
	T      string           `json:"t"`
	Idx    int              `json:"i"`
	Name   string           `json:"n,omitempty"`
	Fails  []string         `json:"f,omitempty"`
	Keys   []string         `json:"k,omitempty"`
	Obs    map[string]int64 `json:"o,omitempty"`
	Sigs   []string         `json:"s,omitempty"`
	Sample interface{}      `json:"x,omitempty"`
	Plain  interface{}      `json:"p,omitempty"`
	Infra  string           `json:"e,omitempty"`
}

func caseRng(seed int64, prop, name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", seed, prop, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func runCase(p *Prop, seed int64, thorough bool, idx int, name string, f func(*C)) (m msg) {
	c := &C{Name: name, R: caseRng(seed, p.ID, name), obs: map[string]int64{}, Thorough: thorough}
	m = msg{T: "done", Idx: idx, Name: name}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case stopCase:
			case infra:
				m.Infra = e.err.Error() + "\n" + trimStack()
			default:
				c.fails = append(c.fails, fmt.Sprintf("panic: %v\n%s", e, trimStack()))
				c.keyed = append(c.keyed, "")
			}
		}
		if c.tmp != "" {
			os.RemoveAll(c.tmp)
		}
		m.Fails, m.Keys, m.Obs, m.Sample = c.fails, c.keyed, c.obs, c.sample
		traceCase(c)
		if len(c.sigs) > 0 && len(c.obs) > 0 && (idx%17 == 0 || idx < 50) {
			o := map[string]int64{}
			for k, v := range c.obs {
				o[k] = v
			}
			m.Plain = map[string]interface{}{"signature": clip(c.sigs[0], 300), "observations": o}
		}
		for _, s := range c.sigs {
			h := fnv.New64a()
			h.Write([]byte(s))
			m.Sigs = append(m.Sigs, strconv.FormatUint(h.Sum64(), 36))
		}
	}()
	f(c)
	return
}

// traceCase (VH_TRACE=FILE, a debugging aid) appends what a case drew and
// observed: two runs with one seed must write the same lines.
func traceCase(c *C) {
	name := os.Getenv("VH_TRACE")
	if name == "" {
		return
	}
	var keys []string
	for k, v := range c.obs {
		keys = append(keys, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(keys)
	h := fnv.New64a()
	for _, s := range c.sigs {
		h.Write([]byte(s))
	}
	if f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
		fmt.Fprintf(f, "%s rng=%x sig=%x fails=%d %v\n", c.Name, c.R.Uint64(), h.Sum64(), len(c.fails), keys)
		f.Close()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trimStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.Join(s, "\n")
}

// ---------------------------------------------------------------- worker

const caseMemLimit = 6 << 30

var caseCPULimit = 60 * time.Second // CPU time, not wall clock; typical cases use milliseconds

func init() {
	if os.Getenv("VH_SMALL") != "" {
		caseCPULimit = 8 * time.Second
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// liveHeap is the size of the heap after a collection, 0 when the case that was
// running has ended meanwhile: uncollected garbage of earlier cases is not its fault.
func liveHeap(name string, cur *atomic.Value) uint64 {
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if cur.Load().(msg).Name != name {
		return 0
	}
	return ms.HeapAlloc
}

func worker(p *Prop, seed int64, thorough bool, shard, n int, only string) {
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	var mu sync.Mutex
	log.SetOutput(io.Discard)
	quietStdout()
	var startCPU int64
	var cur atomic.Value
	cur.Store(msg{})
	// divergence monitor: a case whose CPU time or heap explodes is reported
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			m := cur.Load().(msg)
			if m.Name == "" {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if cpuTime()-time.Duration(atomic.LoadInt64(&startCPU)) > caseCPULimit {
				why = fmt.Sprintf("does not terminate: more than %v of CPU time used", caseCPULimit)
			} else if ms.HeapAlloc > caseMemLimit && liveHeap(m.Name, &cur) > caseMemLimit {
				why = fmt.Sprintf("memory use diverges: live heap above %d bytes", int64(caseMemLimit))
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				m.T = "done"
				m.Fails = []string{why + "\n" + string(buf)}
				m.Keys = []string{""}
				mu.Lock()
				enc.Encode(m)
				os.Exit(7)
			}
		}
	}()
	failed := 0
	r := &Run{Prop: p, Seed: seed, Thorough: thorough, names: map[string]bool{}}
	r.exec = func(idx int, name string, f func(*C)) {
		if only != "" {
			if name != only {
				return
			}
		} else if idx%n != shard {
			return
		}
		if failed >= 12 { // enough witnesses, the verdict is decided
			return
		}
		mu.Lock()
		enc.Encode(msg{T: "start", Idx: idx, Name: name})
		mu.Unlock()
		atomic.StoreInt64(&startCPU, int64(cpuTime()))
		cur.Store(msg{Idx: idx, Name: name})
		m := runCase(p, seed, thorough, idx, name, f)
		cur.Store(msg{})
		for _, k := range m.Keys {
			if k == "" {
				failed++
				break
			}
		}
		mu.Lock()
		enc.Encode(m)
		mu.Unlock()
	}
	p.Cases(r)
	mu.Lock()
	enc.Encode(msg{T: "end", Idx: r.idx})
	mu.Unlock()
	out.Close()
	os.Exit(0)
}

func quietStdout() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
}

// ------------------------------------------------------------ supervisor

type failure struct {
	Name, Text, Key string
	Idx             int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[:1<<15]...)
	}
	return len(p), nil
}

// plainCase is what one execution observed, for the evidence file.
type plainCase struct {
	Idx  int
	Name string
	What interface{}
}

// addPlain keeps the two first cases of every group.
func (r *result) addPlain(m msg) {
	g := strings.SplitN(m.Name, "/", 2)[0]
	l := append(r.plain[g], plainCase{m.Idx, m.Name, m.Plain})
	sort.Slice(l, func(i, j int) bool { return l[i].Idx < l[j].Idx })
	if len(l) > 2 {
		l = l[:2]
	}
	r.plain[g] = l
}

func (r *result) plainSamples() {
	var gs []string
	for g := range r.plain {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for i := 0; i < 2; i++ {
		for _, g := range gs {
			if i < len(r.plain[g]) && len(r.samples) < 8 {
				p := r.plain[g][i]
				r.samples = append(r.samples, map[string]interface{}{"case": p.Name, "observed": p.What})
			}
		}
	}
}

type result struct {
	fails    []failure
	infra    []string
	obs      map[string]int64
	sigs     map[string]bool
	samples  []interface{}
	plain    map[string][]plainCase // by case group
	executed int
	total    int
}

func supervise(p *Prop, seed int64, thorough bool, only string, scratch string) *result {
	res := &result{obs: map[string]int64{}, sigs: map[string]bool{}, plain: map[string][]plainCase{}}
	n := p.Shards
	if n == 0 {
		n = 8
	}
	if only != "" {
		n = 1
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	exe, err := os.Executable()
	if err != nil {
		res.infra = append(res.infra, err.Error())
		return res
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	for sh := 0; sh < n; sh++ {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			pr, pw, err := os.Pipe()
			if err != nil {
				mu.Lock()
				res.infra = append(res.infra, err.Error())
				mu.Unlock()
				return
			}
			wd := filepath.Join(scratch, fmt.Sprintf("w%d", sh))
			os.MkdirAll(wd, 0755)
			cmd := exec.Command(exe, "worker", p.ID, strconv.FormatInt(seed, 10), tier, strconv.Itoa(sh), strconv.Itoa(n), only)
			cmd.ExtraFiles = []*os.File{pw}
			tb := &tailBuf{}
			cmd.Stderr = tb
			cmd.Dir = wd
			cmd.Env = append(os.Environ(), "VH_SCRATCH="+wd, "TMPDIR="+wd, "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
			if p.Race {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=8")
			}
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			runtime.LockOSThread()
			if err := cmd.Start(); err != nil {
				mu.Lock()
				res.infra = append(res.infra, err.Error())
				mu.Unlock()
				return
			}
			pw.Close()
			sc := bufio.NewReader(pr)
			var curCase msg
			ended := false
			for {
				line, err := sc.ReadBytes('\n')
				if err != nil {
					break
				}
				var m msg
				if json.Unmarshal(line, &m) != nil {
					continue
				}
				mu.Lock()
				switch m.T {
				case "start":
					curCase = m
				case "done":
					curCase = msg{}
					res.executed++
					for i, f := range m.Fails {
						res.fails = append(res.fails, failure{Name: m.Name, Text: f, Key: m.Keys[i], Idx: m.Idx})
					}
					if m.Infra != "" {
						res.infra = append(res.infra, m.Name+": "+m.Infra)
					}
					for k, v := range m.Obs {
						res.obs[k] += v
					}
					for _, s := range m.Sigs {
						res.sigs[s] = true
					}
					if m.Plain != nil {
						res.addPlain(m)
					}
					if m.Sample != nil && len(res.samples) < 6 {
						res.samples = append(res.samples, map[string]interface{}{"case": m.Name, "observed": m.Sample})
					}
				case "end":
					ended = true
					res.total = m.Idx
				}
				mu.Unlock()
			}
			err = cmd.Wait()
			pr.Close()
			mu.Lock()
			defer mu.Unlock()
			if ended && err == nil {
				return
			}
			if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
				res.infra = append(res.infra, fmt.Sprintf("worker %d was killed (%v)", sh, ws.Signal()))
				return
			}
			if cmd.ProcessState.ExitCode() == 7 { // divergence, already reported
				return
			}
			if curCase.Name != "" {
				res.executed++
				res.fails = append(res.fails, failure{Name: curCase.Name, Idx: curCase.Idx,
					Text: fmt.Sprintf("the process running the code under test died (%v)\n%s", cmd.ProcessState, tail(string(tb.b), 6000))})
			} else {
				res.infra = append(res.infra, fmt.Sprintf("worker %d ended early: %v\n%s", sh, err, tail(string(tb.b), 4000)))
			}
		}(sh)
	}
	wg.Wait()
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

// knownFindings reads the committed list: lines
//
//	known: property=<id> key=<key> <what fails>
func knownFindings(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		kv := strings.SplitN(rest, " ", 2)
		if len(kv) == 2 {
			out[kv[0]] = kv[1]
		}
	}
	return out
}

func check(p *Prop, seed int64, tier, verif, only string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Println("INCONCLUSIVE", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	thorough := tier == "thorough"
	res := supervise(p, seed, thorough, only, scratch)
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), p.ID)
	var real []failure
	seenKnown := map[string]bool{}
	for _, f := range res.fails {
		if _, ok := known[f.Key]; ok && f.Key != "" {
			seenKnown[f.Key] = true
			continue
		}
		real = append(real, f)
	}
	sort.Slice(real, func(i, j int) bool { return real[i].Idx < real[j].Idx })
	var kk []string
	for k := range seenKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	var missing []string
	if only == "" {
		for _, k := range p.Require {
			if res.obs[k] == 0 {
				missing = append(missing, k)
			}
		}
	}
	sort.Slice(res.samples, func(i, j int) bool {
		return fmt.Sprint(res.samples[i]) < fmt.Sprint(res.samples[j])
	})
	res.plainSamples()
	if only == "" {
		if res.samples == nil {
			res.samples = []interface{}{}
		}
		ev := map[string]interface{}{
			"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
			"coverage": map[string]interface{}{
				"evaluations":          res.executed,
				"distinct_nontrivial":  len(res.sigs),
				"rule":                 p.Rule,
				"samples":              res.samples,
				"cases_registered":     res.total,
				"monitor_observations": res.obs,
				"known_findings_seen":  len(kk),
			},
			"assumptions": p.Assumptions,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(real),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return 2
		}
	}
	if len(real) > 0 {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		shown := map[string]bool{}
		for _, f := range real {
			if shown[f.Name] || len(shown) >= 5 && os.Getenv("VH_ALL") == "" {
				continue
			}
			shown[f.Name] = true
			path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, f.Idx))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "seed": seed, "tier": tier, "case": f.Name, "what": f.Text}, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  case %s: %s\n", f.Name, tail(f.Text, 1500))
		}
		fmt.Printf("%s: %d failures in %d cases\n", p.ID, len(real), res.executed)
		return 1
	}
	if len(res.infra) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s\n", p.ID)
		for i, s := range res.infra {
			if i < 5 {
				fmt.Println("  ", tail(s, 3000))
			}
		}
		return 2
	}
	if res.executed == 0 || (only == "" && (len(res.sigs) == 0 || len(missing) > 0)) {
		fmt.Printf("INCONCLUSIVE property=%s: the monitors did not observe %v (executed %d)\n", p.ID, missing, res.executed)
		return 2
	}
	fmt.Printf("OK property=%s cases=%d distinct=%d wall=%.1fs obs=%v\n", p.ID, res.executed, len(res.sigs), time.Since(start).Seconds(), res.obs)
	return 0
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		a := os.Args[2:]
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		sh, _ := strconv.Atoi(a[3])
		n, _ := strconv.Atoi(a[4])
		worker(props[a[0]], seed, a[2] == "thorough", sh, n, a[5])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rp struct {
			Property, Tier, Case string
			Seed                 int64
		}
		if err := json.Unmarshal(b, &rp); err != nil || props[rp.Property] == nil {
			fmt.Println("bad replay file", err)
			os.Exit(2)
		}
		os.Exit(check(props[rp.Property], rp.Seed, rp.Tier, os.Getenv("VERIF_DIR"), rp.Case))
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		p := props[os.Args[2]]
		if p == nil {
			fmt.Println("unknown property", os.Args[2])
			os.Exit(2)
		}
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Exit(check(p, seed, tier, os.Getenv("VERIF_DIR"), only))
	}
	var ids []string
	for k := range props {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	fmt.Println("usage: vh check ID [case] | replay FILE; properties:", ids)
	os.Exit(2)
}
