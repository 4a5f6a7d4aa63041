// Package hv is the common frame of the checks: it runs an exhaustive
// enumeration in a child process, counts what was covered, matches violations
// against the known findings, writes the evidence file and sets the exit code.
package hv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"
)

// Fatal is what a logrus.Fatal of the code under test turns into.
type Fatal struct{ Msg string }

func (f Fatal) String() string { return "process exit by log.Fatal: " + f.Msg }

// Ctx is one run of one check.
type Ctx struct {
	ID       string
	Level    string
	Thorough bool
	Seed     int64

	evals, nontrivial      int64
	states, transitions    int64
	traces                 int64
	distinctBits           []uint64
	mu                     sync.Mutex
	samples                []interface{}
	sampleSeen             map[string]bool
	outcomes               map[string]int64
	violations             []Violation
	known                  []Violation
	notExhaustive          []string
	extra                  map[string]interface{}
	rule                   string
	assumptions            []string
	start                  time.Time
	deadline               time.Time
	stop                   int32
	busy                   sync.Map // worker -> *slot
}

// Violation is one broken case.
type Violation struct {
	Key    string      `json:"key"` // identifies the case, for the known-findings file
	What   string      `json:"what"`
	Replay interface{} `json:"replay"`
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	desc  func() string
}

// evidence is where the evidence goes; only experiments set it.
func evidence() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(Dir, "evidence")
}

// Dir is /verif.
var Dir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// Main runs the check.
func Main(id, level, rule string, f func(c *Ctx)) {
	if os.Getenv("HV_CHILD") == "" {
		os.Exit(parent(id))
	}
	c := &Ctx{ID: id, Level: level, rule: rule, start: time.Now(),
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		sampleSeen: map[string]bool{}, outcomes: map[string]int64{}, extra: map[string]interface{}{},
		distinctBits: make([]uint64, 1<<22)}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 300 * time.Second
	if c.Thorough {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("HV_BUDGET"); s != "" {
		budget, _ = time.ParseDuration(s)
	}
	c.deadline = c.start.Add(budget)
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.FatalLevel)
	logrus.StandardLogger().ExitFunc = func(int) { panic(Fatal{"logrus.Fatal"}) }
	debug.SetGCPercent(200)
	go c.watchdog()
	f(c)
	os.Exit(c.finish())
}

// parent runs the check in a child process, so that errors which end a Go
// process (out of memory, deadlock, concurrent map access) are reported too.
func parent(id string) int {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "HV_CHILD=1", "GOTRACEBACK=all")
	cmd.Stdout = os.Stdout
	var tail bytes.Buffer
	pipe, err := cmd.StderrPipe()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	rd := bufio.NewReader(pipe)
	for {
		line, err := rd.ReadString('\n')
		if tail.Len() < 1<<20 {
			tail.WriteString(line)
		}
		if err != nil {
			break
		}
	}
	cmd.Wait()
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		os.Stderr.Write(tail.Bytes())
		return code
	}
	text := tail.String()
	if len(text) > 6000 {
		text = text[:6000]
	}
	fmt.Println(text)
	crash := strings.Contains(tail.String(), "fatal error:") || strings.Contains(tail.String(), "panic:") || strings.Contains(tail.String(), "goroutine stack exceeds")
	if crash && strings.Contains(tail.String(), "dblokhin/gringo/") {
		path := replayPath(id)
		b, _ := json.MarshalIndent(map[string]string{"property": id, "what": "the process under test crashed", "stderr": text}, "", " ")
		os.WriteFile(path, b, 0644)
		ev := map[string]interface{}{"property": id, "tier": tier(), "seed": seed(), "level": "exploration",
			"coverage": map[string]interface{}{"evaluations": 0, "distinct_nontrivial": 0, "rule": "the process under test crashed", "samples": []string{text}}, "wall_s": 0, "violations": 1}
		b, _ = json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evidence(), id+".json"), b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 2
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}
func seed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func replayPath(id string) string {
	os.MkdirAll(evidence(), 0755)
	return filepath.Join(evidence(), "replay-"+id+".json")
}

// watchdog reports a single case that does not end. The limit is far above
// what any case takes (at most seconds).
func (c *Ctx) watchdog() {
	for {
		time.Sleep(5 * time.Second)
		c.busy.Range(func(_, v interface{}) bool {
			s := v.(*slot)
			s.mu.Lock()
			hung := !s.since.IsZero() && time.Since(s.since) > 150*time.Second
			var d string
			if hung && s.desc != nil {
				d = s.desc()
			}
			s.mu.Unlock()
			if hung {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				c.Violate("hang", "a case did not terminate within 150 s: "+d, string(buf[:n]))
				os.Exit(c.finish())
			}
			return true
		})
	}
}

// Expired tells that the time budget ran out (never on a normal run).
func (c *Ctx) Expired() bool {
	if atomic.LoadInt32(&c.stop) != 0 {
		return true
	}
	if time.Now().After(c.deadline) {
		c.Incomplete("time budget exhausted")
		atomic.StoreInt32(&c.stop, 1)
		return true
	}
	return false
}

// Incomplete records that some bound was not covered completely.
func (c *Ctx) Incomplete(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.notExhaustive {
		if w == why {
			return
		}
	}
	c.notExhaustive = append(c.notExhaustive, why)
}

// Stopped tells that enough violations were found.
func (c *Ctx) Stopped() bool { return atomic.LoadInt32(&c.stop) != 0 }

// Par runs f(0..n-1) on all cores.
func (c *Ctx) Par(n int, f func(i int)) {
	workers := runtime.NumCPU()
	if workers > n {
		workers = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Do runs one call into the code under test and returns what it panicked with
// (nil if it did not). desc describes the case for the watchdog.
func (c *Ctx) Do(desc func() string, f func()) (p interface{}) {
	s := &slot{since: time.Now(), desc: desc}
	c.busy.Store(s, s)
	defer func() {
		c.busy.Delete(s)
		if r := recover(); r != nil {
			p = r
			if e, ok := r.(runtime.Error); ok {
				p = e.Error()
			}
		}
	}()
	f()
	return nil
}

// Try is Do without the bookkeeping of the watchdog, for very short calls.
func Try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			if e, ok := r.(runtime.Error); ok {
				p = e.Error()
			}
		}
	}()
	f()
	return nil
}

// Case counts one evaluated case; hash identifies it.
func (c *Ctx) Case(hash uint64, nontrivial bool) {
	atomic.AddInt64(&c.evals, 1)
	if nontrivial {
		hash *= 0x9E3779B97F4A7C15
		hash ^= hash >> 29
		hash *= 0xBF58476D1CE4E5B9
		i := hash >> (64 - 28)
		p := &c.distinctBits[i>>6]
		m := uint64(1) << (i & 63)
		for {
			old := atomic.LoadUint64(p)
			if old&m != 0 || atomic.CompareAndSwapUint64(p, old, old|m) {
				break
			}
		}
	}
}

// States, Transitions and Traces add to the model-checking counters.
func (c *Ctx) States(n int64)      { atomic.AddInt64(&c.states, n) }
func (c *Ctx) Transitions(n int64) { atomic.AddInt64(&c.transitions, n) }
func (c *Ctx) Traces(n int64)      { atomic.AddInt64(&c.traces, n) }

// Outcome counts executions by their observable outcome.
func (c *Ctx) Outcome(o string) {
	c.mu.Lock()
	if _, ok := c.outcomes[o]; !ok && len(c.outcomes) >= 400 {
		o = "others"
	}
	c.outcomes[o]++
	c.mu.Unlock()
}

// Set adds a field to the coverage.
func (c *Ctx) Set(k string, v interface{}) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }

// Assume records an assumption.
func (c *Ctx) Assume(s string) { c.mu.Lock(); c.assumptions = append(c.assumptions, s); c.mu.Unlock() }

// Sample keeps up to two cases of each kind.
func (c *Ctx) Sample(kind string, v func() interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleSeen[kind] || len(c.samples) > 60 {
		return
	}
	c.sampleSeen[kind] = true
	c.samples = append(c.samples, map[string]interface{}{"kind": kind, "case": v()})
}

// Violate records a violation.
func (c *Ctx) Violate(key, what string, replay interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range knownFindings(c.ID) {
		if k == key {
			for _, v := range c.known {
				if v.Key == key {
					return
				}
			}
			c.known = append(c.known, Violation{key, what, replay})
			return
		}
	}
	for _, v := range c.violations {
		if v.Key == key {
			return
		}
	}
	c.violations = append(c.violations, Violation{key, what, replay})
	if len(c.violations) >= 5 || os.Getenv("HV_FIRST") != "" {
		atomic.StoreInt32(&c.stop, 1)
	}
}

// Violations tells how many were recorded.
func (c *Ctx) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.violations) }

// knownFindings reads lines "known: property=<id> key=<key> ..." .
func knownFindings(id string) (keys []string) {
	b, _ := os.ReadFile(filepath.Join(Dir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			keys = append(keys, strings.TrimPrefix(f[2], "key="))
		}
	}
	return
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	var distinct int64
	for _, w := range c.distinctBits {
		distinct += int64(bits.OnesCount64(w))
	}
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	cov["rule"] = c.rule
	if c.Level == "model_checking" {
		cov["states"] = c.states
		cov["transitions"] = c.transitions
		cov["traces_validated_against_impl"] = c.traces
		if c.evals > 0 {
			cov["evaluations"] = c.evals
		}
		if distinct > 0 {
			cov["distinct_nontrivial"] = distinct
		}
	} else {
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = distinct
		if c.states > 0 {
			cov["states"], cov["transitions"] = c.states, c.transitions
		}
	}
	cov["exhaustive"] = len(c.notExhaustive) == 0 && len(c.violations) == 0
	if len(c.notExhaustive) > 0 {
		sort.Strings(c.notExhaustive)
		cov["not_covered"] = c.notExhaustive
	}
	ev := map[string]interface{}{"property": c.ID, "tier": tier(), "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations)}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	os.MkdirAll(evidence(), 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(evidence(), c.ID+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, k.Key, k.What)
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d states=%d transitions=%d wall=%.1fs violations=%d\n", c.ID, tier(), c.evals, distinct, c.states, c.transitions, time.Since(c.start).Seconds(), len(c.violations))
	if len(c.violations) > 0 {
		path := replayPath(c.ID)
		b, err := json.MarshalIndent(map[string]interface{}{"property": c.ID, "violations": c.violations}, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%+v", c.violations))
		}
		os.WriteFile(path, b, 0644)
		for _, v := range c.violations {
			w := v.What
			if len(w) > 600 {
				w = w[:600]
			}
			fmt.Printf("  %s: %s\n", v.Key, w)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	return 0
}

// Hash64 is FNV-1a.
func Hash64(parts ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, b := range p {
			h = (h ^ uint64(b)) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}
