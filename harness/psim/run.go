// Package psim runs the network code of an instrumented copy of /repo under
// the scheduler of package vsched, on a simulated network.
package psim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"

	"verif/hv"
	"verif/netconf"
	"verif/vsched"
)

// Scenario is a closed program: the code under test and its environment.
type Scenario struct {
	Name   string
	Body   func()
	Quick  []vsched.Config
	Deep   []vsched.Config // in addition, in the thorough tier
	Shards int
}

// Cfg is a configuration with a number of deviations.
func Cfg(bound, policy int) vsched.Config { return vsched.Config{Bound: bound, Policy: policy} }

// Pts is Cfg with scheduling points at unsynchronised members.
func Pts(bound, policy int) vsched.Config {
	return vsched.Config{Bound: bound, Policy: policy, Points: true}
}

// Tim is Cfg with time that may pass early.
func Tim(bound, policy int) vsched.Config {
	return vsched.Config{Bound: bound, Policy: policy, TimeSteps: true}
}

type task struct {
	Scenario int
	Cfg      vsched.Config
	Until    int64
}

type answer struct {
	Task   task
	Result *vsched.Result
}

func cfgName(c vsched.Config) string {
	s := fmt.Sprintf("deviations<=%d policy=%d", c.Bound, c.Policy)
	if c.Points {
		s += " member points"
	}
	if c.TimeSteps {
		s += " early time"
	}
	return s
}

// Main is the frame of a check.
func Main(id, rule string, list func(thorough bool) []Scenario) {
	if os.Getenv("HV_WORKER") != "" {
		worker(list(os.Getenv("VERIF_TIER") == "thorough"))
		return
	}
	hv.Main(id, "model_checking", rule, func(c *hv.Ctx) {
		l := list(c.Thorough)
		if id == "C20" { // the simulated connections are like real ones
			n, top := 0, 3
			if c.Thorough {
				top = 4
			}
			for k := 1; k <= top; k++ {
				m, err := netconf.Run(k)
				if err != nil {
					c.Incomplete("vnet and the loopback interface: " + err.Error())
					break
				}
				n += m
			}
			c.Set("operation_sequences_equal_on_vnet_and_loopback", n)
		}
		only := os.Getenv("HV_ONLY")
		var tasks []task
		until := time.Now().Add(280 * time.Second)
		if c.Thorough {
			until = time.Now().Add(100 * time.Minute)
		}
		for i, s := range l {
			if only != "" && !strings.HasPrefix(s.Name, only) {
				continue
			}
			cfgs := append([]vsched.Config(nil), s.Quick...)
			if c.Thorough {
				cfgs = append(cfgs, s.Deep...)
			}
			for _, cfg := range cfgs {
				n := s.Shards
				if n == 0 {
					n = 1
				}
				if c.Thorough && cfg.Bound > 2 {
					n *= 4
				}
				if cfg.Bound == 0 {
					n = 1
				}
				for k := 0; k < n; k++ {
					cfg.Shard, cfg.Shards = k, n
					tasks = append(tasks, task{i, cfg, until.UnixNano()})
				}
			}
		}
		// the deepest ones first
		sort.SliceStable(tasks, func(a, b int) bool { return tasks[a].Cfg.Bound > tasks[b].Cfg.Bound })
		next := make(chan task)
		go func() {
			for _, t := range tasks {
				if c.Stopped() {
					break
				}
				next <- t
			}
			close(next)
		}()
		var wg sync.WaitGroup
		var mu sync.Mutex
		scen := map[string]*struct{ Runs, Steps int64 }{}
		cost := map[string]float64{}
		var runs, pruned, decisions, diverged int64
		shared := map[string]bool{}
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "HV_WORKER=1", "GOMAXPROCS=2")
				in, err := cmd.StdinPipe()
				die(err)
				out, err := cmd.StdoutPipe()
				die(err)
				var tail tailBuffer
				cmd.Stderr = &tail
				die(cmd.Start())
				enc := json.NewEncoder(in)
				dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
				for t := range next {
					begin := time.Now()
					var a answer
					if err := enc.Encode(t); err == nil {
						err = dec.Decode(&a)
						if err != nil {
							cmd.Wait()
							text := tail.String()
							if strings.Contains(text, "dblokhin/gringo/") {
								c.Violate(l[t.Scenario].Name+": crash", "the process under test crashed in "+l[t.Scenario].Name+": "+firstLines(text, 12), text)
								return
							}
							fmt.Fprintln(os.Stderr, text)
							os.Exit(2)
						}
					}
					r := a.Result
					s := l[t.Scenario]
					mu.Lock()
					g := scen[s.Name]
					if g == nil {
						g = &struct{ Runs, Steps int64 }{}
						scen[s.Name] = g
					}
					g.Runs += r.Runs
					g.Steps += r.Steps
					cost[s.Name+" "+cfgName(t.Cfg)] += time.Since(begin).Seconds()
					runs += r.Runs
					pruned += r.Pruned
					decisions += r.Decisions
					diverged += r.Divergences
					for _, n := range r.Shared {
						shared[n] = true
					}
					mu.Unlock()
					c.States(r.States)
					c.Transitions(r.Steps)
					c.Traces(r.Runs)
					for o := range r.Outcomes {
						c.Outcome(o)
					}
					if !r.Complete && len(r.Failures) == 0 {
						c.Incomplete(s.Name + " (" + cfgName(t.Cfg) + ") was not explored completely")
					}
					for _, f := range r.Failures {
						c.Violate(s.Name+": "+f.Key, s.Name+" ("+cfgName(t.Cfg)+"): "+f.What,
							map[string]interface{}{"scenario": s.Name, "config": cfgName(t.Cfg), "decisions": f.Choices, "schedule": f.Trace})
					}
					c.Sample(s.Name, func() interface{} {
						return map[string]interface{}{"config": cfgName(t.Cfg), "runs": r.Runs, "states": r.States, "longest": r.MaxTrace}
					})
				}
				in.Close()
				cmd.Wait()
			}()
		}
		wg.Wait()
		c.Set("scenarios", len(scen))
		c.Set("schedules_run", runs)
		c.Set("schedules_cut_as_equivalent", pruned)
		c.Set("scheduling_decisions", decisions)
		if diverged > 0 {
			c.Incomplete(fmt.Sprintf("%d schedules could not be replayed", diverged))
		}
		var names []string
		for n := range shared {
			names = append(names, n)
		}
		sort.Strings(names)
		c.Set("shared_members", names)
		if os.Getenv("HV_COST") != "" {
			var keys []string
			for k := range cost {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return cost[keys[i]] > cost[keys[j]] })
			groups := map[string]float64{}
			for _, k := range keys {
				groups[strings.SplitN(k, " ", 2)[0]] += cost[k]
			}
			fmt.Printf("%.0f\n", groups)
			for i, k := range keys {
				if i < 25 {
					fmt.Printf("%8.1fs %s\n", cost[k], k)
				}
			}
		}
	})
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 20000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func worker(l []Scenario) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.FatalLevel)
	logrus.StandardLogger().ExitFunc = func(int) { panic(hv.Fatal{Msg: "logrus.Fatal"}) }
	debug.SetGCPercent(400)
	dec := json.NewDecoder(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var busy atomic.Bool
	go watch(&busy)
	for {
		var t task
		if dec.Decode(&t) != nil {
			return
		}
		busy.Store(true)
		t.Cfg.Stop = func() bool { return time.Now().UnixNano() > t.Until }
		r := vsched.Explore(t.Cfg, l[t.Scenario].Body)
		busy.Store(false)
		t.Cfg.Stop = nil
		die(enc.Encode(answer{t, r}))
		die(out.Flush())
	}
}

// watch ends the process when a run makes no step for a minute: some code
// computes without end.
func watch(busy *atomic.Bool) {
	last, ticks := int64(-1), 0
	for {
		time.Sleep(2 * time.Second)
		n := vsched.Progress.Load()
		if n != last || !busy.Load() {
			last, ticks = n, 0
			continue
		}
		if ticks++; ticks < 30 {
			continue
		}
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for i, g := range strings.Split(string(buf), "\n\n") {
			head := strings.SplitN(g, "\n", 2)[0]
			if i > 0 && (strings.Contains(head, "[running") || strings.Contains(head, "[runnable")) && strings.Contains(g, "dblokhin/gringo/") {
				fmt.Fprintln(os.Stderr, "no step for a minute, endless computation:\n"+g)
				os.Exit(2)
			}
		}
		fmt.Fprintln(os.Stderr, "a run makes no step for a minute")
		os.Exit(2)
	}
}
