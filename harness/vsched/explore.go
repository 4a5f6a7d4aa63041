package vsched

import (
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

func goName(v reflect.Value) string {
	if f := runtime.FuncForPC(v.Pointer()); f != nil {
		n := f.Name()
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return strings.TrimSuffix(n, "-fm")
	}
	return "func"
}

// Config bounds an exploration.
type Config struct {
	Bound     int  // deviations from the default decisions
	Policy    int  // 0: a thread runs until it blocks, 1: threads take turns
	Points    bool // accesses to unsynchronised members are scheduling points
	TimeSteps bool // time may pass although threads can run
	MaxSteps  int
	MaxRuns   int64
	Stop      func() bool `json:"-"`
	NoCache   bool
	Shard     int // explore the first deviations with number = Shard mod Shards
	Shards    int
}

// Result of an exploration.
type Result struct {
	Runs, Pruned, Steps, Decisions int64
	States                         int64
	MaxTrace                       int
	Failures                       []*Failure
	Outcomes                       map[string]int64
	Complete                       bool
	Diverged                       string
	Divergences                    int64
	Shared                         []string
}

// Execute performs one run with the given decisions.
func Execute(cfg *Config, prefix []int, cache map[uint64]uint8, shared map[string]bool, log bool, body func()) *Run {
	r := &Run{cfg: cfg, Now: Epoch, prefix: prefix, cache: cache, shared: shared, Log: log,
		chans: map[unsafe.Pointer]*chanState{}, maps: map[unsafe.Pointer]*mapState{}, fields: map[string]*Obj{},
		access: map[string]*fieldUse{}, atoms: map[unsafe.Pointer]*Obj{}, finished: make(chan struct{})}
	Progress.Add(1)
	r.fp = mix(1, uint64(r.Now))
	current = r
	t := r.spawn("main", body, true)
	r.cur = t
	t.wake <- struct{}{}
	<-r.finished
	// end the threads one after another
	<-r.cur.ended
	for i := 0; i < len(r.threads); i++ {
		x := r.threads[i]
		select {
		case <-x.ended:
		case x.wake <- struct{}{}:
			<-x.ended
		}
	}
	current = nil
	return r
}

// Explore explores all runs of body within the bounds.
func Explore(cfg Config, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	res := &Result{Outcomes: map[string]int64{}}
	shared := map[string]bool{}
	if cfg.Points {
		// find the members that several threads use, at least one writing
		pre := cfg
		pre.Points = false
		if pre.Bound > 1 {
			pre.Bound = 1
		}
		pre.Shards = 0
		explore(&pre, shared, &Result{Outcomes: map[string]int64{}}, body)
		for n := range shared {
			res.Shared = append(res.Shared, n)
		}
	}
	explore(&cfg, shared, res, body)
	return res
}

func explore(cfg *Config, shared map[string]bool, res *Result, body func()) {
	cache := map[uint64]uint8{}
	if cfg.NoCache {
		cache = nil
	}
	var stack []point
	seen := map[string]bool{}
	for {
		var prefix []int
		for _, p := range stack {
			prefix = append(prefix, p.chosen)
		}
		r := Execute(cfg, prefix, cache, shared, false, body)
		res.Runs++
		res.Steps += int64(r.steps)
		res.Decisions += int64(len(r.trace) - len(stack))
		if r.pruned {
			res.Pruned++
		}
		if len(r.trace) > res.MaxTrace {
			res.MaxTrace = len(r.trace)
		}
		if r.diverge != "" {
			res.Diverged = r.diverge
			res.Divergences++
		}
		if !cfg.Points {
			for n, u := range r.access {
				if len(u.threads) > 1 && u.written {
					shared[n] = true
				}
			}
		}
		if r.Failure != nil {
			if !seen[r.Failure.Key] {
				seen[r.Failure.Key] = true
				f := r.Failure
				for _, p := range r.trace {
					f.Choices = append(f.Choices, p.chosen)
				}
				again := Execute(cfg, f.Choices, nil, shared, true, body)
				f.Trace = again.log
				if again.Failure == nil || again.Failure.Key != f.Key {
					f.Trace = append(f.Trace, "(the replay of these decisions did not fail again)")
				}
				if len(f.Trace) > 400 {
					f.Trace = append(append([]string(nil), f.Trace[:40]...), f.Trace[len(f.Trace)-360:]...)
				}
				res.Failures = append(res.Failures, f)
			}
			if len(res.Failures) >= 3 {
				return
			}
		} else if !r.pruned {
			res.Outcomes[r.outcome]++
		}
		stack = append(stack[:0:0], r.trace...)
		for len(stack) > 0 {
			p := &stack[len(stack)-1]
			if p.devs < cfg.Bound && p.chosen+1 < p.n {
				p.chosen++
				if cfg.Shards > 1 && p.devs == 0 && (len(stack)+p.chosen)%cfg.Shards != cfg.Shard {
					continue
				}
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			res.Complete = true
			res.States = int64(len(cache))
			return
		}
		if cfg.MaxRuns > 0 && res.Runs >= cfg.MaxRuns || cfg.Stop != nil && cfg.Stop() {
			res.States = int64(len(cache))
			return
		}
	}
}
