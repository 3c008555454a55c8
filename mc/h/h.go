// Package h is the shared harness of the bounded model checkers under
// /verif/mc: it counts what was explored, collects violations, matches them
// against the committed known-findings file, writes evidence and replay
// artefacts, and turns the result into the exit status of a check.
package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C is the context of one running check.
type C struct {
	ID   string
	Tier string
	Seed int

	start    time.Time
	deadline time.Time

	states      shardSet
	transitions int64
	traces      int64
	expired     int32
	progress    int64
	addStates   int64

	mu       sync.Mutex
	bounds   map[string]interface{}
	counts   map[string]int64
	samples  []string
	assume   []string
	viols    []violation
	violSigs map[string]int
	nviol    int64
	outcomes map[string]int64
}

type violation struct{ sig, detail string }

// Check is a registered property checker.
type Check struct {
	ID  string
	Run func(c *C)
}

var registry = map[string]Check{}

// Register adds a checker for the named property.
func Register(id string, run func(c *C)) { registry[id] = Check{id, run} }

const nshard = 64

type shardSet struct {
	sh [nshard]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

func (s *shardSet) add(k uint64) bool {
	sh := &s.sh[k%nshard]
	sh.Lock()
	defer sh.Unlock()
	if sh.m == nil {
		sh.m = make(map[uint64]struct{})
	}
	if _, ok := sh.m[k]; ok {
		return false
	}
	sh.m[k] = struct{}{}
	return true
}

func (s *shardSet) len() (n int64) {
	for i := range s.sh {
		s.sh[i].Lock()
		n += int64(len(s.sh[i].m))
		s.sh[i].Unlock()
	}
	return n
}

var hseed = maphash.MakeSeed()

// Hash is the state hash used by State.
func Hash(b []byte) uint64 { return maphash.Bytes(hseed, b) }

// Thorough is true in the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// State records an explored state and reports whether it is new.
func (c *C) State(key []byte) bool { return c.states.add(Hash(key)) }

// StateS is State on a string.
func (c *C) StateS(key string) bool { return c.states.add(maphash.String(hseed, key)) }

// StateH records an explored state by a hash the caller computed.
func (c *C) StateH(k uint64) bool { return c.states.add(k) }

// Transitions counts executed transitions.
func (c *C) Transitions(n int) { atomic.AddInt64(&c.transitions, int64(n)) }

// Progress tells the hang detection that the check is alive.
func (c *C) Progress() { atomic.AddInt64(&c.progress, 1) }

// Traces counts complete executions whose every step was compared between the
// reference model and the implementation.
func (c *C) Traces(n int) { atomic.AddInt64(&c.traces, int64(n)) }

// Bound records a bound of the exploration in the evidence.
func (c *C) Bound(name string, v interface{}) {
	c.mu.Lock()
	c.bounds[name] = v
	c.mu.Unlock()
}

// Count adds to a named counter in the evidence.
func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Assume records an assumption.
func (c *C) Assume(s string) {
	c.mu.Lock()
	c.assume = append(c.assume, s)
	c.mu.Unlock()
}

// Sample records an example of an explored case (the first few are kept).
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 24 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Violate records a violation. sig identifies the failing input, call site or
// history; the known-findings file is matched against it.
func (c *C) Violate(sig, format string, args ...interface{}) {
	sig = strings.Join(strings.Fields(sig), "_")
	atomic.AddInt64(&c.nviol, 1)
	if stopFirst { // for mutation testing
		defer c.finish()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violSigs[sig]++
	if c.violSigs[sig] > 1 || len(c.viols) >= 4000 {
		return
	}
	c.viols = append(c.viols, violation{sig, fmt.Sprintf(format, args...)})
}

var stopFirst = os.Getenv("VERIF_STOP_FIRST") != ""

// Violations returns the number of violations recorded so far.
func (c *C) Violations() int { return int(atomic.LoadInt64(&c.nviol)) }

// Enough is true once so many distinct violations were seen that there is no
// point in exploring further.
func (c *C) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) >= 3000
}

// Expired is true once the internal time budget ran out; the exploration then
// stops early and the evidence says it was not exhaustive.
func (c *C) Expired() bool {
	if atomic.LoadInt32(&c.expired) != 0 {
		return true
	}
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.expired, 1)
		return true
	}
	return c.Enough()
}

// Guard runs f, turning a panic into a violation.
func (c *C) Guard(sig string, what func() string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			c.Violate(sig, "panic: %v\n%s\n%s", e, what(), trimStack(debug.Stack()))
		}
	}()
	f()
	return true
}

// Panics runs f and returns the panic value, nil if it returned.
func Panics(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// Parallel runs f(0..n-1) on all cores.
func (c *C) Parallel(n int, f func(i int)) {
	nw := runtime.GOMAXPROCS(0)
	if nw > n {
		nw = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Words enumerates every word over an alphabet of k letters with length
// minLen..maxLen, in parallel over the first letters; f gets a slice it must
// not retain.
func (c *C) Words(k, minLen, maxLen int, f func(w []int)) {
	if minLen <= 0 {
		f(nil)
	}
	split := 2
	if maxLen < 2 {
		split = 1
	}
	if maxLen < 1 {
		return
	}
	n := 1
	for i := 0; i < split; i++ {
		n *= k
	}
	if split == 2 && minLen <= 1 {
		c.Parallel(k, func(i int) { f([]int{i}) })
	}
	c.Parallel(n, func(i int) {
		w := make([]int, split, maxLen)
		for j, v := split-1, i; j >= 0; j-- {
			w[j] = v % k
			v /= k
		}
		if split == 1 {
			if minLen <= 1 {
				f(w)
			}
			return
		}
		var rec func(w []int)
		rec = func(w []int) {
			if len(w) >= minLen {
				f(w)
			}
			if len(w) < maxLen && !c.Expired() {
				for a := 0; a < k; a++ {
					rec(append(w, a))
				}
			}
		}
		rec(w)
	})
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type finding struct{ sig, what string }

func loadFindings(id string) (fs []finding) {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		parts := strings.Fields(line[len("known:"):])
		if len(parts) < 3 || parts[0] != "property="+id || !strings.HasPrefix(parts[1], "sig=") {
			continue
		}
		fs = append(fs, finding{parts[1][len("sig="):], strings.Join(parts[2:], " ")})
	}
	return fs
}

// Main runs the check named on the command line: mc ID [quick|thorough].
func Main() {
	if len(os.Args) < 2 {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	id := os.Args[1]
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	chk, ok := registry[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no such check %q\n", id)
		os.Exit(2)
	}
	budget := 240
	if tier == "thorough" {
		budget = 780
	}
	budget = envInt("VERIF_BUDGET_S", budget)
	c := &C{
		ID: id, Tier: tier, Seed: envInt("VERIF_SEED", 1),
		start:    time.Now(),
		bounds:   map[string]interface{}{},
		counts:   map[string]int64{},
		violSigs: map[string]int{},
	}
	c.deadline = c.start.Add(time.Duration(budget) * time.Second)
	debug.SetGCPercent(400)

	// A hang of the code under test must still produce an answer: every check
	// reports progress, and polls the deadline, far more often than this.
	watchdog := time.AfterFunc(time.Duration(budget+90)*time.Second, func() {
		c.Violate("hang", "an execution did not end within the time budget\n%s", stacks())
		c.finish()
	})
	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			n := atomic.LoadInt64(&c.transitions) + atomic.LoadInt64(&c.traces) + atomic.LoadInt64(&c.progress)
			if n != last {
				last, at = n, time.Now()
			} else if time.Since(at) > 120*time.Second {
				c.Violate("hang", "no execution made progress for two minutes\n%s", stacks())
				c.finish()
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Violate("panic", "panic escaped the exploration: %v\n%s", e, debug.Stack())
			}
		}()
		chk.Run(c)
	}()
	watchdog.Stop()
	c.finish()
}

var finishOnce sync.Mutex

func (c *C) finish() {
	finishOnce.Lock() // never unlocked: the process ends here
	if out := os.Getenv("VERIF_PART_OUT"); out != "" {
		c.finishPart(out)
	}

	known := map[string]finding{}
	for _, f := range loadFindings(c.ID) {
		known[f.sig] = f
	}
	c.mu.Lock()
	var fresh []violation
	hit := map[string]bool{}
	for _, v := range c.viols {
		if _, ok := known[v.sig]; ok {
			hit[v.sig] = true
			continue
		}
		fresh = append(fresh, v)
	}
	sort.Slice(fresh, func(i, j int) bool {
		if len(fresh[i].sig) != len(fresh[j].sig) {
			return len(fresh[i].sig) < len(fresh[j].sig)
		}
		return fresh[i].sig < fresh[j].sig
	})
	for _, f := range loadFindings(c.ID) {
		if hit[f.sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s; %d occurrences]\n", c.ID, f.what, f.sig, c.violSigs[f.sig])
		}
	}

	states := c.states.len() + c.addStates
	exhaustive := atomic.LoadInt32(&c.expired) == 0
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   atomic.LoadInt64(&c.transitions),
		"traces_validated_against_impl": atomic.LoadInt64(&c.traces),
		"samples":                       c.samples,
		"exhaustive":                    exhaustive,
		"bounds":                        c.bounds,
	}
	for k, v := range c.counts {
		cov[k] = v
	}
	if len(hit) > 0 {
		cov["known_findings_hit"] = len(hit)
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed,
		"level": "model_checking", "coverage": cov,
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": len(fresh),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}

	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs violations=%d\n",
		c.ID, c.Tier, states, c.transitions, c.traces, exhaustive, time.Since(c.start).Seconds(), len(fresh))
	rdir := filepath.Join(verifDir(), "replays")
	path := filepath.Join(rdir, c.ID+".txt")
	if len(fresh) == 0 {
		os.Remove(path)
		os.Exit(0)
	}
	os.MkdirAll(rdir, 0755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s tier %s: %d distinct violations\nre-run: bash /verif/run.sh %s %s\n", c.ID, c.Tier, len(fresh), c.ID, c.Tier)
	for i, v := range fresh {
		if i >= 200 {
			break
		}
		fmt.Fprintf(&sb, "\n--- sig=%s (x%d)\n%s\n", v.sig, c.violSigs[v.sig], v.detail)
	}
	os.WriteFile(path, []byte(sb.String()), 0644)
	for i, v := range fresh {
		if i >= 3 {
			break
		}
		d := v.detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Printf("  sig=%s: %s\n", v.sig, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	os.Exit(1)
}
