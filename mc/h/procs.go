package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// part is what a process of Procs found.
type part struct {
	States, Transitions, Traces, NViol int64
	Counts                             map[string]int64
	Samples                            []string
	Viols                              [][2]string
	Expired                            bool
}

// Procs runs f(0..n-1) in as many processes of this program as there are
// cores, each with one job at a time: for checks of code that has global
// state. What they find adds up here. States are counted per job.
func (c *C) Procs(n int, f func(job int)) {
	if os.Getenv("VERIF_PART_OUT") != "" {
		runtime.GOMAXPROCS(1)
		jobs := os.NewFile(3, "jobs")
		var b [4]byte
		for !c.Expired() {
			if _, err := io.ReadFull(jobs, b[:]); err != nil {
				break
			}
			f(int(binary.BigEndian.Uint32(b[:])))
		}
		c.finish()
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() {
		for i := 0; i < n; i++ {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], uint32(i))
			if _, err := w.Write(b[:]); err != nil {
				break
			}
		}
		w.Close()
	}()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "parts")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				c.Progress() // the parts watch themselves
			}
		}
	}()
	var wg sync.WaitGroup
	left := time.Until(c.deadline) / time.Second
	for i := 0; i < runtime.NumCPU() && i < n; i++ {
		out := filepath.Join(dir, fmt.Sprint(i))
		cmd := exec.Command(os.Args[0], c.ID, c.Tier)
		cmd.Env = append(os.Environ(), "VERIF_PART_OUT="+out, fmt.Sprint("VERIF_BUDGET_S=", int(left)))
		cmd.ExtraFiles = []*os.File{r}
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			b, rerr := os.ReadFile(out)
			var p part
			if rerr == nil {
				rerr = json.Unmarshal(b, &p)
			}
			if rerr != nil {
				c.Violate("process", "a process of the exploration ended without a result: %v", err)
				return
			}
			c.mu.Lock()
			for k, v := range p.Counts {
				c.counts[k] += v
			}
			c.mu.Unlock()
			for _, s := range p.Samples {
				c.Sample("%s", s)
			}
			atomic.AddInt64(&c.transitions, p.Transitions)
			atomic.AddInt64(&c.traces, p.Traces)
			atomic.AddInt64(&c.addStates, p.States)
			for _, v := range p.Viols {
				c.Violate(v[0], "%s", v[1])
			}
			if p.Expired {
				atomic.StoreInt32(&c.expired, 1)
			}
		}()
	}
	r.Close()
	wg.Wait()
	close(stop)
}

func (c *C) finishPart(out string) {
	c.mu.Lock()
	p := part{
		States: c.states.len(), Transitions: c.transitions, Traces: c.traces, NViol: c.nviol,
		Counts: c.counts, Samples: c.samples, Expired: atomic.LoadInt32(&c.expired) != 0,
	}
	for _, v := range c.viols {
		p.Viols = append(p.Viols, [2]string{v.sig, v.detail})
		if len(p.Viols) >= 50 {
			break
		}
	}
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "part:", err)
		os.Exit(2)
	}
	os.Exit(0)
}
