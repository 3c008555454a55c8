package checks

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi"

	"verif.local/mc/h"
)

func init() { h.Register("C15", checkLifecycle) }

// recCtx records what happens to a terminal context.
type recCtx struct {
	lc *lifecycle
	i  int
}

func (rc *recCtx) Enter(term *anansi.Term) error { return rc.lc.event(rc.i, 'E') }
func (rc *recCtx) Exit(term *anansi.Term) error  { return rc.lc.event(rc.i, 'X') }

type closeCtx struct{ recCtx }

func (cc *closeCtx) Close() error { return cc.lc.event(cc.i, 'C') }

type lifecycle struct {
	c      *h.C
	ch     *h.Choose
	log    strings.Builder
	faults int // left to inject
	calls  int // left to make
	fault  bool

	entered [3]bool
	active  bool // what entered is to be, short of faults
	closes  [3]int
	pass    []int // contexts that entered or exited in the current pass
	errs    []error
	nerr    int
	bad     string
}

func (lc *lifecycle) fail(format string, args ...interface{}) {
	if lc.bad == "" {
		lc.bad = fmt.Sprintf(format, args...)
	}
}

func (lc *lifecycle) event(i int, what rune) error {
	fmt.Fprintf(&lc.log, " %c%d", what, i)
	lc.c.Transitions(1)
	failed := lc.faults > 0 && lc.ch.N(2) == 1
	switch what {
	case 'E':
		if lc.entered[i] {
			lc.fail("context %d entered twice", i)
		}
		for j := range lc.entered {
			if !failed && (j < i) != lc.entered[j] && j != i {
				lc.fail("context %d entered out of order", i)
			}
		}
		lc.entered[i] = !failed
	case 'X':
		for j := i + 1; j < len(lc.entered); j++ {
			if lc.entered[i] && lc.entered[j] {
				lc.fail("context %d exited while %d, entered later, is not", i, j)
			}
		}
		lc.entered[i] = false
	case 'C':
		if lc.entered[i] {
			lc.fail("context %d closed while entered", i)
		}
		lc.closes[i]++
	}
	if failed {
		lc.faults--
		lc.fault = true
		return lc.err()
	}
	return nil
}

func (lc *lifecycle) err() error {
	lc.nerr++
	err := fmt.Errorf("error %d", lc.nerr)
	lc.errs = append(lc.errs, err)
	fmt.Fprintf(&lc.log, "!%d", lc.nerr)
	return err
}

func (lc *lifecycle) all(want bool) bool {
	for _, e := range lc.entered {
		if e != want {
			return false
		}
	}
	return true
}

// body is one function run by the terminal; in tells whether its context is
// to be active.
func (lc *lifecycle) body(term *anansi.Term, in bool, depth int) error {
	lc.active = in
	if !lc.all(in) && !lc.fault {
		lc.fail("runs while entered=%v", lc.entered)
	}
	func() {
		defer func() {
			if recover() == nil {
				lc.fail("context added while running")
			}
		}()
		term.AddContext(&recCtx{})
	}()
	for {
		n := 3
		if lc.calls > 0 && depth < 4 {
			n = 5
		}
		switch o := lc.ch.N(n); o {
		case 0:
			return nil
		case 1:
			return lc.err()
		case 2:
			lc.log.WriteString(" panic")
			panic("within")
		default:
			lc.calls--
			if err, panicked := lc.call(term, o == 3, in, depth); panicked {
				if lc.ch.N(2) == 0 {
					panic("again")
				}
			} else if err != nil && lc.ch.N(2) == 0 {
				return err
			}
		}
	}
}

// call runs a nested (or the first) RunWith or RunWithout.
func (lc *lifecycle) call(term *anansi.Term, with, in bool, depth int) (err error, panicked bool) {
	name, run := "RunWithout", term.RunWithout
	if with {
		name, run = "RunWith", term.RunWith
	}
	before, ran, faulted := lc.active, false, lc.fault
	errs0 := len(lc.errs)
	var ferr error
	fmt.Fprintf(&lc.log, " %s{", name)
	func() {
		defer func() {
			if e := recover(); e != nil {
				panicked = true
				if s, ok := e.(string); !ok || s != "within" && s != "again" {
					lc.fail("%s panics: %v", name, e)
				}
			}
		}()
		err = run(func(t *anansi.Term) error {
			if t != term {
				lc.fail("function is passed another terminal")
			}
			ran = true
			lc.log.WriteString(" fn(")
			defer lc.log.WriteString(")")
			ferr = lc.body(t, with, depth+1)
			return ferr
		})
	}()
	lc.log.WriteString(" }")
	lc.c.StateS(fmt.Sprint(lc.entered, lc.closes, lc.fault, panicked, err, with, in, depth))
	// what was entered before is entered after, unless a function run
	// without the context failed: it stays off until something enters it
	switch {
	case with && !before:
		lc.active = false
	case !with:
		lc.active = before && !panicked && err == nil
	}
	if !lc.all(lc.active) && !lc.fault {
		lc.fail("after %s entered=%v, before it %v", name, lc.entered, before)
	}
	if panicked {
		return nil, true
	}
	switch {
	case ferr != nil:
		if err != ferr {
			lc.fail("%s returns %v, its function %v", name, err, ferr)
		}
	case !ran || len(lc.errs) > errs0:
		var want error
		if !ran || lc.fault != faulted {
			// the first error of entering or exiting is returned, unless
			// it happened within a nested call
			if len(lc.errs) > errs0 {
				want = lc.errs[errs0]
			}
			if !ran && (want == nil || err != want) {
				lc.fail("%s did not run its function and returns %v, want %v", name, err, want)
			}
		}
	default:
		if err != nil {
			lc.fail("%s returns %v without any error", name, err)
		}
	}
	return err, false
}

// checkLifecycle explores every nesting of RunWith and RunWithout with every
// outcome, and every failure of a context, over all ways to compose contexts.
func checkLifecycle(c *h.C) {
	faults, calls := c.Pick(1, 2), c.Pick(3, 4)
	c.Bound("contexts", 3)
	c.Bound("context_faults", faults)
	c.Bound("nested_calls", calls)
	c.Explore(3, func(ch *h.Choose) {
		lc := &lifecycle{c: c, ch: ch, calls: calls}
		if ch.N(2) == 1 {
			lc.faults = faults
			lc.calls--
		}
		c0, c1, c2 := &recCtx{lc, 0}, &closeCtx{recCtx{lc, 1}}, &closeCtx{recCtx{lc, 2}}
		var term *anansi.Term
		switch ch.N(4) {
		case 0:
			term = anansi.NewTerm(nil, nil, c0, c1, c2)
		case 1:
			term = anansi.NewTerm(nil, nil)
			term.AddContext(c0)
			term.AddContext(c1, nil, c2)
		case 2:
			term = anansi.NewTerm(nil, nil, anansi.Contexts(c0, c1))
			term.AddContext(anansi.Contexts(nil, c2))
		case 3:
			term = anansi.NewTerm(nil, nil, c0, anansi.Contexts(c1, c2))
		}
		if term.RunWithout(func(*anansi.Term) error { return nil }) != nil || lc.log.Len() > 0 {
			lc.fail("RunWithout of an inactive terminal did something")
		}
		_, panicked := lc.call(term, true, false, 0)
		report := func() {
			if lc.bad != "" {
				c.Violate(fmt.Sprint("life:", ch.Path()), "%s:%s", lc.bad, lc.log.String())
			}
		}
		if !lc.all(false) {
			lc.fail("contexts left entered=%v (panicked=%v)", lc.entered, panicked)
		}
		if lc.closes != [3]int{0, 1, 1} {
			lc.fail("contexts closed %v times, want [0 1 1]", lc.closes)
		}
		if lc.bad != "" {
			report()
			return
		}
		// and it works again
		lc.log.WriteString("; again:")
		lc.faults, lc.calls, lc.fault = 0, 0, false
		ran := false
		if err := term.RunWith(func(*anansi.Term) error { ran = lc.all(true); return nil }); err != nil || !ran {
			lc.fail("running again fails: ran=%v, %v", ran, err)
		}
		if !lc.all(false) || lc.closes != [3]int{0, 2, 2} {
			lc.fail("after running again entered=%v, closed %v times", lc.entered, lc.closes)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					lc.fail("AddContext panics after the run: %v", e)
				}
			}()
			term.AddContext(nil)
		}()
		report()
	})
	checkContextValues(c)
}

type namedCtx struct {
	name string
	log  *[]string
}

func (n namedCtx) Enter(*anansi.Term) error { *n.log = append(*n.log, "E"+n.name); return nil }
func (n namedCtx) Exit(*anansi.Term) error  { *n.log = append(*n.log, "X"+n.name); return nil }
func (n namedCtx) Close() error             { *n.log = append(*n.log, "C"+n.name); return nil }

// checkContextValues explores histories of combining contexts: every value
// built keeps entering exactly its parts in order, however it gets combined
// further.
func checkContextValues(c *h.C) {
	depth := c.Pick(5, 6)
	c.Bound("combinations", depth)
	c.Explore(3, func(ch *h.Choose) {
		var log []string
		type val struct {
			ctx   anansi.Context
			parts []string
		}
		vals := []val{{nil, nil}}
		for i := 0; i < 2; i++ {
			n := string(rune('a' + i))
			vals = append(vals, val{namedCtx{n, &log}, []string{n}})
		}
		var how []string
		for step := 0; step < depth; step++ {
			k := 2
			if step == 0 {
				k = 2 + ch.N(2)
			}
			var cs []anansi.Context
			var parts []string
			var names []int
			for j := 0; j < k; j++ {
				// combine with a recent value first: that is what shares storage
				m := len(vals)
				if j > 0 && m > 4 {
					m = 4
				}
				v := ch.N(m)
				if j == 0 {
					v = len(vals) - 1 - v
				}
				cs = append(cs, vals[v].ctx)
				parts = append(parts, vals[v].parts...)
				names = append(names, v)
			}
			how = append(how, fmt.Sprint(names))
			if len(parts) > 8 {
				break
			}
			vals = append(vals, val{anansi.Contexts(cs...), parts})
			c.Transitions(1)
		}
		for i, v := range vals {
			if v.ctx == nil {
				if len(v.parts) > 0 {
					c.Violate(fmt.Sprint("ctx:", ch.Path()), "combining %v: value %d is nil, want %v", how, i, v.parts)
					return
				}
				continue
			}
			var want []string
			for _, p := range v.parts {
				want = append(want, "E"+p)
			}
			for j := len(v.parts) - 1; j >= 0; j-- {
				want = append(want, "X"+v.parts[j])
			}
			for j := len(v.parts) - 1; j >= 0; j-- {
				want = append(want, "C"+v.parts[j])
			}
			log = nil
			v.ctx.Enter(nil)
			v.ctx.Exit(nil)
			if cl, ok := v.ctx.(interface{ Close() error }); ok {
				cl.Close()
			}
			if strings.Join(log, "") != strings.Join(want, "") {
				c.Violate(fmt.Sprint("ctx:", ch.Path()), "combining %v: value %d does %v, want %v", how, i, log, want)
				return
			}
		}
		c.StateS(strings.Join(how, ""))
	})
}
