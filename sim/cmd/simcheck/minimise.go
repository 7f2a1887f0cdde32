package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verifsim/core"
	"verifsim/rt"
)

// Numbers that may be made smaller; everything else in a plan is left alone.
var shrinkable = map[string]bool{"n": true, "off": true, "reps": true, "len": true, "shortmax": true, "zeroevery": true, "stallevery": true, "call": true, "limit": true, "pos": true, "at": true, "ns": true, "size": true, "panicat": true, "rfbuf": true, "pre": true, "part": true, "err": true, "out": true, "nap": true, "sleep": true, "wait": true, "hook": true, "jump": true}
var droppable = map[string]bool{"eofdata": true, "closeerr": true, "fine": true, "stall": true, "track": true, "push": true, "pusher": true, "partial": true, "wrap": true, "head": true, "lax": true, "layers": true, "opts": true, "via": true, "fails": true, "prewrapped": true}

// shrinkLists names the arrays whose elements may be removed.
var shrinkLists = map[string]bool{"setup": true, "tasks": true, "faults": true, "recorded": true, "ops": true, "steps": true, "requests": true, "script": true, "headers": true, "clone": true, "pushres": true}

type minimiser struct {
	class    string
	deadline time.Time
	tries    int
	best     *core.Plan
	bestOut  *core.Outcome
}

func (m *minimiser) runPlan(p *core.Plan) (o *core.Outcome) {
	defer func() {
		if q := recover(); q != nil {
			o = nil
		}
	}()
	if !p.Valid() {
		return nil
	}
	progress.Add(1)
	m.tries++
	return p.Run(false)
}

func hasClass(o *core.Outcome, class string) bool {
	if o == nil {
		return false
	}
	for _, v := range o.Viol {
		if v.Class == class && v.Has(*fCheck) {
			return true
		}
	}
	return false
}

// try accepts p if it still fails in the same way, under its own schedule or,
// if it is concurrent, under one of a few others.
func (m *minimiser) try(p *core.Plan, reschedule int) bool {
	if time.Now().After(m.deadline) {
		return false
	}
	if o := m.runPlan(p); hasClass(o, m.class) {
		m.best, m.bestOut = p, o
		return true
	}
	if p.Sched.Strategy == 3 {
		return false
	}
	for i := 0; i < reschedule; i++ {
		q := clonePlan(p)
		q.Sched.Seed = p.Sched.Seed + uint64(i)*7919 + 1
		if i%2 == 1 {
			q.Sched.Strategy, q.Sched.Switch, q.Sched.Fine = 0, 300+i*50, i%4 == 3 || p.Sched.Fine
		}
		if o := m.runPlan(q); hasClass(o, m.class) {
			m.best, m.bestOut = q, o
			return true
		}
	}
	return false
}

func clonePlan(p *core.Plan) *core.Plan {
	js, _ := json.Marshal(p)
	q := &core.Plan{}
	json.Unmarshal(js, q)
	return q
}

func toTree(p *core.Plan) any {
	js, _ := json.Marshal(p)
	var t any
	json.Unmarshal(js, &t)
	return t
}

func fromTree(t any) *core.Plan {
	js, _ := json.Marshal(t)
	q := &core.Plan{}
	if json.Unmarshal(js, q) != nil {
		return nil
	}
	return q
}

// edits visits every single simplification of the tree; f gets to see the
// tree with the edit applied and says whether to keep it.
func edits(node any, key string, f func() bool) bool {
	switch x := node.(type) {
	case map[string]any:
		names := make([]string, 0, len(x))
		for k := range x {
			names = append(names, k)
		}
		sortStrings(names)
		for _, k := range names {
			v := x[k]
			switch y := v.(type) {
			case float64:
				if !shrinkable[k] || y == 0 {
					continue
				}
				for _, z := range []float64{0, 1, float64(int64(y / 2)), y - 1} {
					if z == y || (z < 0) != (y < 0) && z != 0 || z > y && y > 0 {
						continue
					}
					x[k] = z
					if f() {
						return true
					}
				}
				x[k] = y
			case bool:
				if !y || !droppable[k] {
					continue
				}
				x[k] = false
				if f() {
					return true
				}
				x[k] = y
			case []any:
				if shrinkLists[k] {
					for size := len(y); size >= 1; size /= 2 {
						for i := 0; i+size <= len(y); i += size {
							z := append(append([]any{}, y[:i]...), y[i+size:]...)
							x[k] = z
							if f() {
								return true
							}
						}
					}
					x[k] = y
				}
				if k != "recorded" && edits(y, k, f) {
					return true
				}
			case map[string]any:
				if edits(y, k, f) {
					return true
				}
			}
		}
	case []any:
		for i := range x {
			if sub, ok := x[i].([]any); ok { // a list of lists: tasks
				for size := len(sub); size >= 1; size /= 2 {
					for j := 0; j+size <= len(sub); j += size {
						x[i] = append(append([]any{}, sub[:j]...), sub[j+size:]...)
						if f() {
							return true
						}
					}
				}
				x[i] = sub
			}
			if edits(x[i], key, f) {
				return true
			}
		}
	}
	return false
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (m *minimiser) shrink(reschedule int) {
	for time.Now().Before(m.deadline) {
		tree := toTree(m.best)
		ok := edits(tree, "", func() bool {
			if time.Now().After(m.deadline) {
				return false
			}
			q := fromTree(tree)
			return q != nil && m.try(q, reschedule)
		})
		if !ok {
			return
		}
	}
}

func minimise() {
	go watchdog(120 * time.Second)
	data, err := os.ReadFile(*fMin)
	if err != nil {
		die(2, "%v", err)
	}
	var f found
	if err := json.Unmarshal(data, &f); err != nil {
		die(2, "%v", err)
	}
	limit := 40 * time.Second
	m := &minimiser{class: f.Viol.Class, deadline: time.Now().Add(limit)}
	if !m.try(f.Plan, 0) {
		die(4, "the violation of run %d does not repeat", f.Plan.Index)
	}
	before, _ := json.Marshal(f.Plan)
	m.deadline = time.Now().Add(limit * 7 / 10)
	m.shrink(12)
	// Replace the scheduling policy by the decisions it made, and shrink those.
	m.deadline = time.Now().Add(limit * 3 / 10)
	q := clonePlan(m.best)
	q.Sched.Recorded = m.bestOut.RT().Recorded
	q.Sched.Strategy = 3
	q.Sched.Switch, q.Sched.Changes, q.Sched.Horizon = 0, 0, 0
	if m.try(q, 0) {
		m.shrink(0)
		trim := clonePlan(m.best)
		trim.Sched.Recorded = m.bestOut.RT().Recorded
		m.try(trim, 0)
	}
	p := m.best
	o := p.Run(true)
	var v core.Violation
	for _, x := range o.Viol {
		if x.Class == m.class {
			v = x
		}
	}
	after, _ := json.Marshal(p)
	rf := replayFile{Property: *fCheck, Violation: v, Hash: fmt.Sprintf("%016x", o.Hash), Plan: p, How: how(*fOut),
		Minimised: fmt.Sprintf("plan of %d bytes reduced to %d in %d simulated runs; %d scheduling decisions left", len(before), len(after), m.tries, len(p.Sched.Recorded)), Trace: o.Trace}
	if v.Class == "data-race" {
		rf.Race = raceText()
	}
	if len(rf.Trace) > 600 {
		rf.Trace = rf.Trace[:600]
	}
	js, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(*fOut, js, 0o644); err != nil {
		die(2, "%v", err)
	}
}

var _ = rt.Finished
