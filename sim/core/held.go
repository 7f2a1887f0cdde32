package core

import (
	"fmt"
	"sort"

	"verifsim/rt"
)

// A call may take as long as what it was given takes: its Reader, its client,
// its handler. While those of somebody else stall, it has to go on. Simulated
// time only moves on when nobody can run, so that a call that took longer than
// the stalls it has to do with was held up by something else.

// stall is a time in which something the harness provides did not answer.
type stall struct {
	from, to int64
	root     int  // the task it was made for, or -1
	src      *Src // the source that stalled, if it was one
}

// span is a call that was made to the code under test.
type span struct {
	root     int
	from, to int64
	srcs     [4]*Src // that it may have to wait for
	what     string
}

const (
	maxStalls = 8192
	heldSlack = int64(1e9) // running takes time, too
)

var (
	stalls  [maxStalls]stall
	nstalls int
)

// nap is how everything that the harness provides takes its time.
//
//go:norace
func nap(d int64, root int, src *Src) {
	if d <= 0 {
		return
	}
	k := nstalls
	if k < maxStalls {
		nstalls++
		stalls[k] = stall{rt.NowNS(), 1<<63 - 1, root, src}
	}
	rt.SleepNS(d)
	if k < maxStalls && !rt.Dead() {
		stalls[k].to = rt.NowNS()
	}
}

// idle returns how much of a time no stall that counts has covered.
func idle(from, to int64, counts func(*stall) bool) int64 {
	if nstalls == maxStalls {
		return 0
	}
	var l []*stall
	for i := range stalls[:nstalls] {
		s := &stalls[i]
		if s.from < to && s.to > from && counts(s) {
			l = append(l, s)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].from < l[j].from })
	free := int64(0)
	at := from
	for _, s := range l {
		if s.from > at {
			free += s.from - at
		}
		at = max(at, min(s.to, to))
	}
	return free + max(0, to-at)
}

// held checks that a call was not held up; also says what else it may wait for.
func (o *Outcome) held(class string, c *span, also func(*stall) bool) {
	if c.to-c.from < heldSlack {
		return
	}
	free := idle(c.from, c.to, func(s *stall) bool {
		if s.src != nil {
			for _, x := range c.srcs {
				if x == s.src {
					return true
				}
			}
			return also != nil && also(s)
		}
		return s.root == c.root || also != nil && also(s)
	})
	if free >= heldSlack {
		o.fail(class, []string{"C25"}, "task %d: %s took %d ms, %d ms of which nothing that it has to do with took", c.root, c.what, (c.to-c.from)/1e6, free/1e6)
	}
}

// spans collects the calls of the tasks.
type spans [rt.MaxRoots][]span

func (l *spans) add(task int, from int64, what string, srcs ...*Src) {
	s := span{root: task, from: from, to: rt.NowNS(), what: what}
	copy(s.srcs[:], srcs)
	if s.to-s.from >= heldSlack && !rt.Dead() {
		l[task] = append(l[task], s)
	}
}

func (l *spans) judge(o *Outcome, class string) {
	for t := range l {
		for i := range l[t] {
			o.held(class, &l[t][i], nil)
		}
	}
	if nstalls > 0 {
		long := 0
		for i := range stalls[:nstalls] {
			if s := &stalls[i]; s.to-s.from >= heldSlack {
				long++
			}
		}
		o.mark(fmt.Sprintf("stalls of a second or more: %s", map[bool]string{true: "several", false: "one or none"}[long > 1]))
	}
}

// genLong picks a time after which something that was held up shows, in µs.
func genLong(r *R) int { return r.Pick(20000000, 90000000, 700000000, 7200000000, 30000000000) }

// genHeld makes the plan of a run for C25.
func genHeld(r *R, p *Plan) {
	some := func(every, length *int, chance int) {
		*every, *length = 0, 0
		if r.P(chance) {
			*every, *length = r.In(1, 3), genLong(r)
		}
	}
	slowRW := func(w *RWPlan) {
		some(&w.Stall, &w.StallFor, 45)
		w.PanicOn = ""
	}
	slowSrc := func(s *SrcPlan) {
		some(&s.StallEvery, &s.StallFor, 30)
		for i := range s.Faults {
			if f := &s.Faults[i]; f.Kind == "stall" {
				f.N = genLong(r) / 100
			}
		}
	}
	tasks := 0
	switch r.W(42, 26, 20, 12) {
	case 0:
		p.Body = genBody(r, "C25")
		b := p.Body
		lists := append([][]BOp{b.Setup}, b.Tasks...)
		tasks = len(b.Tasks)
		slowSrc(&b.Src)
		if o := b.Other; o != nil {
			slowSrc(&o.Src)
			b.Inner = nil
			lists = append(lists, o.Setup)
			tasks++
		}
		for _, l := range lists {
			for i := range l {
				if o := &l[i]; o.Kind == "writeto" && o.Wr != "copy" && r.P(60) {
					o.Wr, o.Off = "stall", int64(genLong(r))*1000
				}
			}
		}
	case 1:
		p.HTTP = genHTTP(r, "C25")
		tasks = len(p.HTTP.Tasks)
		for i := range p.HTTP.Srcs {
			slowSrc(&p.HTTP.Srcs[i])
		}
		for _, l := range append([][]HOp{p.HTTP.Setup}, p.HTTP.Tasks...) {
			for i := range l {
				if l[i].RW != nil {
					slowRW(l[i].RW)
				}
			}
		}
	case 2:
		p.Ad = genAdaptor(r, "C25")
		tasks = len(p.Ad.Tasks)
		for _, l := range p.Ad.Tasks {
			for i := range l {
				for a := &l[i]; a != nil; a = a.Sub {
					slowRW(a.RW)
					if a.Src != nil {
						slowSrc(a.Src)
					}
					a.Sleep, a.Hook = 0, 0
					if r.P(25) {
						a.Sleep = int64(genLong(r))
					}
					if r.P(40) {
						a.Hook = int64(genLong(r))
					}
				}
			}
		}
	case 3:
		p.Pay = genPayload(r, "C25")
		tasks = len(p.Pay.Tasks)
	}
	p.Sched = genSched(r, tasks, 60000)
}
