package core

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/rt"
)

// R is the generator's random stream.
type R struct{ s uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func NewR(seed uint64) *R { return &R{mix64(seed)} }

func (r *R) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix64(r.s) }

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

// P is true with a chance of pct percent.
func (r *R) P(pct int) bool { return r.N(100) < pct }

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

func (r *R) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *R) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// W picks an index with the given weights.
func (r *R) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.N(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return len(ws) - 1
}

// Plan is everything that determines one simulated run.
type Plan struct {
	Prop  string    `json:"property"`
	Seed  uint64    `json:"seed"`
	Index uint64    `json:"index"`
	Sched rt.Sched  `json:"sched"`
	Body  *BodyPlan `json:"body,omitempty"`
	HTTP  *HTTPPlan `json:"http,omitempty"`
	Wr    *WrPlan   `json:"writer,omitempty"`
	Ad    *AdPlan   `json:"adaptor,omitempty"`
	Pay   *PayPlan  `json:"payload,omitempty"`
	Mock  *MockPlan `json:"mock,omitempty"`
	Flow  *FlowPlan `json:"flow,omitempty"`
	Left  *LeftPlan `json:"left,omitempty"`
}

// Violation is one observed breach of one or more properties.
type Violation struct {
	Class  string   `json:"class"` // stable identification of what failed
	Props  []string `json:"properties"`
	Detail string   `json:"detail"`
}

func (v Violation) Has(prop string) bool {
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// Outcome of one simulated run.
type Outcome struct {
	rt     rt.Result
	Hash   uint64
	Viol   []Violation
	Fired  map[string]int
	Ops    int
	Tasks  int
	Faults int
	Cover  []string // coverage marks: which kinds of component and situation occurred
	Trace  []string
}

func (o *Outcome) RT() *rt.Result { return &o.rt }

func (o *Outcome) fail(class string, props []string, format string, args ...any) {
	for _, v := range o.Viol {
		if v.Class == class {
			return
		}
	}
	o.Viol = append(o.Viol, Violation{class, uniq(props), fmt.Sprintf(format, args...)})
}

func (o *Outcome) mark(s string) { o.Cover = append(o.Cover, s) }

func (o *Outcome) fired(kind string, n int) {
	if n == 0 {
		return
	}
	if o.Fired == nil {
		o.Fired = map[string]int{}
	}
	o.Fired[kind] += n
}

func uniq(xs []string) []string {
	sort.Strings(xs)
	out := xs[:0:0]
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// Run executes the plan.
func (p *Plan) Run(logging bool) *Outcome {
	o := &Outcome{}
	nstalls = 0
	switch {
	case p.Body != nil:
		runBody(p, o, logging)
	case p.HTTP != nil:
		runHTTP(p, o, logging)
	case p.Wr != nil:
		runWriter(p, o, logging)
	case p.Ad != nil:
		runAdaptor(p, o, logging)
	case p.Pay != nil:
		runPayload(p, o, logging)
	case p.Mock != nil:
		runMock(p, o, logging)
	case p.Flow != nil:
		runFlow(p, o, logging)
	case p.Left != nil:
		runLeft(p, o, logging)
	}
	o.Hash = o.rt.Hash
	if logging {
		for _, e := range o.rt.Events {
			o.Trace = append(o.Trace, eventText(e))
		}
	}
	return o
}

var kindName = map[uint8]string{rt.KLock: "lock", rt.KUnlock: "unlock", rt.KAtomic: "atomic", rt.KPool: "pool", rt.KSource: "source", rt.KSink: "sink", rt.KOp: "op", rt.KStmt: "stmt", rt.KSleep: "sleep", rt.KSpawn: "spawn", rt.KEnd: "end", rt.KUser: "user"}

func eventText(e rt.Event) string {
	op := ""
	if e.Kind == rt.KSource && e.Op != 0 {
		op = srcOpName[e.Op&0x7f]
		if e.Op&0x80 != 0 {
			op += "-done"
		}
	} else if e.Op != 0 {
		op = fmt.Sprint(e.Op)
	}
	return strings.TrimSpace(fmt.Sprintf("step=%d t=%dus task=%d %s %s %d %d %d", e.Step, e.Now/1000, e.Task, kindName[e.Kind], op, e.A, e.B, e.C))
}

// genSched draws a scheduling policy.
func genSched(r *R, tasks int, steps int) rt.Sched {
	sc := rt.Sched{Seed: r.U64(), Steps: steps}
	if tasks <= 1 {
		sc.Strategy = 2
		return sc
	}
	switch r.W(50, 35, 5, 10) {
	case 0:
		sc.Strategy = 0
		sc.Switch = r.Pick(20, 50, 100, 200, 400, 700, 1000)
	case 1:
		sc.Strategy = 1
		sc.Changes = r.In(1, 6)
		sc.Horizon = r.Pick(20, 60, 150, 400)
	case 2:
		sc.Strategy = 2
	case 3:
		sc.Strategy = 0
		sc.Switch = r.Pick(300, 500, 800)
		sc.Fine = true
	}
	if r.P(12) {
		sc.Fine = true
	}
	return sc
}
