package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

// POp is one step of a payload task.
type POp struct {
	Kind string `json:"op"`            // json, pretty, proto, text, check, mutate, close, sleep
	Via  bool   `json:"via,omitempty"` // through a Builder
	Val  string `json:"value,omitempty"`
	N    int    `json:"n,omitempty"`
	Opt  int    `json:"opt,omitempty"` // prototext options
	Slot int    `json:"slot,omitempty"`
}

type PayPlan struct {
	Tasks [][]POp `json:"tasks"`
}

type payload struct {
	kind  string
	b     body.Body
	bytes []byte
	want  any
	msg   proto.Message // as it was
	undo  func()
	val   any           // the value itself
	obj   proto.Message // the message itself
	pos   int
	opt   *prototext.MarshalOptions
}

type payRun struct {
	p     *PayPlan
	bad   [rt.MaxRoots][]Violation
	ops   [rt.MaxRoots]int
	fails [rt.MaxRoots]int
	marks [rt.MaxRoots][]string
	all   [rt.MaxRoots][]*payload
	spans spans
	opts  []*prototext.MarshalOptions // the tasks share them
}

// textOptions are what users give to FromProtoText.
func textOptions() []*prototext.MarshalOptions {
	return []*prototext.MarshalOptions{
		{},
		{Multiline: true, Indent: "\t"},
		{EmitASCII: true},
		{Multiline: true},
		{Multiline: true, Indent: " ", EmitASCII: true},
	}
}

// squeeze leaves out the spaces that prototext puts here and there.
func squeeze(b []byte) []byte {
	var l []byte
	for i, c := range b {
		if c != ' ' || i == 0 || b[i-1] != ' ' {
			l = append(l, c)
		}
	}
	return l
}

var tJ = []string{"C20"}

func (x *payRun) fail(task int, class, format string, args ...any) {
	x.bad[task] = append(x.bad[task], Violation{class, tJ, fmt.Sprintf("task %d: ", task) + fmt.Sprintf(format, args...)})
}

// Marshalers that let other goroutines run in the middle of an encoding.
type slowJSON struct {
	N    int
	NS   int64
	Root int
}

func (v slowJSON) MarshalJSON() ([]byte, error) {
	rt.Yield(rt.KUser)
	if v.NS > 0 {
		nap(v.NS, v.Root, nil)
	}
	rt.Yield(rt.KUser)
	return []byte(fmt.Sprintf(`{"slow":%d}`, v.N)), nil
}

type badJSON struct{ panics bool }

var errBadJSON = errors.New("injected encoding failure")

func (v badJSON) MarshalJSON() ([]byte, error) {
	rt.Yield(rt.KUser)
	if v.panics {
		panic(errBadJSON)
	}
	return nil, errBadJSON
}

// nestJSON makes a payload of its own while it is being encoded.
type nestJSON struct{ N int }

func (v nestJSON) MarshalJSON() ([]byte, error) {
	b := body.FromJSON(map[string]int{"inner": v.N})
	rt.Yield(rt.KUser)
	data, err := io.ReadAll(b)
	b.Close()
	return data, err
}

// value makes a value, its expected form, what changes it afterwards, and
// whether it can be encoded.
func value(kind string, n, task int) (v any, undo func(), ok bool) {
	ok = true
	switch kind {
	case "map":
		m := map[string]any{}
		for i := 0; i < n%17; i++ {
			m[fmt.Sprintf("key%d", i)] = []any{i, "text\nwith <lines> & \u2028é", true, nil, 1.5}
		}
		return m, func() {
			for k := range m {
				if s, ok := m[k].([]any); ok {
					s[0] = "changed"
				}
				m[k] = "changed"
			}
			m["new"] = 1
		}, true
	case "list":
		var l []any
		for i := 0; i < n%400; i++ {
			l = append(l, i*7)
		}
		return l, func() {
			for i := range l {
				l[i] = -1
			}
		}, true
	case "string":
		return strings.Repeat("ab\r\n\"<é>", n%300), nil, true
	case "big": // larger than any buffer that starts out small
		return bigText(n), nil, true
	case "biglist":
		l := make([]string, n%2000)
		for i := range l {
			l[i] = fmt.Sprint("item ", i*n)
		}
		return l, nil, true
	case "number":
		return n, nil, true
	case "null":
		return nil, nil, true
	case "bytes":
		b := pattern(uint64(n), n%1500)
		return b, func() {
			for i := range b {
				b[i] ^= 0xff
			}
		}, true
	case "slow", "slower":
		ns := int64(n%50) * 1000
		if kind == "slower" {
			ns = int64(n%50+2) * 1e9
		}
		return map[string]any{"a": slowJSON{n, 0, task}, "b": []any{slowJSON{n + 1, ns, task}, "x"}}, nil, true
	case "nest":
		return []any{nestJSON{n}, "tail", strings.Repeat("y", n%700)}, nil, true
	case "raw":
		raw := json.RawMessage(fmt.Sprintf(`{ "raw" : [ %d , {} , [ ] ] }`, n))
		return raw, func() {
			for i, c := range raw {
				if c >= '0' && c <= '9' {
					raw[i] = '1' + (c-'0')%9
				}
			}
		}, true
	case "bad":
		return map[string]any{"a": strings.Repeat("z", n%600), "b": badJSON{}}, nil, false
	case "badpanic":
		return []any{1, 2, badJSON{true}}, nil, false
	case "chan":
		return []any{strings.Repeat("q", n%100), make(chan int)}, nil, false
	case "nan":
		return []any{1, math.NaN()}, nil, false
	}
	return nil, nil, true
}

func message(kind string, n int) (m proto.Message, undo func(), ok bool) {
	switch kind {
	case "struct":
		f := map[string]any{}
		for i := 0; i < n%9; i++ {
			f[fmt.Sprintf("k%d", i)] = []any{float64(i), "v", true}
		}
		s, err := structpb.NewStruct(f)
		if err != nil {
			panic(err)
		}
		return s, func() {
			s.Fields["late"] = structpb.NewStringValue("changed")
			delete(s.Fields, "k0")
		}, true
	case "wbytes":
		w := wrapperspb.Bytes(pattern(uint64(n), n%2000))
		return w, func() {
			for i := range w.Value {
				w.Value[i] ^= 0xff
			}
		}, true
	case "wstring":
		w := wrapperspb.String(strings.Repeat("text\n", n%200))
		return w, func() { w.Value = "changed" }, true
	case "big":
		return wrapperspb.Bytes([]byte(bigText(n))), nil, true
	case "utf8":
		return wrapperspb.String("\xff\xfe broken"), nil, false
	case "empty":
		return &structpb.Struct{}, nil, true
	}
	return wrapperspb.Int64(int64(n)), nil, true
}

func bigText(n int) string {
	return strings.Repeat(fmt.Sprintf("%d <&>\n", n), n/8+1)
}

// plain is the generic form of a JSON text holding exactly one value.
func plain(data []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if t, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("after the value there is %v (%v)", t, err)
	}
	return v, nil
}

func crlf(data []byte) string {
	for i, c := range data {
		if c == '\n' && (i == 0 || data[i-1] != '\r') {
			return "a bare LF"
		}
		if c == '\r' && (i+1 == len(data) || data[i+1] != '\n') {
			return "a bare CR"
		}
	}
	if !bytes.HasSuffix(data, []byte("\r\n")) {
		return "no line end at the end"
	}
	return ""
}

func (x *payRun) make(task int, op *POp) {
	var v any
	var msg proto.Message
	var undo func()
	ok := true
	var old *payload
	kind := op.Kind
	if kind == "again" {
		if len(x.all[task]) == 0 {
			return
		}
		old = x.all[task][op.Slot%len(x.all[task])]
		if old.undo != nil && op.Opt > 0 {
			old.undo()
			old.undo = nil
		}
		kind = old.kind
		if op.N%2 == 1 { // in the other form
			kind = map[string]string{"json": "pretty", "pretty": "json", "proto": "text", "text": "proto"}[kind]
		}
		x.marks[task] = append(x.marks[task], "same value encoded again")
	}
	js := kind == "json" || kind == "pretty"
	pl := &payload{kind: kind}
	if js {
		if old != nil {
			v, undo = old.val, old.undo
		} else {
			v, undo, ok = value(op.Val, op.N, task)
		}
		if ok {
			ref, err := json.Marshal(v)
			if err == nil {
				pl.want, err = plain(ref)
			}
			if err != nil {
				panic(err)
			}
		}
	} else {
		if old != nil {
			msg, undo = old.obj, old.undo
		} else {
			msg, undo, ok = message(op.Val, op.N)
		}
		pl.msg = proto.Clone(msg)
	}
	pl.val, pl.obj = v, msg
	if old == nil {
		pl.undo = undo
	}
	var opt *prototext.MarshalOptions
	if kind == "text" && op.Opt > 0 && op.Opt <= len(x.opts) {
		opt = x.opts[op.Opt-1]
		pl.opt = opt
	}
	bd := response.NewBuilder()
	begin := rt.NowNS()
	pv := call(func() {
		switch {
		case kind == "json" && op.Via:
			bd.WithJSON(v)
		case kind == "json":
			pl.b = body.FromJSON(v)
		case kind == "pretty" && op.Via:
			bd.WithPrettyJSON(v)
		case kind == "pretty":
			pl.b = body.FromPrettyJSON(v)
		case kind == "proto" && op.Via:
			bd.WithProto(msg)
		case kind == "proto":
			pl.b = body.FromProto(msg)
		case kind == "text" && op.Via:
			bd.WithProtoText(msg, opt)
		default:
			pl.b = body.FromProtoText(msg, opt)
		}
	})
	if rt.Dead() {
		return
	}
	what := fmt.Sprintf("%s of %s %d", kind, op.Val, op.N)
	x.spans.add(task, begin, what)
	if !ok {
		x.fails[task]++
		if pv == nil {
			x.fail(task, "encoding-error-lost", "%s did not panic", what)
		}
		return
	}
	if pv != nil {
		x.fail(task, "payload-panic", "%s panicked: %v", what, pv)
		return
	}
	if op.Via {
		pl.b = bd.Body()
		if _, found := bd.Headers()["Content-Type"]; !found {
			x.fail(task, "payload-content-type", "%s set no Content-Type", what)
		}
	}
	if pl.b == nil {
		x.fail(task, "payload-nil", "%s gave no body", what)
		return
	}
	pl.bytes = x.read(task, pl, what)
	x.all[task] = append(x.all[task], pl)
	if pl.bytes == nil {
		return
	}
	if n := pl.b.BytesRemaining(); n != int64(len(pl.bytes)) {
		x.fail(task, "payload-length", "%s has length %d, delivers %d bytes", what, n, len(pl.bytes))
	}
	x.judge(task, pl, what)
}

func (x *payRun) judge(task int, pl *payload, what string) {
	switch pl.kind {
	case "json", "pretty":
		got, err := plain(pl.bytes)
		if err != nil {
			x.fail(task, "payload-wrong", "%s is not one JSON value: %v (%.60q)", what, err, pl.bytes)
		} else if !reflect.DeepEqual(got, pl.want) {
			x.fail(task, "payload-wrong", "%s encodes another value: %.80q", what, pl.bytes)
		}
		if pl.kind == "json" {
			if i := bytes.IndexByte(pl.bytes, '\n'); i >= 0 && i < len(pl.bytes)-1 {
				x.fail(task, "payload-form", "%s is not in a single line: %.60q", what, pl.bytes)
			}
		}
		if pl.kind == "pretty" {
			if s := crlf(pl.bytes); s != "" {
				x.fail(task, "payload-line-ends", "%s has %s", what, s)
			}
			big := false
			switch w := pl.want.(type) {
			case map[string]any:
				big = len(w) > 0
			case []any:
				big = len(w) > 0
			}
			if big && (bytes.Count(pl.bytes, []byte("\r\n")) < 3 || !bytes.Contains(pl.bytes, []byte("\n "))) {
				x.fail(task, "payload-indent", "%s is not indented: %.60q", what, pl.bytes)
			}
		}
	case "proto":
		m := pl.msg.ProtoReflect().New().Interface()
		if err := proto.Unmarshal(pl.bytes, m); err != nil || !proto.Equal(m, pl.msg) {
			x.fail(task, "payload-wrong", "%s encodes another message (%v)", what, err)
		}
	case "text":
		m := pl.msg.ProtoReflect().New().Interface()
		if err := prototext.Unmarshal(pl.bytes, m); err != nil || !proto.Equal(m, pl.msg) {
			x.fail(task, "payload-wrong", "%s encodes another message (%v): %.60q", what, err, pl.bytes)
		} else if pl.opt != nil {
			want, err := pl.opt.Marshal(pl.msg)
			if err == nil && !bytes.Equal(squeeze(want), squeeze(pl.bytes)) {
				x.fail(task, "payload-options", "%s does not follow the options %+v: %.60q", what, pl.opt, pl.bytes)
			}
		}
	}
}

// read delivers what a copy of the body delivers.
func (x *payRun) read(task int, pl *payload, what string) []byte {
	c, err := pl.b.Copy()
	if err != nil {
		x.fail(task, "payload-copy", "%s: %v", what, err)
		return nil
	}
	defer c.Close()
	var got []byte
	if wt, ok := c.(io.WriterTo); ok && len(x.all[task])%2 == 1 {
		var buf bytes.Buffer
		_, err = wt.WriteTo(&buf)
		got = buf.Bytes()
	} else {
		got, err = io.ReadAll(c)
	}
	if err != nil {
		x.fail(task, "payload-read", "%s: %v", what, err)
	}
	if got == nil {
		got = []byte{}
	}
	return got
}

func (x *payRun) again(task, owner, k int, when string) {
	pl := x.all[owner][k]
	if pl.b == nil || pl.bytes == nil {
		return
	}
	what := fmt.Sprintf("payload %d of task %d (%s)", k, owner, pl.kind)
	got := x.read(task, pl, what)
	if !bytes.Equal(got, pl.bytes) {
		x.fail(task, "payload-changed", "%s: %s has changed from %.40q to %.40q (%d, %d bytes)", when, what, pl.bytes, got, len(pl.bytes), len(got))
	}
}

func (x *payRun) run(task, t int) {
	for i := range x.p.Tasks[t] {
		op := &x.p.Tasks[t][i]
		rt.Note(rt.KOp, kindNo(op.Kind), int64(op.N), int64(op.Slot), 0)
		n := len(x.all[task])
		switch op.Kind {
		case "sleep":
			rt.SleepNS(int64(op.N) * 1000)
			continue
		case "check":
			if n > 0 {
				x.again(task, task, op.Slot%n, "later")
			}
		case "mutate":
			if n > 0 {
				if pl := x.all[task][op.Slot%n]; pl.undo != nil {
					pl.undo()
					pl.undo = nil
					x.marks[task] = append(x.marks[task], "value changed afterwards")
					x.again(task, task, op.Slot%n, "after the value was changed")
				}
			}
		case "close":
			if n > 0 {
				if pl := x.all[task][op.Slot%n]; pl.b != nil {
					pl.b.Close()
					pl.b = nil
				}
			}
		default:
			x.make(task, op)
		}
		x.ops[task]++
		if rt.Dead() {
			return
		}
	}
}

func runPayload(p *Plan, o *Outcome, logging bool) {
	x := &payRun{p: p.Pay, opts: textOptions()}
	o.rt = rt.Run(p.Sched, logging, func() {
		if len(x.p.Tasks) == 1 {
			x.run(0, 0)
		} else {
			var ids []int
			for t := range x.p.Tasks {
				t := t
				ids = append(ids, rt.Spawn(func() { x.run(t+1, t) }))
			}
			rt.Join(ids...)
		}
		for t := range x.all {
			for k := range x.all[t] {
				x.again(0, t, k, "at the end")
			}
		}
		for i, o := range textOptions() {
			if *o != *x.opts[i] {
				x.fail(0, "payload-options", "the options %+v that were given to FromProtoText are now %+v", o, x.opts[i])
			}
		}
	})
	o.Tasks = len(p.Pay.Tasks)
	for t := range x.bad {
		o.Ops += x.ops[t]
		if x.fails[t] > 0 {
			o.fired("value that cannot be encoded", x.fails[t])
			o.Faults += x.fails[t]
		}
		for _, m := range x.marks[t] {
			o.mark(m)
		}
		for _, v := range x.bad[t] {
			o.fail(v.Class, v.Props, "%s", v.Detail)
		}
		for _, pl := range x.all[t] {
			o.mark("payload: " + pl.kind)
		}
	}
	x.spans.judge(o, "payload-held-up")
	if o.rt.Races > 0 {
		o.fail("data-race", tJ, "the race detector reported %d conflicting accesses", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", tJ, "a goroutine panicked: %v", o.rt.Panic)
		return
	}
	if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), tJ, "the run ended in a %s", o.rt.Outcome)
	}
}

func (p *PayPlan) valid() bool {
	for _, l := range p.Tasks {
		for _, o := range l {
			if o.N < 0 || o.N > 100000 || o.Slot < 0 {
				return false
			}
		}
	}
	return len(p.Tasks) > 0 && len(p.Tasks) < 6
}

func genPayload(r *R, prop string) *PayPlan {
	p := &PayPlan{}
	n := r.Pick(1, 2, 2, 3, 4)
	if prop == "C25" {
		n = r.In(2, 4)
	}
	big := 0 // weight of large values: they are slow, so only some runs have them
	if r.P(5) {
		big = 15
	}
	for t := 0; t < n; t++ {
		var l []POp
		for i, m := 0, r.In(2, 8); i < m; i++ {
			o := POp{N: r.N(3000), Slot: r.N(8), Via: r.P(35)}
			if r.P(30) {
				o.N = r.N(4)
			}
			switch r.W(30, 30, 10, 8, 12, 8, 3, 3, 10) {
			case 0:
				o.Kind = "json"
			case 1:
				o.Kind = "pretty"
			case 2:
				o.Kind = "proto"
			case 3:
				o.Kind = "text"
				o.Opt = r.N(6)
			case 4:
				o.Kind = "check"
			case 5:
				o.Kind = "mutate"
			case 6:
				o.Kind = "close"
			case 7:
				o.Kind = "sleep"
				o.N = r.In(1, 40)
			case 8:
				o.Kind = "again"
				o.Opt = r.N(2)
			}
			switch o.Kind {
			case "json", "pretty":
				o.Val = []string{"map", "list", "string", "number", "null", "bytes", "slow", "nest", "raw", "bad", "badpanic", "chan", "nan", "big", "biglist"}[r.W(14, 12, 12, 6, 3, 8, 22, 12, 6, 6, 5, 3, 3, big, big/2)]
			case "proto", "text":
				o.Val = []string{"struct", "wbytes", "wstring", "int", "utf8", "empty", "big"}[r.W(30, 20, 20, 10, 14, 6, big)]
			}
			if o.Val == "slow" && (prop == "C25" || r.P(5)) {
				o.Val = "slower"
			}
			if strings.HasPrefix(o.Val, "big") {
				o.N = r.Pick(r.In(1, 9000), r.In(4000, 20000), r.In(8180, 8200), r.In(4090, 4100), r.Pick(r.In(16000, 17000), r.In(32000, 33000), r.In(64000, 70000)))
				if r.N(40) == 0 {
					o.N = r.In(200000, 1300000)
				}
			}
			l = append(l, o)
		}
		p.Tasks = append(p.Tasks, l)
	}
	return p
}
