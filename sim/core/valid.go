package core

// Valid says whether a (possibly reduced) plan still is one that the
// generator could have made, as far as the oracles rely on it.
func (p *Plan) Valid() bool {
	if p.Body != nil {
		if o := p.Body.Other; o != nil && (!o.Src.valid() || o.Other != nil || len(o.Tasks) > 0) {
			return false
		}
		return p.Body.Src.valid() && p.Body.innerValid()
	}
	if p.HTTP != nil {
		return p.HTTP.valid()
	}
	if p.Wr != nil {
		return p.Wr.valid()
	}
	if p.Ad != nil {
		return p.Ad.valid()
	}
	if p.Pay != nil {
		return p.Pay.valid()
	}
	if p.Mock != nil {
		return p.Mock.valid()
	}
	if p.Flow != nil {
		return p.Flow.valid()
	}
	if p.Left != nil {
		return p.Left.valid()
	}
	return true
}

// innerValid: operations inside the reader's calls share only the first body.
func (p *BodyPlan) innerValid() bool {
	if len(p.Inner) == 0 {
		return true
	}
	if p.Other == nil {
		return false
	}
	made := [maxSlots]int{}
	for _, l := range [][]BOp{p.Other.Setup, p.Inner} {
		for _, o := range l {
			if o.Kind == "copy" || o.Kind == "visit" || o.Wr == "copy" {
				made[o.New]++
			}
		}
	}
	for _, n := range made {
		if n > 1 {
			return false
		}
	}
	for _, o := range p.Inner {
		if o.Slot != 0 || o.Kind == "copy" || o.Kind == "close" {
			return false
		}
	}
	return made[0] == 0
}

func (p *AdPlan) valid() bool {
	for _, l := range p.Tasks {
		for i := range l {
			q := &l[i]
			if !q.valid() || q.Sub != nil && (!q.Sub.valid() || q.Sub.Sub != nil || q.Sub.Same && q.Sub.Method != q.Method) {
				return false
			}
		}
	}
	return len(p.Tasks) > 0 && len(p.Tasks) < 6
}

func (q *AReq) valid() bool {
	if q.RW == nil || q.Kind == "response" && (q.Src == nil || !q.Src.valid() || q.Code < 200 || q.Code == 304 || q.Code > 999) || q.Sleep < 0 || q.Wait < 0 || q.Hook < 0 {
		return false
	}
	return q.Src == nil || q.Src.Declared <= q.Src.Len
}

func (p *WrPlan) valid() bool {
	for i := range p.Conns {
		c := &p.Conns[i]
		if c.RW == nil {
			return false
		}
		for _, o := range c.Ops {
			if (o.Kind == "writeheader" || o.Kind == "maybe") && (o.Code < 100 || o.Code > 999) || o.N < 0 || o.N > 1<<16 {
				return false
			}
		}
	}
	return len(p.Conns) > 0 && len(p.Conns) < 5
}

func (p *HTTPPlan) valid() bool {
	if len(p.Srcs) > 3 || len(p.Tasks) > 4 {
		return false
	}
	for i := range p.Srcs {
		if !p.Srcs[i].valid() {
			return false
		}
	}
	lists := append([][]HOp{p.Setup}, p.Tasks...)
	for _, l := range lists {
		for i := range l {
			o := &l[i]
			if o.B < 0 || o.B >= maxBuilders || o.R < 0 || o.R >= maxResps || o.N < 0 {
				return false
			}
			switch o.Kind {
			case "status", "errorpage":
				if o.N < 200 || o.N == 304 || o.N > 999 {
					return false
				}
			case "redirect":
				if o.N < 300 || o.N > 399 || o.N == 304 {
					return false
				}
			case "serve":
				if o.RW == nil || o.Head && !o.Wrap {
					return false
				}
			}
		}
	}
	return true
}

func (s *SrcPlan) valid() bool {
	if s.Len < 0 || s.Pos < 0 || s.Pos > s.Len {
		return false
	}
	if s.Kind != "reader" {
		return true
	}
	if s.StatLie < 0 || s.StatLie > 0 && s.Seek || s.Stat && !s.Closer {
		return false
	}
	if s.Pos > 0 && !s.Seek && (s.Stat || s.ReadAt) {
		return false
	}
	for _, f := range s.Faults {
		if f.Call < 0 || f.N < 0 || f.Kind == "trunc" && f.N > s.Len {
			return false
		}
	}
	return true
}

// Components says which parts of a check ran real code and which a stub.
func Components(prop string) map[string]any {
	real := []string{"body package (all of it, rebuilt from the working tree)", "Go runtime, io, net/http types, encoding/json"}
	stub := []string{"io.Reader/ReaderAt/Seeker/Closer/fs.File behind a Body: simulated source", "io.Writer given to WriteTo: simulated writer", "sync, sync/atomic, go statements, time.Now/Since/Sleep of the code under test: simulator's, around the real primitives", "map iteration order: from the seed"}
	switch prop {
	case "C24":
		real = append(real, "response package")
		stub = append(stub, "http.ResponseWriter: simulated client that checks what it gets and keeps nothing")
	case "C25", "C26":
		real = append(real, "response and handler packages", "prometheus client", "bufferpool, protobuf", "Go's garbage collector (C26)")
		stub = append(stub, "http.ResponseWriter: simulated client connection modelled on net/http", "Handler, OnPanic, marshalers: simulated", "clock: simulated", "sync.Pool: simulated, reuse decided by the seed")
	case "C12", "C13", "C14", "C15", "C16", "C17", "C27":
		real = append(real, "response package", "handler package (C12, C13)")
		stub = append(stub, "http.ResponseWriter: simulated client connection modelled on net/http")
	case "C18", "C19":
		real = append(real, "response and handler packages", "prometheus client")
		stub = append(stub, "http.ResponseWriter: simulated client connection modelled on net/http", "Handler: simulated", "clock: simulated")
	case "C20":
		real = append(real, "bufferpool, protobuf", "response.Builder")
		stub = append(stub, "sync.Pool: simulated, reuse decided by the seed")
	case "C21":
		real = []string{"internal/mockreader"}
		stub = stub[2:]
	}
	return map[string]any{"real": real, "stub": stub}
}

func Assumptions(prop string) []string {
	a := []string{
		"tasks are preempted at synchronisation operations, at calls on simulated components and (in part of the runs) between any two statements of the code under test; finer interleavings are covered by the data-race oracle instead",
		"the simulated components keep to their interfaces' contracts (counts within the buffer, ReadAt returns an error with short counts, Write returns an error or a full count unless a short write is injected)",
		"real source contents are at most about 200 KB, in one run of 200 to 350 at most 3 MiB (longer sources, up to 2^62 bytes, are periodic and read only in places), families at most 14 bodies, at most 6 concurrent tasks",
	}
	return a
}
