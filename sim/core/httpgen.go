package core

var hdrNames = []string{"X-A", "X-B", "X-C", "Etag", "Cache-Control", "Vary", "Link", "Content-Type", "Push", "Content-Length", "Set-Cookie"}

type hprofile struct {
	faults, srcPanic, rwPanic, lie int // percent
	concurrent                     int
}

var hprofiles = map[string]hprofile{
	"C12": {50, 0, 0, 25, 30},
	"C13": {55, 15, 25, 25, 30},
	"C16": {25, 0, 0, 0, 70},
	"C25": {15, 0, 0, 0, 100},
	"C17": {15, 0, 0, 0, 30},
}

type hgen struct {
	r       *R
	p       *HTTPPlan
	pf      hprofile
	prop    string
	copies  int
	maxCopy int
	nextB   int
	nextR   int
	src     int
	built   map[int]bool // builders that have a body
	peek    bool
}

func genHSrc(r *R, pf hprofile) SrcPlan {
	s := SrcPlan{Declared: -1, DataSeed: uint64(r.N(8) + 1)}
	switch r.W(6, 25, 40, 20, 5, 4) {
	case 0:
	case 1:
		s.Len = r.In(1, 8)
	case 2:
		s.Len = r.In(9, 300)
	case 3:
		s.Len = r.In(301, 3000)
	case 4:
		s.Len = 32768*r.In(1, 2) + r.In(-2, 2)
	case 5:
		s.Len = r.In(3000, 90000)
	}
	if r.N(200) == 0 {
		s.Len = genBig(r)
	}
	switch r.W(58, 25, 12, 5) {
	case 1:
		s.Kind = "bytes"
		return s
	case 2:
		s.Kind = "string"
		return s
	case 3:
		s.Kind = "empty"
		s.Len = 0
		return s
	}
	s.Kind = "reader"
	s.Closer = r.P(80)
	s.Stat = r.P(20)
	switch r.W(50, 25, 25) {
	case 0:
		if r.P(40) {
			s.Declared = s.Len
		}
	case 1:
		s.ReadAt = true
		s.Seek = r.P(60)
		if !s.Seek && !s.Stat {
			s.Declared = s.Len
		}
	case 2:
		s.Seek = true
		if r.P(40) {
			s.Declared = s.Len
		}
	}
	if s.Stat {
		s.Closer = true
	}
	if s.Declared >= 0 && r.P(30) {
		s.Declared = r.N(s.Len + 1)
	} else if s.Declared >= 0 && r.P(pf.lie) {
		s.Declared = s.Len + r.In(1, 50)
	}
	if s.Declared > s.Len && s.Len > 20000 {
		s.Declared = s.Len
	}
	if r.P(45) {
		s.ShortMax = r.Pick(1, 3, 7, 100, 4096)
		if m := s.Len / 40; s.ShortMax < m {
			s.ShortMax = m
		}
	}
	s.EOFData = r.P(35)
	if r.P(15) {
		s.ZeroEvery = r.In(2, 5)
	}
	if r.P(25) {
		s.StallEvery = r.In(1, 4)
		s.StallFor = genStallFor(r)
	}
	s.CloseErr = s.Closer && pf.faults > 20 && r.P(20)
	if r.P(40) {
		s.ErrKind = r.N(errKinds)
	}
	if !r.P(pf.faults) {
		return s
	}
	for i, n := 0, r.Pick(1, 1, 2); i < n; i++ {
		f := Fault{Op: "read", Call: r.Pick(0, 0, 1, 1, 2, 3, 5)}
		if s.positional() {
			if s.ReadAt {
				f.Op = "readat"
			} else if r.P(25) {
				f.Op = "seek"
				f.Call += 2
			}
		}
		f.Kind = "err"
		if f.Op != "seek" {
			f.Kind = []string{"err", "errdata", "stall", "eofdata"}[r.W(45, 40, 10, 5)]
			f.N = r.Pick(0, 1, 5, 100, 3000)
			if f.Kind == "stall" {
				f.N = genStallFor(r)/100 + r.In(1, 500)
			}
		}
		if r.P(pf.srcPanic * 2) {
			f.Kind, f.N = "panic", 0
		}
		s.Faults = append(s.Faults, f)
	}
	return s
}

func (g *hgen) val() string { return g.r.PickS("a", "b", "c", "v1", "v2", "longer value") }

func (g *hgen) rw() *RWPlan {
	n := 0
	for _, s := range g.p.Srcs {
		n = max(n, s.Len)
	}
	w := genRW(g.r, n)
	if g.prop == "C16" || g.prop == "C17" {
		w.PushRes, w.PanicOn = nil, ""
		if g.r.P(70) {
			w.Limit = -1
		}
		if g.prop == "C16" && w.Mutate == "" && g.r.P(60) {
			w.Mutate = g.r.PickS("inplace", "append", "delete", "add")
		}
	} else if !g.r.P(g.pf.rwPanic * 3) {
		w.PanicOn = ""
	}
	return w
}

// payload makes the operation that gives builder b a body.
func (g *hgen) payload(b int) []HOp {
	r := g.r
	var l []HOp
	switch r.W(72, 6, 4, 9, 9) {
	case 0:
		if g.src < len(g.p.Srcs) {
			s := &g.p.Srcs[g.src]
			o := HOp{Kind: "body", B: b, Src: g.src, Via: r.PickS("plain", "plain", "track", "track", "trackw")}
			if r.P(6) {
				o.Via = "nocopy"
			}
			if r.P(15) && len(s.Faults) == 0 {
				o.N = r.N(min(s.Len, 3000) + 1)
			}
			g.src++
			l = append(l, o)
			break
		}
		fallthrough
	case 1:
		l = append(l, HOp{Kind: "json", B: b, N: r.N(1000)})
	case 2:
		l = append(l, HOp{Kind: "pretty", B: b, N: r.N(1000)})
	case 3:
		l = append(l, HOp{Kind: "redirect", B: b, N: r.Pick(301, 302, 307), Value: r.PickS("/x", "/y?a=b")})
	case 4:
		l = append(l, HOp{Kind: "errorpage", B: b, N: r.Pick(404, 500, 503)})
	}
	if o := &l[len(l)-1]; (o.Kind == "redirect" || o.Kind == "errorpage") && g.src < len(g.p.Srcs) && r.P(40) {
		o.Src, o.Via, o.Wrap = g.src, r.PickS("plain", "track", "trackw"), r.P(30)
		g.src++
	}
	return l
}

// fill makes the operations that give builder b a complete response.
func (g *hgen) fill(b int) []HOp {
	r := g.r
	var l []HOp
	hdr := func() HOp {
		name := r.PickS(hdrNames...)
		o := HOp{Kind: r.PickS("set", "set", "add", "add"), B: b, Name: name, Value: g.val()}
		switch name {
		case "Push":
			o.Value = r.PickS("/a.css", "/b.js", "/c.png")
		case "Content-Length":
			if !r.P(15) {
				o.Name = "X-Len"
			}
			o.Value = r.PickS("0", "5", "100")
			o.Kind = "set"
		case "Content-Type":
			o.Kind = "set"
		}
		return o
	}
	for i, n := 0, r.In(0, 5); i < n; i++ {
		switch r.W(18, 40, 14, 6, 6, 5, 4) {
		case 0:
			l = append(l, HOp{Kind: "status", B: b, N: r.Pick(200, 200, 201, 204, 206, 299, 301, 404, 500, 599, 999)})
		case 1:
			l = append(l, hdr())
		case 2:
			o := HOp{Kind: "headers", B: b}
			for k, m := 0, r.In(0, 4); k < m; k++ {
				h := hdr()
				o.Hdrs = append(o.Hdrs, [2]string{h.Name, h.Value})
			}
			l = append(l, o)
		case 3:
			l = append(l, HOp{Kind: "del", B: b, Name: r.PickS("X-A", "X-B", "Vary")})
		case 4:
			l = append(l, HOp{Kind: "hmut", B: b, Name: r.PickS("X-A", "X-B", "Vary"), Value: g.val()})
		case 5:
			l = append(l, HOp{Kind: "err", B: b, N: r.N(9)})
		case 6:
			l = append(l, HOp{Kind: "gen", B: b, N: r.N(9)})
		}
	}
	if g.prop != "C13" && r.P(30) {
		l = append(l, HOp{Kind: "add", B: b, Name: "Push", Value: "/d.css"})
	}
	l = append(l, g.payload(b)...)
	for r.P(18) { // changes its mind
		l = append(l, g.payload(b)...)
	}
	if g.peek && r.P(20) && g.copies < g.maxCopy {
		g.copies++
		l = append(l, HOp{Kind: "bpeek", B: b, N: r.Pick(0, 0, 1, 10, 500)})
	}
	if r.P(25) {
		l = append(l, hdr())
	}
	for r.P(22) {
		o := HOp{Kind: "raw", B: b, N: r.N(2), Name: r.PickS("Date", "X-A", "X-Pre-0", "Server", "x-a", "x-lower", "sec-CH-ua", "Vary")}
		for k, m := 0, r.Pick(0, 0, 1, 2); k < m; k++ {
			o.Hdrs = append(o.Hdrs, [2]string{"", g.val()})
		}
		l = append(l, o)
	}
	if r.P(5) {
		l = append(l, HOp{Kind: "noerr", B: b})
	}
	return l
}

func (g *hgen) serve(rr int) HOp {
	r := g.r
	o := HOp{Kind: "serve", R: rr, RW: g.rw(), Wrap: r.P(45)}
	if o.Wrap && r.P(15) {
		o.Head = true
	}
	return o
}

// use makes operations over builders and responses that a task owns, plus
// shared responses that it may only copy.
func (g *hgen) use(bs, rs *[]int, shared []int, n int, ends bool) []HOp {
	r := g.r
	var l []HOp
	fresh := func() (int, bool) {
		if g.copies >= g.maxCopy {
			return 0, false
		}
		g.copies++
		return 0, true
	}
	for i := 0; i < n; i++ {
		switch r.W(18, 16, 14, 18, 16, 6, 4, 8) {
		case 0: // new response
			if g.nextB >= maxBuilders || g.nextR >= maxResps {
				continue
			}
			b := g.nextB
			g.nextB++
			l = append(l, HOp{Kind: "new", B: b})
			l = append(l, g.fill(b)...)
			*bs = append(*bs, b)
		case 1: // build
			if len(*bs) == 0 || g.nextR >= maxResps {
				continue
			}
			b := (*bs)[r.N(len(*bs))]
			l = append(l, HOp{Kind: "build", B: b, R: g.nextR})
			*rs = append(*rs, g.nextR)
			g.nextR++
			if r.P(30) { // the builder is used again
				l = append(l, g.fill(b)...)
			}
		case 2:
			if len(*bs) == 0 || g.nextB >= maxBuilders {
				continue
			}
			if _, ok := fresh(); !ok {
				continue
			}
			l = append(l, HOp{Kind: "bcopy", B: (*bs)[r.N(len(*bs))], New: g.nextB})
			*bs = append(*bs, g.nextB)
			g.nextB++
		case 3:
			from := append(append([]int{}, *rs...), shared...)
			from = append(from, shared...)
			if len(from) == 0 || g.nextR >= maxResps {
				continue
			}
			if _, ok := fresh(); !ok {
				continue
			}
			l = append(l, HOp{Kind: "rcopy", R: from[r.N(len(from))], New: g.nextR})
			*rs = append(*rs, g.nextR)
			g.nextR++
		case 4:
			if len(*rs) == 0 || !ends {
				continue
			}
			l = append(l, g.serve((*rs)[r.N(len(*rs))]))
		case 5:
			if len(*bs) == 0 {
				continue
			}
			b := (*bs)[r.N(len(*bs))]
			o := HOp{Kind: r.PickS("set", "add", "hmut", "del"), B: b, Name: r.PickS("X-A", "X-B", "Vary", "X-Z"), Value: g.val()}
			l = append(l, o)
		case 6:
			if len(*rs) == 0 || !g.peek {
				continue
			}
			if _, ok := fresh(); !ok {
				continue
			}
			l = append(l, HOp{Kind: "rpeek", R: (*rs)[r.N(len(*rs))], N: r.Pick(0, 1, 10, 500)})
		case 7:
			if len(*rs) == 0 || !ends || !r.P(35) {
				l = append(l, HOp{Kind: "sleep", Off: int64(r.In(1, 20)) * 100000})
				continue
			}
			l = append(l, HOp{Kind: "rclose", R: (*rs)[r.N(len(*rs))]})
		}
	}
	return l
}

func genHTTP(r *R, prop string) *HTTPPlan {
	pf := hprofiles[prop]
	p := &HTTPPlan{Order: r.U64()}
	g := &hgen{r: r, p: p, pf: pf, prop: prop, maxCopy: 10, peek: true}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		s := genHSrc(r, pf)
		p.Srcs = append(p.Srcs, s)
		if s.Kind == "reader" && !s.positional() {
			g.maxCopy = 6
		}
		for _, f := range s.Faults {
			if f.Kind == "panic" {
				g.peek = false
			}
		}
	}
	var bs, rs []int
	// The first response always exists.
	g.nextB = 1
	p.Setup = append(p.Setup, HOp{Kind: "new"})
	p.Setup = append(p.Setup, g.fill(0)...)
	bs = append(bs, 0)
	if !r.P(pf.concurrent) {
		p.Setup = append(p.Setup, g.use(&bs, &rs, nil, r.In(1, 5), false)...)
		p.Setup = append(p.Setup, HOp{Kind: "build", B: 0, R: g.nextR})
		rs = append(rs, g.nextR)
		g.nextR++
		p.Setup = append(p.Setup, g.use(&bs, &rs, nil, r.In(1, 8), true)...)
		p.Setup = append(p.Setup, g.serve(rs[r.N(len(rs))]))
		return p
	}
	// A cached response that every task serves copies of.
	p.Setup = append(p.Setup, HOp{Kind: "build", B: 0, R: 0}, HOp{Kind: "share", R: 0})
	g.nextR = 1
	shared := []int{0}
	if r.P(40) {
		p.Setup = append(p.Setup, g.use(&bs, &rs, shared, r.In(1, 4), false)...)
		for _, k := range rs {
			p.Setup = append(p.Setup, HOp{Kind: "share", R: k})
			shared = append(shared, k)
		}
	}
	rs = nil
	for t, n := 0, r.In(2, 4); t < n; t++ {
		var tb, tr []int
		if t == 0 {
			tb = bs
		}
		var l []HOp
		if g.copies < g.maxCopy && g.nextR < maxResps && r.P(85) {
			g.copies++
			l = append(l, HOp{Kind: "rcopy", R: shared[r.N(len(shared))], New: g.nextR})
			tr = append(tr, g.nextR)
			g.nextR++
			if r.P(70) {
				l = append(l, g.serve(tr[0]))
			}
		}
		l = append(l, g.use(&tb, &tr, shared, r.In(1, 5), true)...)
		for _, k := range tr {
			if r.P(60) {
				l = append(l, g.serve(k))
			}
		}
		p.Tasks = append(p.Tasks, l)
	}
	return p
}
