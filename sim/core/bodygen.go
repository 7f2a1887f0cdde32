package core

import (
	"io/fs"
	"math"
)

// bprofile biases the body workload towards what a property is about.
type bprofile struct {
	kinds  [6]int // reader(stream), reader(readat), reader(seek), bytes/string, empty, closed
	modes  [3]int // one task, several with own copies, several on shared bodies
	ops    map[string]int
	faults int // percent of runs with a fault script
	ctor   int // percent of runs with a fault during construction
	trunc  int // percent of runs whose declared length is wrong
}

var defaultOps = map[string]int{"read": 40, "readall": 5, "readat": 12, "seek": 12, "writeto": 8, "copy": 9, "close": 6, "remaining": 8, "unwrap": 2, "rewrap": 1, "sleep": 2}

func ops(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range defaultOps {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var bprofiles = map[string]bprofile{
	"C01": {[6]int{40, 20, 25, 12, 3, 0}, [3]int{35, 35, 30}, ops(map[string]int{"read": 60, "readall": 10}), 45, 0, 25},
	"C02": {[6]int{40, 20, 20, 16, 3, 1}, [3]int{35, 45, 20}, ops(map[string]int{"copy": 25, "close": 10}), 40, 0, 20},
	"C03": {[6]int{30, 30, 30, 10, 0, 0}, [3]int{40, 35, 25}, ops(map[string]int{"read": 50, "seek": 16, "copy": 14}), 100, 0, 20},
	"C04": {[6]int{35, 30, 30, 3, 1, 1}, [3]int{25, 40, 35}, ops(map[string]int{"copy": 25, "close": 30, "read": 25}), 50, 4, 15},
	"C05": {[6]int{25, 22, 22, 17, 8, 6}, [3]int{35, 25, 40}, ops(map[string]int{"close": 28, "unwrap": 12, "copy": 16, "remaining": 14, "readat": 14, "seek": 14, "writeto": 12}), 40, 0, 15},
	"C06": {[6]int{30, 25, 25, 15, 4, 1}, [3]int{40, 30, 30}, ops(map[string]int{"remaining": 45, "copy": 12}), 45, 0, 45},
	"C07": {[6]int{2, 35, 35, 22, 5, 1}, [3]int{45, 30, 25}, ops(map[string]int{"seek": 50, "copy": 10}), 40, 0, 25},
	"C08": {[6]int{0, 40, 40, 16, 4, 0}, [3]int{40, 30, 30}, ops(map[string]int{"readat": 55, "seek": 8, "copy": 8}), 50, 0, 25},
	"C09": {[6]int{0, 4, 4, 72, 18, 2}, [3]int{50, 20, 30}, ops(map[string]int{"writeto": 45, "copy": 10, "remaining": 16}), 20, 0, 5},
	"C10": {[6]int{35, 22, 26, 13, 3, 1}, [3]int{0, 35, 65}, ops(nil), 45, 0, 25},
	"C25": {[6]int{35, 18, 18, 26, 3, 0}, [3]int{0, 70, 30}, ops(map[string]int{"writeto": 25, "copy": 12}), 30, 0, 10},
	"C11": {[6]int{45, 25, 25, 5, 0, 0}, [3]int{60, 30, 10}, ops(map[string]int{"remaining": 20, "rewrap": 6, "unwrap": 4}), 25, 25, 45},
}

func genBody(r *R, prop string) *BodyPlan {
	pf, ok := bprofiles[prop]
	if !ok {
		pf = bprofiles["C01"]
	}
	p := &BodyPlan{Order: r.U64()}
	kind := r.W(pf.kinds[:]...)
	genBodySrc(r, &p.Src, pf, kind)
	genFamily(r, p, pf)
	if r.P(15) {
		if r.P(50) {
			kind = r.W(pf.kinds[:]...)
		}
		addOther(r, p, pf, kind)
	}
	return p
}

// addOther puts another family next to p's.
func addOther(r *R, p *BodyPlan, pf bprofile, kind int) {
	q := &BodyPlan{Mode: "alongside", Order: r.U64()}
	genBodySrc(r, &q.Src, pf, kind)
	if q.Src.Len > 3000 && !q.Src.virtual() {
		q.Src.Len = r.In(1, 3000)
		q.Src.Pos = min(q.Src.Pos, q.Src.Len)
		q.Src.Faults = nil
	}
	q.Final = []string{"drain", "close", "seekdrain"}[r.W(60, 15, 25)]
	g := &bgen{r: r, p: q, pf: pf, next: 1, max: 5}
	own := []int{0}
	for i, n := 0, r.In(2, 14); i < n; i++ {
		q.Setup = append(q.Setup, g.op(&own, true))
	}
	if r.P(50) {
		g.max = 8
		for i, n := 0, r.In(1, 12); i < n; i++ {
			// Different tasks get here: they share only the first body.
			o := g.op(&[]int{0}, false)
			switch {
			case o.Kind == "copy":
				o.Kind, o.N = "visit", g.size()
			case o.Kind == "close":
				o.Kind = "remaining"
			}
			p.Inner = append(p.Inner, o)
		}
	}
	for i, n := 0, r.N(6); i < n; i++ {
		at := r.N(len(p.Setup) + 1)
		p.Setup = append(p.Setup, BOp{})
		copy(p.Setup[at+1:], p.Setup[at:])
		p.Setup[at] = BOp{Kind: "other", N: r.In(1, 4)}
	}
	p.Other = q
}

// genBodySrc makes a source of the given kind, see bprofile.
func genBodySrc(r *R, s *SrcPlan, pf bprofile, k int) {
	s.Declared = -1
	s.DataSeed = uint64(r.N(8) + 1)
	s.Len = genLen(r)
	switch k {
	case 0, 1, 2:
		s.Kind = "reader"
		s.Closer = r.P(70)
		s.Stat = r.P(25)
		switch k {
		case 0: // stream
			if r.P(40) {
				s.Declared = declared(r, s.Len, pf.trunc)
			}
			if s.Declared < 0 && !s.Stat {
				s.ReadAt = r.P(20)
			}
		case 1:
			s.ReadAt = true
			s.Seek = r.P(50)
			if !s.Seek && !s.Stat || r.P(40) {
				s.Declared = declared(r, s.Len, pf.trunc)
			}
			if s.Declared < 0 && !s.Stat && !s.Seek {
				s.Seek = true
			}
		case 2:
			s.Seek = true
			if r.P(40) {
				s.Declared = declared(r, s.Len, pf.trunc)
			}
		}
		if k != 0 && r.P(4) {
			huge(r, s)
		}
		if s.Stat {
			s.Closer = true
			s.StatMode = genMode(r)
			if !s.Seek && s.Declared < 0 && r.P(pf.trunc/2) {
				s.StatLie = declared(r, s.Len, 100) + 1
			}
		}
		if r.P(15) && (s.Seek || k == 0 && !s.Stat) && s.Len > 0 && !(s.ReadAt && !s.Seek) {
			s.Pos = r.N(s.Len + 1)
		}
		genSrcFaults(r, s, pf)
	case 3:
		s.Kind = r.PickS("bytes", "bytes", "string")
		if s.Len == 0 && r.P(70) {
			s.Len = r.In(1, 40)
		}
	case 4:
		s.Kind = "empty"
		s.Len = 0
	case 5:
		s.Kind = "closed"
		s.Len = 0
	}
}

// genFamily makes what the tasks do with the bodies over p's source.
func genFamily(r *R, p *BodyPlan, pf bprofile) {
	s := &p.Src
	p.Final = []string{"drain", "close", "seekdrain"}[r.W(60, 15, 25)]
	mode := r.W(pf.modes[:]...)
	g := &bgen{r: r, p: p, pf: pf, next: 1, max: maxSlots}
	if !s.positional() {
		// A stream keeps its bodies in a map keyed by address; up to eight
		// entries its order depends on nothing but the seed.
		g.max = 8
	}
	switch mode {
	case 0:
		p.Mode = "one task"
		own := []int{0}
		n := r.In(4, 26)
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, g.op(&own, true))
		}
	case 1:
		p.Mode = "own copies"
		own := []int{0}
		for i, n := 0, r.N(5); i < n; i++ {
			o := g.op(&own, false)
			p.Setup = append(p.Setup, o)
		}
		tasks := r.In(2, 5)
		sets := make([][]int, tasks)
		sets[0] = own
		for t := 1; t < tasks; t++ {
			from := 0
			if len(own) > 1 && r.P(30) {
				from = own[r.N(len(own))]
			}
			if g.next >= g.max {
				break
			}
			p.Setup = append(p.Setup, BOp{Kind: "copy", Slot: from, New: g.next})
			sets[t] = []int{g.next}
			g.next++
			if r.P(25) {
				p.Setup = append(p.Setup, g.op(&sets[0], false))
			}
		}
		for t := 0; t < tasks; t++ {
			if len(sets[t]) == 0 {
				continue
			}
			var list []BOp
			for i, n := 0, r.In(2, 9); i < n; i++ {
				list = append(list, g.op(&sets[t], true))
			}
			p.Tasks = append(p.Tasks, list)
		}
	case 2:
		p.Mode = "shared bodies"
		own := []int{0}
		for i, n := 0, r.N(3); i < n; i++ {
			p.Setup = append(p.Setup, g.op(&own, false))
		}
		for i, n := 0, r.Pick(0, 0, 1, 1, 2); i < n; i++ {
			p.Setup = append(p.Setup, BOp{Kind: "copy", Slot: 0, New: g.next})
			own = append(own, g.next)
			g.next++
		}
		for t, n := 0, r.In(2, 4); t < n; t++ {
			mine := append([]int(nil), own...)
			var list []BOp
			for i, m := 0, r.In(1, 5); i < m; i++ {
				list = append(list, g.op(&mine, true))
			}
			p.Tasks = append(p.Tasks, list)
		}
	}
}

func genLen(r *R) int {
	if r.N(350) == 0 {
		return genBig(r)
	}
	switch r.W(6, 25, 34, 13, 12, 10) {
	case 0:
		return 0
	case 1:
		return r.In(1, 8)
	case 2:
		return r.In(9, 120)
	case 3:
		return r.In(121, 3000)
	case 4:
		return 65536*r.In(1, 3) + r.Pick(0, 0, 0, 1, 2, 3, -1, -2, -3)
	}
	return r.In(3000, 200000)
}

// genBig picks a length of up to 3 MiB.
func genBig(r *R) int {
	if r.P(50) {
		return r.Pick(1<<18, 1<<19, 1<<20, 1<<21, 3<<20, 1000000) + r.Pick(0, 0, 1, -1, 2, r.In(-5000, 5000))
	}
	return r.In(200000, 3<<20)
}

// huge makes s a source beyond the range of 32 bits.
func huge(r *R, s *SrcPlan) {
	s.Len = []int{1 << 31, 1 << 32, 3 << 31, 1 << 40, 1<<53 + 1, 1 << 62}[r.N(6)] + r.In(-3, 3000)
	if s.Declared >= 0 {
		s.Declared = s.Len + r.Pick(0, 0, 0, -1, 1, -100, 100)
	}
}

func genMode(r *R) uint32 {
	if r.P(60) {
		return 0
	}
	return uint32([]fs.FileMode{0o600 | fs.ModeNamedPipe, fs.ModeDevice | fs.ModeCharDevice | 0o666, fs.ModeSocket, fs.ModeIrregular, 0o755 | fs.ModeSymlink}[r.N(5)])
}

func declared(r *R, n int, wrong int) int {
	if !r.P(wrong + 30) {
		return n
	}
	switch r.N(7) {
	case 0:
		return 0
	case 6:
		if r.P(50) {
			return []int{1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 5, 1<<53 + 1, math.MaxInt64 - 1}[r.N(6)]
		}
		fallthrough
	case 1:
		return r.N(n + 1)
	case 2:
		return max(0, n-r.In(1, 3))
	case 3:
		return n + r.In(1, 3)
	case 4:
		return n + r.In(1, 2*n+10)
	}
	return 65536 * r.In(0, 2)
}

// genStallFor picks how long a slow call takes, in µs: what takes long may
// take very long.
func genStallFor(r *R) int {
	return []int{0, 1, 100, 20000, 1100000, 65000000, 7200000000, 20000 * 1000000}[r.W(30, 5, 10, 15, 15, 12, 8, 5)]
}

func genSrcFaults(r *R, s *SrcPlan, pf bprofile) {
	if r.P(45) {
		s.ShortMax = []int{1, 2, 3, 7, 16, 100, 4096}[r.W(10, 10, 10, 20, 20, 15, 15)]
		if m := min(s.Len, 200000) / 60; s.ShortMax < m { // keep the number of source calls within reason
			s.ShortMax = m
		}
	}
	s.EOFData = r.P(35)
	if r.P(20) {
		s.ZeroEvery = r.In(2, 5)
	}
	if r.P(30) {
		s.StallEvery = r.In(1, 4)
		s.StallFor = genStallFor(r)
	}
	s.CloseErr = s.Closer && r.P(25)
	if s.Closer && r.P(15) {
		s.Faults = append(s.Faults, Fault{Op: "close", Kind: "stall", N: genStallFor(r)/100 + r.In(1, 500)})
	}
	if r.P(50) {
		s.ErrKind = r.N(errKinds)
	}
	if r.P(pf.ctor) {
		op := r.PickS("stat", "seek")
		s.Faults = append(s.Faults, Fault{Op: op, Call: r.N(2), Kind: "err"})
	}
	if !r.P(pf.faults) {
		return
	}
	for i, n := 0, r.Pick(1, 1, 1, 2, 2, 3); i < n; i++ {
		f := Fault{Call: r.Pick(0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 11)}
		f.Op = "read"
		if s.positional() {
			if s.ReadAt {
				f.Op = "readat"
			} else if r.P(25) {
				f.Op = "seek"
				f.Call += 2
			}
		}
		switch f.Op {
		case "seek":
			f.Kind = "err"
		default:
			f.Kind = []string{"err", "errdata", "short", "zero", "eofdata", "stall", "trunc"}[r.W(32, 32, 8, 8, 5, 5, 10)]
			if f.Op == "readat" && (f.Kind == "short" || f.Kind == "zero") {
				f.Kind = "err"
			}
			switch f.Kind {
			case "errdata", "short":
				f.N = r.Pick(0, 1, 1, 2, 5, 10, 100, 60000)
			case "stall":
				f.N = genStallFor(r)/100 + r.In(1, 500)
			case "zero":
				f.N = r.Pick(0, 0, 0, 1, 3, 15, 31, 99, 127, 299)
			case "trunc":
				f.N = r.N(s.Len + 1)
			}
		}
		s.Faults = append(s.Faults, f)
	}
}

type bgen struct {
	r    *R
	p    *BodyPlan
	pf   bprofile
	next int
	max  int
}

func (g *bgen) size() int {
	r := g.r
	n := min(g.p.Src.Len, 1<<18)
	if g.p.Src.virtual() {
		n = 500
	}
	if n >= 65536 && r.P(25) {
		return 65536
	}
	switch r.W(4, 20, 20, 20, 12, 12, 12) {
	case 0:
		return 0
	case 1:
		return r.In(1, 4)
	case 2:
		return r.In(1, 32)
	case 3:
		return r.In(1, n/2+2)
	case 4:
		return n
	case 5:
		return max(0, n+r.In(-2, 3))
	}
	return r.Pick(64, 512, 4096, 65535, 65536, 65536, 65537, 131072, n+100)
}

func (g *bgen) off() int64 {
	r := g.r
	n := int64(g.p.Src.Len)
	if d := g.p.Src.Declared; d >= 0 && r.P(30) {
		n = int64(d)
	}
	if g.p.Src.virtual() && r.P(60) {
		n = []int64{0, 1 << 31, 1 << 32, n, n, n / 2}[r.N(6)]
		return max64(0, n+int64(r.In(-400, 400)))
	}
	switch r.W(50, 20, 10, 10, 5, 5) {
	case 0:
		return int64(r.N(int(n) + 1))
	case 1:
		return n + int64(r.In(-2, 2))
	case 2:
		return n + int64(r.In(1, 100000))
	case 3:
		return -int64(r.In(1, int(n)+3))
	case 4:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - n, math.MinInt64 + 1, math.MaxInt32 + 1}[r.N(5)]
	}
	return int64(r.In(0, 3))
}

func (g *bgen) op(own *[]int, closes bool) BOp {
	r := g.r
	s := &g.p.Src
	pos := s.positional()
	for {
		kinds := [...]string{"read", "readall", "readat", "seek", "writeto", "copy", "close", "remaining", "unwrap", "rewrap", "sleep"}
		ws := make([]int, len(kinds))
		for i, k := range kinds {
			ws[i] = g.pf.ops[k]
			switch k {
			case "readat", "seek":
				if !pos {
					ws[i] = 0
				}
			case "writeto":
				if s.Kind == "reader" {
					ws[i] /= 4 // in case these bodies offer it too
				}
			case "copy":
				if g.next >= g.max {
					ws[i] = 0
				}
			case "close":
				if !closes {
					ws[i] /= 4
				}
			}
		}
		k := kinds[r.W(ws...)]
		slot := (*own)[r.N(len(*own))]
		o := BOp{Kind: k, Slot: slot}
		switch k {
		case "read":
			o.N = g.size()
		case "readall":
			o.N = max(1, g.size())
			if o.N*40 < s.Len && !s.virtual() {
				o.N = s.Len/40 + 1
			}
			o.Reps = r.In(2, 45)
		case "readat":
			o.N = g.size()
			o.Off = g.off()
		case "seek":
			o.Whence = r.Pick(0, 0, 0, 1, 1, 1, 2, 2, r.In(3, 5), -1)
			o.Off = g.off()
			if o.Whence == 1 && r.P(60) {
				o.Off = int64(r.In(-20, 20))
			}
			if o.Whence == 2 && r.P(80) {
				o.Off = -int64(r.N(s.Len + 1))
				if s.virtual() && r.P(80) {
					o.Off = -int64(r.N(500))
				}
			}
		case "writeto":
			o.Wr = []string{"ok", "short", "err", "stall", "panic", "copy"}[r.W(40, 22, 24, 8, 6, 12)]
			o.N = r.Pick(0, 1, r.N(s.Len+1), r.N(s.Len+1), s.Len, s.Len+5)
			if o.Wr == "stall" {
				o.Off = int64(genStallFor(r)+3000) * 1000
			}
			if o.Wr == "copy" {
				if g.next >= g.max {
					o.Wr = "ok"
				} else {
					o.New = g.next
					g.next++
				}
			}
		case "copy":
			o.New = g.next
			g.next++
			*own = append(*own, o.New)
		case "sleep":
			o.Off = int64(r.In(1, 100)) * 100000
		}
		return o
	}
}
