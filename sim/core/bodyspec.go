package core

import (
	"bytes"
	"fmt"
	"math"
	"strings"
)

// The reference model: a family of cursors over one array of bytes.

type bst struct {
	made, open, atEOF bool
	failed            bool // it (or what it was copied from) has met a source failure
	c                 int64
	sticky            int32 // last error reported by Read since the last Seek
	found             int64 // where this body has reported the end, or -1
}

type fstate struct {
	b    [maxSlots]bst
	live int32
	ends [20]int64 // ends revealed by EOF so far
	nend int32
	over bool // there were more
}

type spec struct {
	x          *bodyRun
	dlen       int64
	declared   int64
	positional bool
	hasSource  bool
	ends       []int64 // ends that can be known: declared length, limits of the source, the stream's end
	lims       []lim
	termSeq    int64 // stream: when its final state was seen
	termPos    int64
	termErr    int32 // -2: io.EOF
	termCut    bool  // data came with it
	flags      map[string]bool
	conc       bool
}

type lim struct {
	seq int64
	n   int64
}

type badness struct {
	class string
	tags  []string
	why   string
}

func (x *bodyRun) newSpec(conc bool) *spec {
	p := &x.p.Src
	s := x.src
	sp := &spec{x: x, dlen: x.dlen, declared: x.declared, positional: p.positional(), hasSource: p.Kind == "reader", termSeq: math.MaxInt64, termErr: -1, flags: map[string]bool{}, conc: conc}
	base := int64(p.base())
	if sp.declared >= 0 {
		sp.ends = append(sp.ends, sp.declared)
	}
	full := int64(p.Len) - base
	if full < 0 {
		full = 0
	}
	sp.lims = append(sp.lims, lim{0, full})
	sp.ends = append(sp.ends, full)
	for i := 0; i < s.logN; i++ {
		c := &s.log[i]
		if c.op == sRead && !sp.positional && sp.termSeq == math.MaxInt64 && (c.errID >= 0 || c.errID == -2) {
			sp.termSeq, sp.termPos, sp.termErr, sp.termCut = c.start, c.off+c.n-base, c.errID, c.n > 0
			sp.ends = append(sp.ends, sp.termPos)
		}
	}
	if s.lim < int64(p.Len) {
		// The source shrank during the run: when exactly is known from the
		// fault script, and any order of it with overlapping calls is fine.
		cur := int64(p.Len)
		for i := range p.Faults {
			if p.Faults[i].Kind == "trunc" && int64(p.Faults[i].N) < cur && int64(p.Faults[i].N) >= s.lim {
				sp.lims = append(sp.lims, lim{0, max64(0, int64(p.Faults[i].N)-base)})
				sp.ends = append(sp.ends, max64(0, int64(p.Faults[i].N)-base))
			}
		}
	}
	for t := range x.recs {
		for _, r := range x.recs[t] {
			sp.flags[r.kind] = true
			if r.sErr >= 0 {
				sp.flags["srcerr"] = true
			}
		}
	}
	return sp
}

// same says whether got is what the body has at off.
func (sp *spec) same(got []byte, off int64) bool { return sp.x.src.same(got, off+sp.x.base) }

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// endAt is the smallest position at which the data may be said to end.
func (sp *spec) endAt() int64 {
	e := int64(math.MaxInt64)
	for _, l := range sp.lims {
		if l.n < e {
			e = l.n
		}
	}
	if sp.declared >= 0 && sp.declared < e {
		e = sp.declared
	}
	return e
}

func (sp *spec) tags(kind string, more ...string) []string {
	t := append([]string{opTag(kind)}, more...)
	if sp.conc {
		t = append(t, "C10")
	}
	if sp.flags["copy"] {
		t = append(t, "C02")
	}
	switch kind {
	case "read", "remaining":
		for _, k := range []string{"seek", "readat", "writeto"} {
			if sp.flags[k] {
				t = append(t, opTag(k))
			}
		}
		if kind == "remaining" {
			break
		}
		fallthrough
	case "readat":
		if sp.flags["srcerr"] {
			t = append(t, "C03")
		}
	}
	return t
}

// each calls f for every end the body may know of and reports whether f
// accepted one.
func (sp *spec) each(st *fstate, b *bst, f func(e int64) bool) bool {
	try := func(e int64) bool { return (b.found < 0 || e <= b.found) && f(e) }
	for _, e := range sp.ends {
		if try(e) {
			return true
		}
	}
	for i := int32(0); i < st.nend; i++ {
		if try(st.ends[i]) {
			return true
		}
	}
	return b.found >= 0 && f(b.found) || st.over
}

func (sp *spec) eofOK(r *rec, pos int64) bool {
	if sp.declared >= 0 && pos >= sp.declared {
		// The last byte may come with a failure, which counts.
		if sp.positional {
			return !r.sCut
		}
		return sp.termErr < 0 || !sp.termCut || sp.termPos < sp.declared || sp.termSeq > r.ret
	}
	if !sp.hasSource {
		return pos >= sp.dlen
	}
	if sp.positional {
		return pos >= sp.endAt()
	}
	return sp.termErr == -2 && sp.termSeq < r.ret && pos == sp.termPos
}

// step applies r to st, or says why that is not allowed.
func (sp *spec) step(st *fstate, r *rec) *badness {
	open := st.b[r.slot].open
	bd := sp.step1(st, r)
	if bd != nil && open && r.ec == eClosed {
		// Something passes an open body off as closed.
		bd.tags = append(bd.tags, "C05")
	}
	return bd
}

func (sp *spec) step1(st *fstate, r *rec) *badness {
	b := &st.b[r.slot]
	if r.panicked {
		return &badness{"panic-" + r.kind, sp.tags(r.kind), "panic: " + r.panicVal}
	}
	if r.aborted {
		// The writer took nothing, so nothing has happened.
		if !b.open {
			return &badness{"closed-writeto", sp.tags(r.kind, "C05"), "WriteTo on a closed body wrote something"}
		}
		return nil
	}
	if r.bad != "" {
		switch r.kind {
		case "unwrap":
			return &badness{"unwrap-wrong", sp.tags(r.kind), r.bad}
		case "copy":
			return &badness{"copy-wrong", sp.tags(r.kind), r.bad}
		case "rewrap":
			return &badness{"rewrap-wrong", sp.tags(r.kind), r.bad}
		}
		return &badness{"impossible-result", sp.tags(r.kind), r.bad}
	}
	bad := func(class, why string, more ...string) *badness {
		return &badness{class, sp.tags(r.kind, more...), why}
	}
	if r.sClose && r.kind != "close" {
		return bad("close-outside-close", "the source was closed by an operation other than Close", "C04")
	}
	if !b.open {
		return sp.stepClosed(st, b, r)
	}
	switch r.kind {
	case "rewrap":
		if r.ec != eNil {
			return bad("rewrap-error", "FromReader(Body) failed")
		}
	case "read":
		return sp.stepRead(st, b, r)
	case "readat":
		return sp.stepReadAt(st, b, r)
	case "seek":
		return sp.stepSeek(st, b, r)
	case "writeto":
		return sp.stepWriteTo(st, b, r)
	case "remaining":
		if r.n == -1 {
			if sp.declared >= 0 || b.found >= 0 {
				return bad("remaining-unknown", "BytesRemaining is -1 although the length is known", "C11")
			}
			return nil
		}
		if b.atEOF && r.n != 0 {
			return bad("remaining-after-eof", "BytesRemaining is not 0 after io.EOF")
		}
		if r.n < 0 {
			return bad("remaining-negative", "BytesRemaining is negative")
		}
		ok := sp.each(st, b, func(e int64) bool { return r.n == max64(0, e-b.c) })
		if !ok {
			return bad("remaining-wrong", fmt.Sprintf("BytesRemaining is %d at position %d", r.n, b.c))
		}
	case "unwrap":
		if sp.hasSource && r.isNil {
			return bad("unwrap-nil", "Unwrap of an open reader-backed body is nil")
		}
		if !sp.hasSource && !r.isNil {
			return bad("unwrap-not-nil", "Unwrap of a body without reader is not nil")
		}
	case "copy":
		if r.ec != eNil || r.isNil {
			return bad("copy-failed", "Copy failed")
		}
		nb := *b
		nb.made = true
		st.b[r.nw] = nb
		st.live++
	case "close":
		last := st.live == 1
		closer := sp.hasSource && (sp.x.p.Src.Closer || sp.x.p.Src.Stat)
		if closer && r.sClose != last {
			if last {
				return bad("last-close-leaves-reader", "the last Close did not close the reader")
			}
			return bad("early-close", "the reader was closed while a copy was still open")
		}
		want := int32(-1)
		if r.sClose {
			want = r.sCloseErr
		}
		if want >= 0 {
			if r.ec != eSrc || r.eid != want {
				return bad("close-error-lost", "the reader's Close failed and Close did not report it")
			}
		} else if r.ec != eNil {
			return bad("close-spurious-error", "Close failed")
		}
		b.open = false
		st.live--
	}
	return nil
}

func (sp *spec) stepClosed(st *fstate, b *bst, r *rec) *badness {
	bad := func(class, why string) *badness {
		t := sp.tags(r.kind, "C05")
		return &badness{class, t, why}
	}
	if r.sCalls > 0 {
		return bad("closed-uses-source", "an operation on a closed body reached the source")
	}
	switch r.kind {
	case "read", "readat", "writeto":
		if r.n != 0 || r.ec != eClosed || len(r.data) > 0 {
			return bad("closed-"+r.kind, "operation on a closed body did not fail with fs.ErrClosed")
		}
	case "seek", "close":
		if r.ec != eClosed {
			return bad("closed-"+r.kind, "operation on a closed body did not fail with fs.ErrClosed")
		}
	case "remaining":
		if r.n != 0 {
			return bad("closed-remaining", "BytesRemaining of a closed body is not 0")
		}
	case "unwrap":
		if !r.isNil {
			return bad("closed-unwrap", "Unwrap of a closed body is not nil")
		}
	case "copy":
		if r.ec != eNil || r.isNil {
			return bad("closed-copy", "Copy of a closed body failed")
		}
		st.b[r.nw] = bst{made: true, sticky: -1, found: -1}
	}
	return nil
}

// errOK says whether reporting source error r.eid is justified.
func (sp *spec) errOK(b *bst, r *rec, pos int64) bool {
	if sp.positional {
		if r.eid >= 0 && r.eid < 64 && r.sErrs&(1<<uint(r.eid)) != 0 {
			return true
		}
		return b.sticky >= 0 && r.eid == b.sticky && r.n == 0
	}
	return sp.termErr >= 0 && r.eid == sp.termErr && sp.termSeq < r.ret && pos == sp.termPos
}

func (sp *spec) stepRead(st *fstate, b *bst, r *rec) *badness {
	bad := func(class, why string, more ...string) *badness {
		return &badness{class, sp.tags("read", more...), why}
	}
	if r.n > 0 {
		if b.atEOF {
			return bad("data-after-eof", "Read delivered data after io.EOF")
		}
		if sp.declared >= 0 && r.n > sp.declared-b.c {
			return bad("read-beyond-declared", "Read delivered bytes beyond the declared length", "C11")
		}
		if r.n > sp.dlen-b.c || !sp.same(r.data, b.c) {
			return bad("wrong-bytes", fmt.Sprintf("Read at position %d delivered other bytes than the source's%s", b.c, sp.where(r.data)))
		}
		if !sp.positional && sp.termErr >= 0 && r.n > sp.termPos-b.c {
			return bad("data-after-failure", "Read delivered bytes from beyond a stream failure", "C03")
		}
	}
	pos := b.c + r.n
	switch r.ec {
	case eNil:
		if r.n == 0 && r.want > 0 && !r.sZero {
			if b.atEOF {
				return bad("eof-not-kept", "Read after io.EOF returned (0, nil)")
			}
			return bad("no-progress", "Read returned (0, nil) although the source delivered something")
		}
	case eEOF:
		if !sp.eofOK(r, pos) {
			c := []string{}
			if sp.flags["srcerr"] {
				c = append(c, "C03")
			}
			return bad("premature-eof", fmt.Sprintf("io.EOF at position %d, the data goes on to %d", pos, sp.trueEnd()), c...)
		}
		b.atEOF = true
		if b.found < 0 || pos < b.found {
			b.found = pos
		}
		st.reveal(pos)
	case eSrc:
		if b.atEOF {
			return bad("eof-not-kept", "Read after io.EOF returned another error")
		}
		if !sp.errOK(b, r, pos) {
			return bad("unjustified-error", fmt.Sprintf("Read at position %d reported a source error that it did not meet", b.c), "C03")
		}
		b.sticky = r.eid
		b.failed = true
	default:
		return bad("read-error", "Read failed with an error of its own", "C03")
	}
	b.c = pos
	return nil
}

func (st *fstate) reveal(pos int64) {
	for i := int32(0); i < st.nend; i++ {
		if st.ends[i] == pos {
			return
		}
	}
	if int(st.nend) < len(st.ends) {
		st.ends[st.nend] = pos
		st.nend++
		return
	}
	st.over = true
}

func (sp *spec) trueEnd() int64 {
	if sp.positional || sp.declared >= 0 {
		return sp.endAt()
	}
	return sp.dlen
}

func (sp *spec) where(data []byte) string {
	if len(data) >= 4 {
		if i := bytes.Index(sp.x.data, data); i >= 0 {
			return fmt.Sprintf(" (these are at %d)", i)
		}
	}
	return ""
}

func (sp *spec) stepReadAt(st *fstate, b *bst, r *rec) *badness {
	bad := func(class, why string, more ...string) *badness {
		return &badness{class, sp.tags("readat", more...), why}
	}
	if r.off < 0 {
		if r.n != 0 || r.ec == eNil && r.want > 0 {
			return bad("readat-negative", "ReadAt accepted a negative offset")
		}
		return nil
	}
	if r.n > 0 {
		if r.off > sp.dlen || r.n > sp.dlen-r.off || !sp.same(r.data, r.off) {
			return bad("readat-wrong-bytes", "ReadAt delivered other bytes than the source's"+sp.where(r.data))
		}
		if sp.declared >= 0 && r.off+r.n > sp.declared {
			return bad("readat-beyond-declared", "ReadAt delivered bytes beyond the declared length", "C11")
		}
	}
	switch r.ec {
	case eNil:
		if r.n < int64(r.want) {
			return bad("readat-short", "ReadAt returned fewer bytes than asked for and no error")
		}
	case eEOF:
		if !sp.eofOK(r, r.off+r.n) && !(r.off+r.n >= sp.endAt() && !r.sCut) {
			return bad("readat-premature-eof", fmt.Sprintf("ReadAt reported io.EOF at %d, the data goes on to %d", r.off+r.n, sp.trueEnd()))
		}
	case eSrc:
		if r.eid < 0 || r.eid >= 64 || r.sErrs&(1<<uint(r.eid)) == 0 {
			return bad("readat-unjustified-error", "ReadAt reported a source error that it did not meet", "C03")
		}
	default:
		return bad("readat-error", "ReadAt failed with an error of its own")
	}
	return nil
}

func (sp *spec) stepSeek(st *fstate, b *bst, r *rec) *badness {
	bad := func(class, why string, more ...string) *badness {
		return &badness{class, sp.tags("seek", more...), why}
	}
	if r.ec == eNil {
		if r.whence < 0 || r.whence > 2 {
			return bad("seek-whence", "Seek accepted an unknown whence")
		}
		ok := false
		neg := true
		sp.each(st, b, func(e int64) bool {
			var bases [2]int64
			switch r.whence {
			case 0:
				bases = [2]int64{0, 0}
			case 1:
				bases = [2]int64{b.c, min64(b.c, e)}
			case 2:
				bases = [2]int64{e, e}
			}
			for _, base := range bases {
				t, over := addOver(base, r.off)
				if over {
					t = math.MaxInt64
				} else if t < 0 {
					continue
				}
				neg = false
				if r.n == min64(t, e) {
					ok = true
					return true
				}
			}
			return false
		})
		if !ok {
			if neg {
				return bad("seek-negative", "Seek accepted a target before the start")
			}
			return bad("seek-position", fmt.Sprintf("Seek from position %d returned %d", b.c, r.n))
		}
		b.c = r.n
		b.atEOF = false
		b.sticky = -1
		return nil
	}
	if r.ec == eSrc && r.eid >= 0 && r.eid < 64 && r.sErrs&(1<<uint(r.eid)) != 0 {
		return nil
	}
	if r.ec != eOther {
		return bad("seek-error", "Seek failed in an unexpected way")
	}
	if r.whence < 0 || r.whence > 2 {
		return nil
	}
	// An error is right if some justified reading has a negative target (or
	// one that does not fit).
	ok := sp.each(st, b, func(e int64) bool {
		var bases [2]int64
		switch r.whence {
		case 1:
			bases = [2]int64{b.c, min64(b.c, e)}
		case 2:
			bases = [2]int64{e, e}
		}
		for _, base := range bases {
			t, over := addOver(base, r.off)
			if over || t < 0 {
				return true
			}
		}
		return false
	})
	if !ok {
		return bad("seek-refused", "Seek refused a valid target")
	}
	return nil
}

func addOver(a, b int64) (int64, bool) {
	c := a + b
	return c, b > 0 && a > 0 && c < 0
}

func (sp *spec) stepWriteTo(st *fstate, b *bst, r *rec) *badness {
	bad := func(class, why string, more ...string) *badness {
		return &badness{class, sp.tags("writeto", more...), why}
	}
	if r.n != int64(len(r.data)) {
		return bad("writeto-count", fmt.Sprintf("WriteTo returned %d, the writer accepted %d", r.n, len(r.data)))
	}
	if r.n > sp.dlen-b.c || !sp.same(r.data, b.c) {
		return bad("writeto-wrong-bytes", "WriteTo wrote other bytes than the remaining ones")
	}
	pos := b.c + r.n
	all := sp.eofOK(r, pos)
	switch r.ec {
	case eNil:
		if !all || r.werr {
			return bad("writeto-incomplete", "WriteTo returned nil before all bytes were accepted")
		}
	case eWriter, eShort:
		if !r.werr {
			return bad("writeto-error", "WriteTo reported a failure of a writer that accepted everything")
		}
	case eSrc:
		if !sp.errOK(b, r, pos) {
			return bad("writeto-error", "WriteTo reported a source error that it did not meet")
		}
	default:
		return bad("writeto-error", "WriteTo failed with "+errName[r.ec])
	}
	b.c = pos
	if r.ec == eNil {
		st.reveal(pos)
	}
	return nil
}

type memoKey struct {
	prog [10]uint16
	st   fstate
}

// linearize looks for an order of all operations, consistent with real time
// and with what each task did, that the model allows.
func (x *bodyRun) linearize(conc bool) {
	sp := x.newSpec(conc)
	var seqs [][]*rec
	total := 0
	for t := range x.recs {
		if len(x.recs[t]) > 0 {
			seqs = append(seqs, x.recs[t])
			total += len(x.recs[t])
		}
	}
	if len(seqs) > 10 {
		x.o.mark("too many tasks for the checker")
		return
	}
	var st fstate
	st.b[0] = bst{made: true, open: x.p.Src.Kind != "closed", sticky: -1, found: -1}
	for i := 1; i < maxSlots; i++ {
		st.b[i].sticky, st.b[i].found = -1, -1
	}
	if st.b[0].open {
		st.live = 1
	}
	memo := map[memoKey]bool{}
	nodes := 0
	best := -1
	var bestBad *badness
	var bestRec *rec
	var bestSt fstate
	path := make([]*rec, 0, total)
	var bestPath []*rec
	var dfs func(prog [10]uint16, st *fstate, done int) bool
	dfs = func(prog [10]uint16, st *fstate, done int) bool {
		for {
			if done == total {
				return true
			}
			nodes++
			if nodes > 300000 {
				return true
			}
			// Operations that may come next.
			var cand [10]int
			n := 0
			minRet := int64(math.MaxInt64)
			for t := range seqs {
				if int(prog[t]) < len(seqs[t]) {
					if r := seqs[t][prog[t]]; r.ret < minRet {
						minRet = r.ret
					}
				}
			}
			for t := range seqs {
				if int(prog[t]) < len(seqs[t]) {
					if r := seqs[t][prog[t]]; r.call <= minRet {
						i := n
						for i > 0 && seqs[cand[i-1]][prog[cand[i-1]]].ret > r.ret {
							cand[i] = cand[i-1]
							i--
						}
						cand[i] = t
						n++
					}
				}
			}
			if n == 1 {
				r := seqs[cand[0]][prog[cand[0]]]
				old := *st
				if bad := sp.step(st, r); bad != nil {
					if done > best {
						best, bestBad, bestRec, bestSt = done, bad, r, old
						bestPath = append(bestPath[:0], path...)
					}
					return false
				}
				path = append(path, r)
				prog[cand[0]]++
				done++
				continue
			}
			key := memoKey{prog, *st}
			if memo[key] {
				return false
			}
			mark := len(path)
			for i := 0; i < n; i++ {
				r := seqs[cand[i]][prog[cand[i]]]
				st2 := *st
				if bad := sp.step(&st2, r); bad != nil {
					if done > best {
						best, bestBad, bestRec, bestSt = done, bad, r, *st
						bestPath = append(bestPath[:0], path...)
					}
					continue
				}
				path = append(path, r)
				p2 := prog
				p2[cand[i]]++
				if dfs(p2, &st2, done+1) {
					return true
				}
				path = path[:mark]
			}
			memo[key] = true
			return false
		}
	}
	if dfs([10]uint16{}, &st, 0) {
		if nodes > 300000 {
			x.o.mark("checker gave up")
		}
		for _, b := range st.b {
			if b.found >= 0 {
				x.o.mark("end of data reached")
				break
			}
		}
		return
	}
	class := bestBad.class
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s. %s. No order of the operations explains the results; the furthest attempt (%d of %d operations) stops there.", bestBad.why, bestRec, best, total)
	b := bestSt.b[bestRec.slot]
	fmt.Fprintf(&sb, " Model before it: body %d open=%v position=%d eof=%v; %d open bodies.", bestRec.slot, b.open, b.c, b.atEOF, bestSt.live)
	fmt.Fprintf(&sb, " Source: %s length %d known %d.", x.capsMark(), x.dlen, x.declared)
	k := len(bestPath) - 8
	if k < 0 {
		k = 0
	}
	for _, r := range bestPath[k:] {
		fmt.Fprintf(&sb, " | %s", r)
	}
	tags := bestBad.tags
	if b.failed {
		tags = append(tags, "C03")
	}
	x.o.fail(class, tags, "%s", sb.String())
}
