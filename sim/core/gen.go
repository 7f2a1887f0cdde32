package core

import "hash/fnv"

// Properties decided by simulation.
var Claimed = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24", "C25", "C26", "C27"}

func propSeed(prop string, seed, idx uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix64(mix64(h.Sum64()^seed*0x9e3779b97f4a7c15) ^ idx*0xd6e8feb86659fd93)
}

// Gen makes the plan of run idx of a property's check.
func Gen(prop string, seed, idx uint64) *Plan {
	r := NewR(propSeed(prop, seed, idx))
	p := &Plan{Prop: prop, Seed: seed, Index: idx}
	switch prop {
	case "C12", "C13", "C16", "C17":
		if prop < "C14" && r.P(10) {
			p.Ad = genAdaptor(r, prop) // served by an Adaptor
			p.Sched = genSched(r, len(p.Ad.Tasks), 200000)
			break
		}
		p.HTTP = genHTTP(r, prop)
		p.Sched = genSched(r, len(p.HTTP.Tasks), 60000)
	case "C14", "C15", "C27":
		p.Wr = genWriter(r, prop)
		p.Sched = genSched(r, wrTasks(p.Wr), 200000)
	case "C18", "C19":
		p.Ad = genAdaptor(r, prop)
		p.Sched = genSched(r, len(p.Ad.Tasks), 200000)
	case "C20":
		p.Pay = genPayload(r, prop)
		p.Sched = genSched(r, len(p.Pay.Tasks), 200000)
	case "C21":
		p.Mock = genMock(r)
		p.Sched = genSched(r, len(p.Mock.Tasks), 60000)
	case "C26":
		p.Left = genLeft(r)
		p.Sched = genSched(r, len(p.Left.Tasks), 400000)
	case "C25":
		genHeld(r, p)
	case "C24":
		p.Flow = genFlow(r)
		p.Sched = genSched(r, len(p.Flow.Tasks), 60000)
	default:
		p.Body = genBody(r, prop)
		n := len(p.Body.Tasks)
		if p.Body.Other != nil {
			n++
		}
		p.Sched = genSched(r, n, 60000)
	}
	if p.big() {
		p.Sched.Steps *= 5
	}
	return p
}

// big says whether p has a source of more than the usual length.
func (p *Plan) big() bool {
	if p.Body != nil && p.Body.Src.Len > 200000 && !p.Body.Src.virtual() {
		return true
	}
	if p.HTTP != nil {
		for i := range p.HTTP.Srcs {
			if p.HTTP.Srcs[i].Len > 100000 {
				return true
			}
		}
	}
	return false
}
