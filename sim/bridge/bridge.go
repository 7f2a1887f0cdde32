// Package verifbridge exists only in the simulator's build (through an
// overlay): it makes the internal mockreader package reachable.
package verifbridge

import "github.com/chronos-tachyon/morehttp/internal/mockreader"

type (
	MockReader             = mockreader.MockReader
	Expectation            = mockreader.Expectation
	ExpectationFailedError = mockreader.ExpectationFailedError
	Wrapper000             = mockreader.Wrapper000
	Wrapper001             = mockreader.Wrapper001
	Wrapper010             = mockreader.Wrapper010
	Wrapper011             = mockreader.Wrapper011
	Wrapper100             = mockreader.Wrapper100
	Wrapper101             = mockreader.Wrapper101
	Wrapper110             = mockreader.Wrapper110
	Wrapper111             = mockreader.Wrapper111
)

var (
	New          = mockreader.New
	ExpectMark   = mockreader.ExpectMark
	ExpectStat   = mockreader.ExpectStat
	ExpectRead   = mockreader.ExpectRead
	ExpectReadAt = mockreader.ExpectReadAt
	ExpectSeek   = mockreader.ExpectSeek
	ExpectClose  = mockreader.ExpectClose
)
