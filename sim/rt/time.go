package rt

import (
	"time"
	"unsafe"
)

// Layout of time.Time.
type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	baseUnix = 1700000000
	baseMono = int64(1000 * time.Second)

	secondsPerDay  = 86400
	unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * secondsPerDay)
	wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400) * secondsPerDay)
)

// Now is time.Now under the simulated clock: the wall reading follows
// injected clock jumps, the monotonic reading does not.
func Now() time.Time {
	if !Active() && !Dead() {
		return time.Now()
	}
	wall, mono := clock()
	var t time.Time
	r := (*timeRep)(unsafe.Pointer(&t))
	sec := wall/1e9 + unixToInternal - wallToInternal
	nsec := wall % 1e9
	r.wall = 1<<63 | uint64(sec)<<30 | uint64(nsec)
	r.ext = mono
	return t
}

//go:norace
func clock() (int64, int64) {
	s.now += 500 // reading the clock takes time, so that it never stands still
	return baseUnix*1e9 + s.now + s.wallOff, baseMono + s.now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !Active() {
		if !Dead() {
			time.Sleep(d)
		}
		return
	}
	SleepNS(int64(d))
}
