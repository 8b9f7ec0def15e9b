// Package vtime stands in for time in rewritten sources.
package vtime

import (
	"time"

	"verifharness/vs"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

// UTC and Local.
var (
	UTC   = time.UTC
	Local = time.Local
)

// Base is the moment at which virtual time starts.
var Base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// Manual, if set, is the clock (in nanoseconds after Base) of a driver without a scheduler.
var Manual *int64

// Now is the virtual current time (in the local zone, as time.Now).
func Now() Time {
	if Manual != nil {
		return Base.Add(Duration(*Manual)).In(time.Local)
	}
	if !vs.Active() {
		return time.Now()
	}
	return Base.Add(Duration(vs.NowNS())).In(time.Local)
}

func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Sleep(d Duration)       { vs.SleepNS(int64(d)) }
func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(m int64) Time { return time.UnixMilli(m) }
func UnixMicro(m int64) Time { return time.UnixMicro(m) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error) { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }

func deadline(d Duration) int64 {
	n := vs.NowNS()
	if d < 0 {
		d = 0
	}
	at := n + int64(d)
	if at < n {
		at = 1<<63 - 1
	}
	return at
}

// Timer is a one-shot timer.
type Timer struct {
	C *vs.Chan[Time]
	t *vs.Timer
	f func()
}

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		f := t.f
		t.t = vs.At(deadline(d), func() { vs.SpawnRaw(f) })
		return
	}
	c := t.C
	t.t = vs.At(deadline(d), func() { c.TrySendRaw(Now()) })
}

// NewTimer makes a timer.
func NewTimer(d Duration) *Timer {
	t := &Timer{C: vs.MakeChan[Time](1)}
	t.arm(d)
	return t
}

// AfterFunc runs f later.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After is a channel receiving the time later.
func After(d Duration) *vs.Chan[Time] { return NewTimer(d).C }

// Stop stops the timer; as since Go 1.23, no stale value stays in the channel.
func (t *Timer) Stop() bool {
	if vs.Killing() {
		return false
	}
	vs.Point()
	r := t.t.Stop()
	if t.C != nil && t.C.Drain() {
		r = true
	}
	return r
}

// Reset rearms the timer.
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// Ticker ticks.
type Ticker struct {
	C    *vs.Chan[Time]
	t    *vs.Timer
	d    Duration
	dead bool
}

// NewTicker makes a ticker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vs.MakeChan[Time](1), d: d}
	t.arm(deadline(d))
	return t
}

func (t *Ticker) arm(at int64) {
	t.t = vs.At(at, func() {
		if t.dead {
			return
		}
		t.C.TrySendRaw(Now())
		nx := at + int64(t.d)
		if now := vs.NowNS(); nx <= now {
			nx = at + (now-at)/int64(t.d)*int64(t.d) + int64(t.d)
		}
		t.arm(nx)
	})
}

// Stop stops.
func (t *Ticker) Stop() {
	if vs.Killing() {
		return
	}
	vs.Point()
	t.dead = true
	t.t.Stop()
}

// Reset restarts with a new period.
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.dead = false
	t.d = d
	t.C.Drain()
	t.arm(deadline(d))
}

// Tick is NewTicker(d).C.
func Tick(d Duration) *vs.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// LoadLocationFromTZData is passed through.
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
