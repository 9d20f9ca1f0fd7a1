// Package stime replaces package time in the instrumented copy: the clock is
// the simulated one.
package stime

import (
	"time"

	"verif.local/simrt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	Weekday    = time.Weekday
	ParseError = time.ParseError
	Ticker     = time.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

var epoch = time.Date(2023, 1, 17, 12, 0, 0, 0, time.UTC)

func Now() Time                                { return epoch.Add(Duration(simrt.SimNow())) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { simrt.Advance(d); simrt.Yield() }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Unix(s, n int64) Time                     { return time.Unix(s, n).UTC() }
func UnixMilli(n int64) Time                   { return time.UnixMilli(n).UTC() }
func UnixMicro(n int64) Time                   { return time.UnixMicro(n).UTC() }
func FixedZone(n string, off int) *Location    { return time.FixedZone(n, off) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func LoadLocationFromTZData(n string, b []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, b)
}
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}

// What delivers through channels is left to the runtime: a library that uses
// channels is not preempted anyway.
func After(d Duration) <-chan Time { return time.After(d) }
func Tick(d Duration) <-chan Time  { return time.Tick(d) }
func NewTicker(d Duration) *Ticker { return time.NewTicker(d) }

// Timer runs a function as a task of its own when the simulated time has come.
type Timer struct {
	C    <-chan Time
	real *time.Timer
	f    func()
	sim  *simrt.Timer
}

func NewTimer(d Duration) *Timer {
	t := time.NewTimer(d)
	return &Timer{C: t.C, real: t}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{f: f, sim: simrt.At(simrt.SimNow()+int64(d), f)}
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	return t.sim.Cancel()
}

func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	live := t.sim.Cancel()
	t.sim = simrt.At(simrt.SimNow()+int64(d), t.f)
	return live
}
