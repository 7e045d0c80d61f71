// Package time replaces package time inside the simulator: the clock and every
// timer belong to the simulator, everything else is the real package.
package time

import (
	"time"

	"zz.test/sim"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time {
	sim.ClockPoint("time.Now")
	return time.Unix(0, sim.Now()).UTC()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { sim.Sleep(int64(d)) }

func Unix(s, ns int64) Time   { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time { return time.UnixMicro(us) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error) { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }

// Timer is a simulated timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	t  *sim.Timer
	vc sim.VC
}

func (t *Timer) arm(d Duration) {
	s := sim.S
	if s == nil {
		return
	}
	if d < 0 {
		d = 0
	}
	sim.Release(&t.vc)
	t.t = s.AddTimer(s.Clock()+int64(d), func() {
		if t.f != nil {
			s.SpawnBG("timer func", &t.vc, t.f)
			return
		}
		select {
		case t.c <- time.Unix(0, s.Clock()).UTC():
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	sim.Point("time.NewTimer")
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	sim.Point("time.AfterFunc")
	t.arm(d)
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	sim.Point("Timer.Stop")
	if sim.S == nil || t.t == nil {
		return false
	}
	was := sim.S.StopTimer(t.t)
	if t.c != nil {
		select {
		case <-t.c:
			was = true
		default:
		}
	}
	return was
}
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// Ticker is a simulated ticker.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	t  *sim.Timer
	at int64
	d  Duration
}

func (t *Ticker) arm() {
	s := sim.S
	if s == nil {
		return
	}
	t.at += int64(t.d)
	t.t = s.AddTimer(t.at, func() {
		select {
		case t.c <- time.Unix(0, s.Clock()).UTC():
		default:
		}
		if n := (s.Clock() - t.at) / int64(t.d); n > 0 { // missed ticks are dropped
			t.at += n * int64(t.d)
		}
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, at: sim.Now()}
	sim.Point("time.NewTicker")
	t.at = sim.Now()
	t.arm()
	return t
}
func (t *Ticker) Stop() {
	sim.Point("Ticker.Stop")
	if sim.S != nil {
		sim.S.StopTimer(t.t)
	}
}
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.at = sim.Now()
	t.arm()
}
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
