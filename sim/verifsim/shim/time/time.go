// Package time is the simulated counterpart of the standard package: its clocks are the
// simulator's, the monotonic reading is separate from the wall clock, which may jump.
package time

import (
	real "time"

	"verifsim/vsim"
)

// Time is an instant with an optional simulated monotonic reading.
type Time struct {
	w    real.Time
	mono int64 // monotonic reading + 1, or 0
}

// maybeJump lets the wall clock jump, forwards or backwards.
func maybeJump() {
	if d := vsim.Draw(vsim.DrawClock, 7); d != 0 {
		vsim.JumpWall([]int64{int64(real.Hour), -int64(real.Hour), int64(real.Second), -int64(real.Second), 1 << 55, -(1 << 55)}[d-1])
	}
}

// Now is the simulated current time.
func Now() Time {
	maybeJump()
	return Time{w: real.Unix(0, vsim.Wall()), mono: vsim.Now() + 1}
}

func wrap(t real.Time) Time { return Time{w: t} }

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return wrap(real.Date(year, month, day, hour, min, sec, nsec, loc))
}
func Unix(sec, nsec int64) Time { return wrap(real.Unix(sec, nsec)) }
func UnixMilli(ms int64) Time   { return wrap(real.UnixMilli(ms)) }
func UnixMicro(us int64) Time   { return wrap(real.UnixMicro(us)) }
func Parse(layout, value string) (Time, error) {
	t, err := real.Parse(layout, value)
	return wrap(t), err
}
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	t, err := real.ParseInLocation(layout, value, loc)
	return wrap(t), err
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func (t Time) Sub(u Time) Duration {
	if t.mono != 0 && u.mono != 0 {
		return Duration(t.mono - u.mono)
	}
	return t.w.Sub(u.w)
}
func (t Time) Add(d Duration) Time {
	r := Time{w: t.w.Add(d)}
	if t.mono != 0 {
		r.mono = t.mono + int64(d)
		if r.mono == 0 {
			r.mono = -1
		}
	}
	return r
}
func (t Time) After(u Time) bool {
	if t.mono != 0 && u.mono != 0 {
		return t.mono > u.mono
	}
	return t.w.After(u.w)
}
func (t Time) Before(u Time) bool {
	if t.mono != 0 && u.mono != 0 {
		return t.mono < u.mono
	}
	return t.w.Before(u.w)
}
func (t Time) Compare(u Time) int {
	if t.Before(u) {
		return -1
	}
	if t.After(u) {
		return 1
	}
	return 0
}
func (t Time) Equal(u Time) bool {
	if t.mono != 0 && u.mono != 0 {
		return t.mono == u.mono
	}
	return t.w.Equal(u.w)
}
func (t Time) AddDate(y, m, d int) Time               { return wrap(t.w.AddDate(y, m, d)) }
func (t Time) Round(d Duration) Time                  { return wrap(t.w.Round(d)) }
func (t Time) Truncate(d Duration) Time               { return wrap(t.w.Truncate(d)) }
func (t Time) UTC() Time                              { return Time{t.w.UTC(), t.mono} }
func (t Time) Local() Time                            { return Time{t.w.Local(), t.mono} }
func (t Time) In(l *Location) Time                    { return Time{t.w.In(l), t.mono} }
func (t Time) Location() *Location                    { return t.w.Location() }
func (t Time) Zone() (string, int)                    { return t.w.Zone() }
func (t Time) IsZero() bool                           { return t.w.IsZero() }
func (t Time) Unix() int64                            { return t.w.Unix() }
func (t Time) UnixNano() int64                        { return t.w.UnixNano() }
func (t Time) UnixMilli() int64                       { return t.w.UnixMilli() }
func (t Time) UnixMicro() int64                       { return t.w.UnixMicro() }
func (t Time) Format(l string) string                 { return t.w.Format(l) }
func (t Time) AppendFormat(b []byte, l string) []byte { return t.w.AppendFormat(b, l) }
func (t Time) String() string                         { return t.w.String() }
func (t Time) GoString() string                       { return t.w.GoString() }
func (t Time) Date() (int, Month, int)                { return t.w.Date() }
func (t Time) Clock() (int, int, int)                 { return t.w.Clock() }
func (t Time) Year() int                              { return t.w.Year() }
func (t Time) Month() Month                           { return t.w.Month() }
func (t Time) Day() int                               { return t.w.Day() }
func (t Time) Hour() int                              { return t.w.Hour() }
func (t Time) Minute() int                            { return t.w.Minute() }
func (t Time) Second() int                            { return t.w.Second() }
func (t Time) Nanosecond() int                        { return t.w.Nanosecond() }
func (t Time) YearDay() int                           { return t.w.YearDay() }
func (t Time) Weekday() Weekday                       { return t.w.Weekday() }
func (t Time) ISOWeek() (int, int)                    { return t.w.ISOWeek() }
func (t Time) MarshalJSON() ([]byte, error)           { return t.w.MarshalJSON() }
func (t *Time) UnmarshalJSON(b []byte) error          { t.mono = 0; return t.w.UnmarshalJSON(b) }
func (t Time) MarshalText() ([]byte, error)           { return t.w.MarshalText() }
func (t *Time) UnmarshalText(b []byte) error          { t.mono = 0; return t.w.UnmarshalText(b) }

// Sleep lets simulated time pass.
func Sleep(d Duration) { vsim.Sleep(int64(d)) }

// Timer is a simulated timer.
type Timer struct {
	C <-chan Time
	t *vsim.Timer
}

func clockTime() Time { return Time{w: real.Unix(0, vsim.Wall()), mono: vsim.Now() + 1} }

func poke(c chan Time) func() {
	return func() { vsim.TrySend(c, clockTime()) }
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{C: c, t: vsim.NewTimer(int64(d), 0, poke(c))}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: vsim.NewTimer(int64(d), 0, func() { vsim.Spawn(f) })}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool            { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.t.Reset(int64(d), 0) }

// Ticker is a simulated ticker.
type Ticker struct {
	C <-chan Time
	t *vsim.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, t: vsim.NewTimer(int64(d), int64(d), poke(c))}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Reset(int64(d), int64(d)) }
