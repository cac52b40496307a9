// The standard time package on the replay's virtual clock.

package time

import "github.com/hyp3rd/hypercache/internal/zzverif/vsched"

func Now() Time                    { return vsched.Now() }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
func Sleep(d Duration) {
	if d > 0 {
		vsched.Recv(NewTimer(d).C)
	}
}

type Timer struct {
	C <-chan Time
	c chan Time
	t *vsched.VTimer
}
type Ticker struct {
	C <-chan Time
	c chan Time
	t *vsched.VTimer
}

func tick(c chan Time) func() {
	return func() {
		select {
		case c <- Now():
		default:
		}
	}
}
func drain(c chan Time) {
	if c != nil {
		vsched.NewSel().Run(true, vsched.CR((<-chan Time)(c)))
	}
}
func AfterFunc(d Duration, f func()) *Timer { return &Timer{t: vsched.NewVTimer(d, 0, f)} }
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{C: c, c: c, t: vsched.NewVTimer(d, 0, tick(c))}
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, c: c, t: vsched.NewVTimer(d, d, tick(c))}
}
func (t *Timer) Stop() bool            { r := t.t.Stop(); drain(t.c); return r }
func (t *Timer) Reset(d Duration) bool { r := t.t.Reset(d); drain(t.c); return r }
func (t *Ticker) Stop()                { t.t.Stop(); drain(t.c) }
func (t *Ticker) Reset(d Duration)     { t.t.Reset(d); drain(t.c) }
