// The standard context package with deadlines on the replay's virtual clock.

package context

import (
	"context"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type deadlineCtx struct {
	context.Context
	at time.Time
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	e := d.Context.Err()
	if e != nil && context.Cause(d.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return e
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vsched.Now().Add(d))
}
func WithDeadline(p Context, at time.Time) (Context, CancelFunc) {
	c, cancel := context.WithCancelCause(p)
	r := deadlineCtx{c, at}
	d := at.Sub(vsched.Now())
	if d <= 0 {
		cancel(DeadlineExceeded)
		return r, func() {}
	}
	t := vsched.NewVTimer(d, 0, func() { cancel(DeadlineExceeded) })
	return r, func() { t.Stop(); cancel(nil) }
}
func WithTimeoutCause(p Context, d time.Duration, _ error) (Context, CancelFunc) {
	return WithTimeout(p, d)
}
func WithDeadlineCause(p Context, at time.Time, _ error) (Context, CancelFunc) {
	return WithDeadline(p, at)
}
