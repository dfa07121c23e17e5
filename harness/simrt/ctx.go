package simrt

import (
	"context"
	"sync"
	"sync/atomic"
	"time"
)

// Contexts on simulated time.

// Ctx is a context that is cancelled by Cancel or at a simulated time.
type Ctx struct {
	parent   context.Context
	deadline int64 // simulated ns, or -1
	cause    atomic.Value
	mu       sync.Mutex
	done     chan struct{}
	watched  bool
	closed   bool
}

type causeT struct{ err error }

// NewCtx makes one below parent; deadline < 0 means none.
func NewCtx(parent context.Context, deadline int64) *Ctx {
	c := &Ctx{parent: parent, deadline: deadline, done: make(chan struct{})}
	return c
}

func (c *Ctx) Deadline() (time.Time, bool) {
	if d, ok := c.parent.Deadline(); ok {
		if c.deadline < 0 || d.Before(base().Add(time.Duration(c.deadline))) {
			return d, true
		}
	}
	if c.deadline < 0 {
		return time.Time{}, false
	}
	return base().Add(time.Duration(c.deadline)), true
}

func (c *Ctx) Err() error {
	if e, ok := c.cause.Load().(causeT); ok {
		return e.err
	}
	if err := c.parent.Err(); err != nil {
		return err
	}
	if c.deadline >= 0 && now() >= c.deadline {
		return context.DeadlineExceeded
	}
	return nil
}

func (c *Ctx) Value(k any) any { return c.parent.Value(k) }

func (c *Ctx) finish() {
	c.mu.Lock()
	if !c.closed {
		c.closed = true
		BlockPoll()
		close(c.done)
	}
	c.mu.Unlock()
}

// Done starts a task, at the first call, that closes the channel in time.
func (c *Ctx) Done() <-chan struct{} {
	c.mu.Lock()
	start := !c.watched && !c.closed && isActive()
	c.watched = c.watched || start
	c.mu.Unlock()
	if c.Err() != nil {
		c.finish()
	} else if start {
		Go(func() {
			for c.Err() == nil {
				if !WaitFor(c.deadline, func() bool { return c.Err() != nil || allOthersDone() }) && c.deadline < 0 {
					return
				}
				if allOthersDone() {
					return
				}
			}
			c.finish()
		})
	}
	return c.done
}

// Cancel cancels the context.
func (c *Ctx) Cancel() {
	if c.Err() == nil {
		c.cause.Store(causeT{context.Canceled})
	}
	c.mu.Lock()
	w := c.watched
	c.mu.Unlock()
	if w {
		c.finish()
	}
}

// allOthersDone reports whether only watchers of contexts are left.
//
//go:norace
func allOthersDone() bool {
	for i := 0; i < nroots; i++ {
		if state[i] != stDone && state[i] != stFree {
			return false
		}
	}
	return true
}

func base() time.Time {
	return epoch.AddDate(0, 0, 37*prof()).Add(time.Duration(prof()) * 7919 * time.Millisecond)
}

// What the code under test gets for functions of package context.

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := NewCtx(parent, -1)
	return c, c.Cancel
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	at := int64(d.Sub(base()))
	if at < 0 {
		at = 0
	}
	c := NewCtx(parent, at)
	return c, c.Cancel
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

// After is time.After on simulated time.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	if !isActive() {
		ch <- Now()
		return ch
	}
	at := now() + int64(d)
	Go(func() {
		WaitFor(at, allOthersDone)
		BlockPoll()
		ch <- Now()
	})
	return ch
}

// AfterFunc-like timers and tickers of package time stay real.

// At converts a time of the simulated clock to nanoseconds of the run.
func At(t time.Time) int64 { return int64(t.Sub(base())) }
