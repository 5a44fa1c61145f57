// Package mctime is a clock under the control of a check: timers run when they are told to.
package mctime

import (
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Timer is a timer set by the code under test.
type Timer struct {
	Owner int
	D     time.Duration
	seq   int
	t     *time.Timer
	f     func()
}

// Clock is one which does not move.
type Clock struct {
	Owner  int
	timers []*Timer
	seq    int
}

var (
	mu  sync.Mutex
	cur = &Clock{}
	// Base is the time it always is.
	Base = time.Unix(1_700_000_000, 0)
)

// Use makes c the clock of what runs from now on.
func Use(c *Clock) {
	mu.Lock()
	cur = c
	mu.Unlock()
}

var asked atomic.Int64

func Now() time.Time {
	asked.Add(1)
	return Base
}

// Asked tells how often the time was asked for.
func Asked() int64 { return asked.Load() }

// AfterFunc keeps f until it is told to run.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.AfterFunc(time.Hour*24*365, func() {})
	mu.Lock()
	cur.seq++
	cur.timers = append(cur.timers, &Timer{cur.Owner, d, cur.seq, t, f})
	mu.Unlock()
	return t
}

// Fire runs the timers which are set now, those set for an earlier time first.
func (c *Clock) Fire(owner int) int { return c.FireUpTo(owner, time.Hour*24*365) }

// FireUpTo runs those which are set for at most d.
func (c *Clock) FireUpTo(owner int, d time.Duration) int {
	mu.Lock()
	l := append([]*Timer(nil), c.timers...)
	mu.Unlock()
	sort.SliceStable(l, func(i, j int) bool { return l[i].D < l[j].D })
	n := 0
	for _, t := range l {
		if t.Owner == owner && t.D <= d && t.t.Stop() {
			n++
			t.f()
		}
	}
	c.clean()
	return n
}

// clean forgets timers which are stopped.
func (c *Clock) clean() {
	mu.Lock()
	defer mu.Unlock()
	l := c.timers[:0]
	for _, t := range c.timers {
		if t.t.Stop() {
			t.t.Reset(time.Hour * 24 * 365)
			l = append(l, t)
		}
	}
	c.timers = l
}

// Set tells the timers which are set.
func (c *Clock) Set(owner int) []time.Duration {
	c.clean()
	var r []time.Duration
	for _, t := range c.timers {
		if t.Owner == owner {
			r = append(r, t.D)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// Drop stops all timers.
func (c *Clock) Drop() {
	for _, t := range c.timers {
		t.t.Stop()
	}
	c.timers = nil
}
