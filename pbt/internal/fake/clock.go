// Package fake has small in-process servers that speak the protocols of
// Redis, memcached and MongoDB over the loopback interface, with a clock the
// harness can advance and faults it can inject.
package fake

import (
	"sync"
	"time"
)

// Clock is real time plus what the harness has added.
type Clock struct {
	mu  sync.Mutex
	off time.Duration
}

// Now is the time the servers go by.
func (c *Clock) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return time.Now().Add(c.off)
}

// Advance moves the clock forward.
func (c *Clock) Advance(d time.Duration) {
	c.mu.Lock()
	c.off += d
	c.mu.Unlock()
}

// Reset goes back to real time.
func (c *Clock) Reset() {
	c.mu.Lock()
	c.off = 0
	c.mu.Unlock()
}

// Fault is how one command goes wrong.
type Fault int

const (
	None      Fault = iota
	ErrBefore       // an error reply, nothing was done
	ErrAfter        // an error reply although it was done
	CutBefore       // the connection breaks, nothing was done
	CutAfter        // the connection breaks after it was done
)

func (f Fault) String() string {
	return [...]string{"none", "error", "error-after-effect", "cut", "cut-after-effect"}[f]
}

// Faults decides which commands fail; commands are counted from 0.
type Faults struct {
	mu    sync.Mutex
	plan  map[int]Fault
	n     int
	fired []Fault
	log   []string
}

// Plan clears the counters and sets which of the next commands fail.
func (f *Faults) Plan(p map[int]Fault) {
	f.mu.Lock()
	f.plan, f.n, f.fired, f.log = p, 0, nil, nil
	f.mu.Unlock()
}

// Fired returns the faults that happened since Plan.
func (f *Faults) Fired() []Fault {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Fault(nil), f.fired...)
}

// Log returns the commands since Plan.
func (f *Faults) Log() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string(nil), f.log...)
}

func (f *Faults) next(cmd string) Fault {
	f.mu.Lock()
	defer f.mu.Unlock()
	x := f.plan[f.n]
	f.n++
	if x != None {
		f.fired = append(f.fired, x)
	}
	f.log = append(f.log, cmd)
	return x
}
