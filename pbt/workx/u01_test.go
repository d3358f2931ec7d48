package workx

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wujiu2020/strip/utils"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// task is one planned task.
type task struct {
	Kind  string // plain, ok, fail, close, meet
	Delay int    // 0 none, 1 yield, 2 some microseconds
	sub   *task  // submitted from inside, if any

	called, returned    int64 // RunTask
	started, finished   int64
	runs                int64
	err                 error
	closeFrom, closedAt int64 // Close called and returned inside the task
}

func (t *task) String() string {
	s := fmt.Sprintf("%s%d", t.Kind, t.Delay)
	if t.sub != nil {
		s += "+" + t.sub.String()
	}
	return s
}

type wait struct {
	called, returned int64
	err              error
}

type pool struct {
	w          *utils.Worker
	limit      int
	clock      int64
	run, peak  int64
	mu         sync.Mutex
	waits      []wait
	closes     [][2]int64
	meet       int64 // tasks that wait for each other
	met        int64
	metC       chan struct{}
	meetBroken int64
}

func (p *pool) now() int64 { return atomic.AddInt64(&p.clock, 1) }

func linger(d int) {
	switch d {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(20 * time.Microsecond)
	case 3:
		time.Sleep(300 * time.Microsecond)
	}
}

func (p *pool) submit(t *task) {
	body := func() error {
		if t.sub != nil {
			p.submit(t.sub)
		}
		n := atomic.AddInt64(&p.run, 1)
		for {
			o := atomic.LoadInt64(&p.peak)
			if n <= o || atomic.CompareAndSwapInt64(&p.peak, o, n) {
				break
			}
		}
		atomic.AddInt64(&t.runs, 1)
		atomic.StoreInt64(&t.started, p.now())
		linger(t.Delay)
		switch t.Kind {
		case "close":
			p.close(t)
		case "meet":
			if atomic.AddInt64(&p.met, 1) == p.meet {
				close(p.metC)
			}
			<-p.metC
		}
		atomic.AddInt64(&p.run, -1)
		atomic.StoreInt64(&t.finished, p.now())
		return t.err
	}
	var f interface{} = func() { body() }
	if t.Kind == "ok" || t.Kind == "fail" || t.Kind == "close" && t.Delay == 1 {
		f = func() error { return body() }
	}
	c := p.now()
	atomic.StoreInt64(&t.called, c)
	p.w.RunTask(f)
	atomic.StoreInt64(&t.returned, p.now())
}

func (p *pool) close(t *task) {
	a := p.now()
	p.w.Close()
	b := p.now()
	p.mu.Lock()
	p.closes = append(p.closes, [2]int64{a, b})
	p.mu.Unlock()
}

func (p *pool) wait() error {
	a := p.now()
	err := p.w.Wait()
	b := p.now()
	p.mu.Lock()
	p.waits = append(p.waits, wait{a, b, err})
	p.mu.Unlock()
	return err
}

func (t *task) each(f func(*task)) {
	for ; t != nil; t = t.sub {
		f(t)
	}
}

func TestU01(t *testing.T) {
	h.Check(t, h.Spec{ID: "U01", Quick: 4000, Thorough: 150000,
		Rule: "limit 1-5, 1-3 waves of tasks (plain, returning, failing, closing the pool, waiting for each other up to the limit, submitting others) by 1-4 goroutines, with other goroutines waiting and closing meanwhile, each wave ended by a wait; under the race detector. Non-trivial: more tasks than the limit or a close or failure among other tasks.",
	}, func(c *h.C) {
		p := &pool{limit: rapid.IntRange(1, 5).Draw(c.T, "limit"), metC: make(chan struct{})}
		p.w = utils.NewWorker(p.limit)
		waves := rapid.IntRange(1, 3).Draw(c.T, "waves")
		plan := ""
		type wave struct {
			lists   [][]*task
			waiters []int // delay before
			closer  int   // -1 none
			order   int
		}
		var all []wave
		total, fails, closes, errN := 0, 0, 0, 0
		meetWave := -1
		if h.Pct(c.T, 20, "meet") {
			meetWave = 0
		}
		calm := h.Pct(c.T, 40, "calm") // no failures nor closes
		for i := 0; i < waves; i++ {
			w := wave{closer: -1}
			for s := rapid.IntRange(1, 4).Draw(c.T, "submitters"); s > 0; s-- {
				var l []*task
				for n := rapid.IntRange(0, 8).Draw(c.T, "tasks"); n > 0; n-- {
					kinds := []string{"plain", "plain", "ok", "ok", "fail", "close"}
					if calm || i == meetWave {
						kinds = kinds[:4]
					} else if h.Pct(c.T, 70, "harmless") {
						kinds = kinds[:4]
					}
					tk := &task{Kind: rapid.SampledFrom(kinds).Draw(c.T, "kind"), Delay: h.Pick(c.T, "delay", 0, 0, 1, 1, 2, 3)}
					if tk.Kind == "fail" {
						errN++
						tk.err = fmt.Errorf("failure %d", errN)
						fails++
					}
					if tk.Kind == "close" {
						closes++
					}
					l = append(l, tk)
					total++
				}
				w.lists = append(w.lists, l)
			}
			if i == meetWave {
				// exactly as many as may run at once, submitted by one goroutine
				p.meet = int64(p.limit)
				var l []*task
				for k := 0; k < p.limit; k++ {
					l = append(l, &task{Kind: "meet"})
					total++
				}
				w.lists = append(w.lists[:0:0], l)
			}
			for n := h.Pick(c.T, "waiters", 0, 0, 1, 2); n > 0; n-- {
				w.waiters = append(w.waiters, rapid.IntRange(0, 3).Draw(c.T, "wait delay"))
			}
			if !calm && i != meetWave && h.Pct(c.T, 25, "closer") {
				w.closer = rapid.IntRange(0, 3).Draw(c.T, "close delay")
				closes++
			}
			all = append(all, w)
			plan += fmt.Sprintf("wave %v waiters %v closer %d; ", w.lists, w.waiters, w.closer)
		}
		// submitting from inside never blocks when there is room for all
		if h.Pct(c.T, 25, "nested") {
			n := 0
			for _, w := range all {
				for _, l := range w.lists {
					for _, tk := range l {
						n++
						if tk.Kind != "meet" && h.Pct(c.T, 40, "inner") {
							n++
							tk.sub = &task{Kind: h.Pick(c.T, "inner kind", "plain", "ok"), Delay: 1}
						}
					}
				}
			}
			if meetWave < 0 {
				p.limit = n + 1
				p.w = utils.NewWorker(p.limit)
				plan += "with inner tasks"
			} else {
				for _, w := range all {
					for _, l := range w.lists {
						for _, tk := range l {
							tk.sub = nil
						}
					}
				}
			}
		}
		c.Label("closes %v failures %v", closes > 0, fails > 0)
		if total > p.limit || closes+fails > 0 && total > 1 {
			c.NonTrivial(fmt.Sprintf("limit %d %s", p.limit, plan))
		}

		type span struct{ from, to int } // waits of a wave
		h.Within(fmt.Sprintf("worker of limit %d, %s", p.limit, plan), func() {
			for _, w := range all {
				var subs, others sync.WaitGroup
				for _, l := range w.lists {
					subs.Add(1)
					go func(l []*task) {
						defer subs.Done()
						for _, tk := range l {
							p.submit(tk)
						}
					}(l)
				}
				for _, d := range w.waiters {
					others.Add(1)
					go func(d int) { defer others.Done(); linger(d); p.wait() }(d)
				}
				if w.closer >= 0 {
					others.Add(1)
					go func(d int) { defer others.Done(); linger(d); p.close(nil) }(w.closer)
				}
				subs.Wait()
				p.wait()
				others.Wait()
				p.wait()
			}
		})

		desc := fmt.Sprintf("worker of limit %d, %s", p.limit, plan)
		if p.peak > int64(p.limit) {
			c.Fatalf("%s: %d tasks ran at once", desc, p.peak)
		}
		if p.run != 0 {
			c.Fatalf("%s: %d tasks still run after the last wait", desc, p.run)
		}
		// when acceptance surely had not ended and surely had
		const never = int64(1) << 60
		mayEnd, hasEnded := never, never
		for _, cl := range p.closes {
			mayEnd = min(mayEnd, cl[0])
			hasEnded = min(hasEnded, cl[1])
		}
		for _, w := range p.waits {
			if w.err != nil {
				hasEnded = min(hasEnded, w.returned)
			}
		}
		var tasks []*task
		errs := map[error]*task{}
		for _, w := range all {
			for _, l := range w.lists {
				for _, tk := range l {
					tk.each(func(tk *task) {
						tasks = append(tasks, tk)
						if tk.err != nil {
							errs[tk.err] = tk
							if tk.runs > 0 {
								mayEnd = min(mayEnd, tk.started)
							}
						}
					})
				}
			}
		}
		ran := 0
		for i, tk := range tasks {
			runs := atomic.LoadInt64(&tk.runs)
			ran += int(runs)
			if runs > 1 {
				c.Fatalf("%s: task %d (%v) ran %d times", desc, i, tk, runs)
			}
			if tk.called == 0 {
				continue // inner task of a task that was not accepted
			}
			if runs == 0 && tk.returned < mayEnd {
				c.Fatalf("%s: task %d (%v) was accepted and did not run", desc, i, tk)
			}
			if runs == 1 && tk.called > hasEnded {
				c.Fatalf("%s: task %d (%v) ran, it was submitted after the pool was closed", desc, i, tk)
			}
			if runs == 0 {
				c.Label("refused")
				continue
			}
			for _, w := range p.waits {
				if hasEnded < w.called && tk.finished > w.returned {
					c.Fatalf("%s: task %d (%v) ended after a wait that began once no task was accepted any more", desc, i, tk)
				}
				if tk.returned < w.called && tk.finished > w.returned {
					c.Fatalf("%s: a wait returned before task %d (%v), accepted before it, had finished", desc, i, tk)
				}
			}
		}
		failed := false
		for e, tk := range errs {
			if tk.runs > 0 {
				failed = true
				_ = e
			}
		}
		reported := false
		for _, w := range p.waits {
			if w.err == nil {
				continue
			}
			reported = true
			tk := errs[w.err]
			if tk == nil || tk.runs == 0 || tk.started > w.returned {
				c.Fatalf("%s: Wait returned %v, which no finished task returned", desc, w.err)
			}
		}
		if failed && !reported {
			c.Fatalf("%s: a task failed and no wait reported it", desc)
		}
		// without other waiters every failure is known to the next wait
		if failed && len(p.waits) == 2*len(all) {
			for _, tk := range errs {
				if tk.runs == 0 {
					continue
				}
				ok := false
				for _, w := range p.waits {
					if w.err != nil && w.returned > tk.finished {
						ok = true
					}
				}
				first := -1
				for i, w := range p.waits {
					if w.called > tk.returned {
						first = i
						break
					}
				}
				if first >= 0 && p.waits[first].err == nil && !ok {
					c.Fatalf("%s: %v failed and the wait after it reported nothing", desc, tk)
				}
			}
		}
		// nothing is accepted once everything has ended
		if len(p.closes) > 0 {
			late := &task{Kind: "ok"}
			h.Within("RunTask after Close", func() { p.submit(late); p.wait() })
			if late.runs != 0 {
				c.Fatalf("%s: a task submitted after Close ran", desc)
			}
		}
		if ran == 0 {
			c.Label("nothing ran")
		}
	})
}

// TestU01_held has pools of larger limits filled with tasks that do not end
// before they are told.
func TestU01_held(t *testing.T) {
	h.Check(t, h.Spec{ID: "U01", Quick: 150, Thorough: 3000,
		Rule: "limit 1-200; as many tasks as may run at once are submitted and held, more are submitted while they run and must not start; some are then released one by one, and each lets one other start. Non-trivial: a limit above 5.",
	}, func(c *h.C) {
		limit := h.Pick(c.T, "limit", rapid.IntRange(1, 12).Draw(c.T, "small"), rapid.IntRange(13, 200).Draw(c.T, "large"))
		more := rapid.IntRange(1, 6).Draw(c.T, "more")
		single := rapid.IntRange(0, more).Draw(c.T, "single")
		if limit > 5 {
			c.NonTrivial(fmt.Sprintf("limit %d, %d more, %d single", limit, more, single))
		}
		desc := fmt.Sprintf("worker of limit %d with %d held tasks and %d more", limit, limit, more)
		w := utils.NewWorker(limit)
		gate := make(chan struct{})
		var running, done, ran int64
		peak := int64(0)
		var mu sync.Mutex
		task := func() {
			mu.Lock()
			running++
			ran++
			peak = max(peak, running)
			mu.Unlock()
			<-gate
			mu.Lock()
			running--
			done++
			mu.Unlock()
		}
		look := func() (r, d int64) { mu.Lock(); defer mu.Unlock(); return running, done }
		until := func(what string, ok func() bool) {
			h.Within(desc+": "+what, func() {
				for !ok() {
					time.Sleep(50 * time.Microsecond)
				}
			})
		}
		h.Within(desc+": submitting as many as may run", func() {
			for i := 0; i < limit; i++ {
				w.RunTask(task)
			}
		})
		until("all of them start", func() bool { r, _ := look(); return r == int64(limit) })
		var subs sync.WaitGroup
		subs.Add(1)
		go func() {
			defer subs.Done()
			for i := 0; i < more; i++ {
				w.RunTask(task)
			}
		}()
		time.Sleep(200 * time.Microsecond)
		for i := 0; i < single; i++ {
			gate <- struct{}{}
			until("one ends and another starts", func() bool { r, d := look(); return d == int64(i+1) && r == int64(limit) })
		}
		if more > single && h.Pct(c.T, 40, "closed while one waits for its turn") {
			// the one that waits may run or not, but not after that wait
			w.Close()
			at, after := make(chan int64), int64(0)
			go func() { time.Sleep(100 * time.Microsecond); close(gate) }()
			go func() {
				w.Wait()
				mu.Lock()
				n := ran
				mu.Unlock()
				at <- n
			}()
			h.Within(desc+": closed, the end", func() { after = <-at; subs.Wait(); w.Wait() })
			time.Sleep(200 * time.Microsecond)
			mu.Lock()
			defer mu.Unlock()
			if peak > int64(limit) || running != 0 || ran != after || ran != done {
				c.Fatalf("%s: after Close and Wait %d had run, then %d ran and %d ended, %d at once", desc, after, ran, done, peak)
			}
			if ran < int64(limit+single) {
				c.Fatalf("%s: %d ran before Close", desc, ran)
			}
			return
		}
		close(gate)
		h.Within(desc+": the end", func() { subs.Wait(); w.Wait() })
		mu.Lock()
		defer mu.Unlock()
		if peak > int64(limit) {
			c.Fatalf("%s: %d ran at once", desc, peak)
		}
		if ran != int64(limit+more) || done != ran {
			c.Fatalf("%s: %d ran and %d ended", desc, ran, done)
		}
	})
}
