package wk

import (
	"bytes"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"verifh/core"
)

// sched decides, at the yield points of the instrumented build, which
// goroutine is held back.
type sched struct {
	spec     *core.Sched
	mu       sync.Mutex
	gid      map[int64]int
	count    []int
	done     []bool
	paused   []bool
	progress atomic.Int64
	stuck    atomic.Int64
	rnd      *rand.Rand
	last     int
	sig      uint64 // of the order in which the execs were seen to switch
}

func newSched(s *core.Sched, n int) *sched {
	if s == nil {
		s = &core.Sched{}
	}
	return &sched{spec: s, gid: map[int64]int{}, count: make([]int, n), done: make([]bool, n), paused: make([]bool, n), rnd: rand.New(rand.NewSource(int64(s.Seed))), last: -1, sig: 14695981039346656037}
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

func (s *sched) enter(i int) {
	s.mu.Lock()
	s.gid[goid()] = i
	s.mu.Unlock()
}

func (s *sched) leave(i int) {
	s.mu.Lock()
	s.done[i] = true
	s.mu.Unlock()
	s.progress.Add(1)
}

func (s *sched) yields() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.count {
		if c > 0 {
			return append([]int(nil), s.count...)
		}
	}
	return nil
}

// earlierHeld tells whether every exec of a lower rank is held back or done.
func (s *sched) earlierHeld(rank int) bool {
	for k := 0; k < rank && k < len(s.spec.At); k++ {
		j := (s.spec.Victim + k) % len(s.done)
		if !s.done[j] && !s.paused[j] {
			return false
		}
	}
	return true
}

func (s *sched) othersIdle(i int) bool {
	for j := range s.done {
		if j != i && !s.done[j] && !s.paused[j] {
			return false
		}
	}
	return true
}

// Yield is called before every statement of package snaps in the yield build.
func Yield(int) {
	s := curYield.Load()
	if s == nil {
		return
	}
	id := goid()
	s.mu.Lock()
	i, ok := s.gid[id]
	if !ok {
		s.mu.Unlock()
		return
	}
	s.count[i]++
	n := s.count[i]
	s.progress.Add(1)
	if s.spec.Mode == "preempt" && n == 1 {
		// the execs to be held back go first, one after the other
		k := (i - s.spec.Victim + len(s.count)) % len(s.count)
		last, idle := s.progress.Load(), 0
		for !s.earlierHeld(k) && idle < 40 {
			s.mu.Unlock()
			time.Sleep(50 * time.Microsecond)
			s.mu.Lock()
			if now := s.progress.Load(); now != last {
				last, idle = now, 0
			} else {
				idle++
			}
		}
	}
	if i != s.last {
		s.last = i
		s.sig = (s.sig ^ uint64(i+1)) * 1099511628211
	}
	s.sig = (s.sig ^ uint64(n)<<8) * 1099511628211
	switch s.spec.Mode {
	case "rand":
		hit := s.spec.Rate > 0 && s.rnd.Intn(s.spec.Rate) == 0
		d := s.rnd.Intn(200)
		s.mu.Unlock()
		if hit {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		return
	case "preempt":
		// At[k] is the pause point of exec Victim+k (mod execs)
		k := (i - s.spec.Victim + len(s.count)) % len(s.count)
		if k >= len(s.spec.At) || s.spec.At[k] != n {
			s.mu.Unlock()
			return
		}
		s.paused[i] = true
		s.mu.Unlock()
		// hold this goroutine back until the others have finished, are held
		// back themselves, or make no progress any more (blocked on a lock)
		last, idle := s.progress.Load(), 0
		for {
			time.Sleep(100 * time.Microsecond)
			s.mu.Lock()
			free := s.othersIdle(i)
			s.mu.Unlock()
			now := s.progress.Load()
			if now != last {
				last, idle = now, 0
				continue
			}
			idle++
			if free && idle >= 1+2*k {
				break
			}
			if idle >= 15+10*k {
				s.stuck.Add(1)
				break
			}
		}
		s.mu.Lock()
		s.paused[i] = false
		s.progress.Add(1)
		s.mu.Unlock()
		return
	}
	s.mu.Unlock()
}
