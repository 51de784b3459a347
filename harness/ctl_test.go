package harness

import (
	"bytes"
	"regexp"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// client is a goroutine that makes calls. With gates it stops before every plugin function and callback.
type client struct {
	name string
	jobs chan CallSpec
	goid int64

	// guarded by controller.mu
	state string // idle, running, gated, done
	point string
	hold  chan struct{}
}

type controller struct {
	mu      sync.Mutex
	on      bool
	timers  bool
	byGoid  map[int64]*client
	waiting []*heldTimer
	change  int
}

type heldTimer struct{ ch chan struct{} }

func (c *controller) gate(point string) {
	id := goid()
	c.mu.Lock()
	cl := c.byGoid[id]
	if !c.on {
		c.mu.Unlock()
		return
	}
	if cl == nil {
		if !c.timers || point != "onfree" {
			c.mu.Unlock()
			return
		}
		h := &heldTimer{make(chan struct{})}
		c.waiting = append(c.waiting, h)
		c.mu.Unlock()
		<-h.ch
		return
	}
	ch := make(chan struct{})
	cl.state, cl.point, cl.hold = "gated", point, ch
	c.mu.Unlock()
	<-ch
}

// release lets a gated client continue to its next gate.
func (c *controller) release(cl *client) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if cl.state != "gated" {
		return false
	}
	cl.state = "running"
	close(cl.hold)
	cl.hold = nil
	return true
}

func (c *controller) releaseTimer() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.waiting) == 0 {
		return false
	}
	close(c.waiting[0].ch)
	c.waiting = c.waiting[1:]
	return true
}

func (c *controller) stateOf(cl *client) (string, string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return cl.state, cl.point
}

var rexGo = regexp.MustCompile(`(?m)^goroutine (\d+)[^\[\n]* \[([^\]]*)\]:`)

// waitReasons returns the state of every goroutine as the runtime describes it.
func waitReasons() map[int64]string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[int64]string{}
	for _, s := range rexGo.FindAllSubmatch(buf, -1) {
		id, _ := strconv.ParseInt(string(s[1]), 10, 64)
		r := s[2]
		if i := bytes.IndexByte(r, ','); i >= 0 {
			r = r[:i]
		}
		m[id] = string(r)
	}
	return m
}

func asleep(reason string) bool {
	switch reason {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "chan receive", "chan send",
		"select", "sync.Cond.Wait", "sync.WaitGroup.Wait", "sleep":
		return true
	}
	// e.g. "chan receive (durable)"
	for _, p := range []string{"chan receive", "chan send", "select", "sync.", "sleep"} {
		if len(reason) >= len(p) && reason[:len(p)] == p {
			return true
		}
	}
	return false
}

func nap(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	_ = syscall.Nanosleep(&ts, nil)
}

// settle waits until the client is gated, done or blocked inside the code under test, and says which.
// alone: nobody else can be holding what it waits for, so that being blocked for long means it hangs.
func (c *controller) settle(cl *client, alone bool) string {
	asleepFor := 0
	for i := 0; ; i++ {
		if s, _ := c.stateOf(cl); s != "running" {
			return s
		}
		if i < 200 {
			runtime.Gosched()
			continue
		}
		if i < 400 || alone {
			nap(20 * time.Microsecond)
			if alone && i > 2000 {
				nap(2 * time.Millisecond)
			}
			continue
		}
		nap(300 * time.Microsecond)
		if asleep(waitReasons()[cl.goid]) {
			if asleepFor++; asleepFor >= 3 {
				if s, _ := c.stateOf(cl); s != "running" {
					return s
				}
				return "blocked"
			}
		} else {
			asleepFor = 0
		}
	}
}
