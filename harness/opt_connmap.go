package zzverif

// Component engine: the set of connections (sync3.ConnMap) against a map: closing, idling and dying
// connections are gone for good, and no other connection is affected by it.

import (
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

func init() {
	engines["connmap"] = func(w *Worker, name string, seed int64) {
		sync3.SpamProtectionInterval = time.Microsecond
		counts, sigs := map[string]int{}, map[uint64]bool{}
		var viols []Violation
		var trace string
		rng := rand.New(rand.NewSource(seed))
		for i := 0; i < 60 && len(viols) == 0; i++ {
			o := &mapSim{rng: rand.New(rand.NewSource(rng.Int63())), counts: counts, sigs: sigs, live: map[sync3.ConnID]*mapConn{}}
			o.run(i == 0)
			viols, trace = o.viols, strings.Join(o.log, "\n")
			if len(w.rep.Samples) < 2 && i == 0 {
				w.rep.Samples = append(w.rep.Samples, "connmap: "+strings.Join(o.log[:min(8, len(o.log))], "; "))
			}
		}
		w.add(name, seed, counts, sigs, viols, nil, func() string { return trace })
	}
}

type mapConn struct {
	cid       sync3.ConnID
	conn      *sync3.Conn
	dead      atomic.Bool
	destroyed atomic.Int32
	mu        sync.Mutex
	published []string
	touched   time.Time
}

func (h *mapConn) OnIncomingRequest(context.Context, sync3.ConnID, *sync3.Request, bool, time.Time) (*sync3.Response, error) {
	return &sync3.Response{}, nil
}
func (h *mapConn) OnUpdate(ctx context.Context, u caches.Update) {}
func (h *mapConn) PublishEventsUpTo(roomID string, nid int64) {
	h.mu.Lock()
	h.published = append(h.published, fmt.Sprintf("%s/%d", roomID, nid))
	h.mu.Unlock()
}
func (h *mapConn) Destroy()                                    { h.destroyed.Add(1) }
func (h *mapConn) Alive() bool                                 { return !h.dead.Load() }
func (h *mapConn) SetCancelCallback(cancel context.CancelFunc) {}

type mapSim struct {
	rng    *rand.Rand
	counts map[string]int
	sigs   map[uint64]bool
	viols  []Violation
	log    []string
	m      *sync3.ConnMap
	live   map[sync3.ConnID]*mapConn
	gone   []*mapConn
	n      int
}

func (o *mapSim) logf(f string, a ...any) { o.log = append(o.log, fmt.Sprintf(f, a...)) }
func (o *mapSim) bad(kind, f string, a ...any) {
	o.viols = append(o.viols, Violation{[]string{"C23", "C17", "C20"}, kind, fmt.Sprintf(f, a...)})
}

func (o *mapSim) cid() sync3.ConnID {
	return sync3.ConnID{UserID: fmt.Sprintf("@u%d", o.rng.Intn(3)), DeviceID: fmt.Sprintf("D%d", o.rng.Intn(2)), CID: []string{"", "x"}[o.rng.Intn(2)]}
}

func (o *mapSim) close(cid sync3.ConnID) {
	if h := o.live[cid]; h != nil {
		delete(o.live, cid)
		o.gone = append(o.gone, h)
	}
}

func (o *mapSim) check() {
	for cid, h := range o.live {
		switch {
		case h.destroyed.Load() > 0:
			o.bad("a connection was shut down which should not be", "%s", cid.String())
		case o.rng.Intn(4) == 0 && o.m.Conn(cid) != h.conn:
			o.bad("a connection is not found any more", "%s", cid.String())
		}
		if len(o.viols) > 0 {
			return
		}
	}
}

func (o *mapSim) step() {
	cid := o.cid()
	users := []string{cid.UserID}
	switch o.rng.Intn(8) {
	case 0, 1, 2:
		h := &mapConn{cid: cid, touched: time.Now()}
		old := o.live[cid]
		o.logf("create %s", cid.String())
		h.conn = o.m.CreateConn(cid, func() {}, func() sync3.ConnHandler { return h })
		o.close(cid)
		o.live[cid] = h
		if old != nil && old.destroyed.Load() == 0 {
			o.bad("a connection which was replaced is not shut down", "%s", cid.String())
		}
	case 3:
		o.logf("close device %s %s", cid.UserID, cid.DeviceID)
		o.m.CloseConnsForDevice(cid.UserID, cid.DeviceID)
		for c := range o.live {
			if c.UserID == cid.UserID && c.DeviceID == cid.DeviceID {
				o.close(c)
				if o.m.Conn(c) != nil {
					o.bad("a connection of a closed device goes on", "%s", c.String())
				}
			}
		}
	case 4:
		if u := o.cid().UserID; u != users[0] && o.rng.Intn(2) == 0 {
			users = append(users, u)
		}
		o.logf("close users %v", users)
		want := 0
		for c := range o.live {
			if c.UserID == users[0] || c.UserID == users[len(users)-1] {
				want++
			}
		}
		if n := o.m.CloseConnsForUsers(users); n < want {
			o.bad("not all connections of the users were closed", "%v: %d, expected %d", users, n, want)
		}
		for c := range o.live {
			if c.UserID == users[0] || c.UserID == users[len(users)-1] {
				o.close(c)
				if o.m.Conn(c) != nil {
					o.bad("a connection of a closed user goes on", "%s", c.String())
				}
			}
		}
	case 5:
		if h := o.live[cid]; h != nil {
			o.logf("dies %s", cid.String())
			h.dead.Store(true)
			if o.m.Conn(cid) != nil {
				o.bad("a connection which missed updates goes on", "%s", cid.String())
			}
			o.close(cid)
			if h.destroyed.Load() == 0 {
				o.bad("a connection which missed updates is not shut down", "%s", cid.String())
			}
		}
	case 6:
		o.n++
		key := fmt.Sprintf("!r/%d", o.n)
		o.logf("clear %s %s", cid.UserID, key)
		o.m.ClearUpdateQueues(cid.UserID, "!r", int64(o.n))
		for c, h := range o.live {
			h.mu.Lock()
			got := len(h.published) > 0 && h.published[len(h.published)-1] == key
			h.mu.Unlock()
			if got != (c.UserID == cid.UserID) {
				o.bad("transaction ids are told to the wrong connections", "%s is told about those of %s: %v", c.String(), cid.UserID, got)
			}
		}
		o.counts["c23_cleared"]++
	case 7:
		if o.rng.Intn(3) == 0 {
			time.Sleep(time.Duration(o.rng.Intn(300)) * time.Microsecond)
		}
	}
	o.counts["c23_mapsteps"]++
	o.check()
	h := fnv.New64a()
	fmt.Fprint(h, "connmap", len(o.live), len(o.gone), cid.UserID)
	o.sigs[h.Sum64()] = true
}

// idle: connections in use stay, the others go.
func (o *mapSim) idle(ttl time.Duration) {
	keep := map[sync3.ConnID]bool{}
	for c, h := range o.live {
		keep[c] = o.rng.Intn(2) == 0
		h.touched = time.Now()
		o.m.Conn(c)
	}
	o.logf("idle, in use: %v", keep)
	for end := time.Now().Add(2*ttl + ttl/2); time.Now().Before(end); time.Sleep(ttl / 40) {
		for c, h := range o.live {
			if !keep[c] {
				continue
			}
			was := h.touched
			got := o.m.Conn(c)
			h.touched = time.Now()
			if h.touched.Sub(was) > ttl/3 {
				o.counts["c23_stalled"]++
				return // (the machine is too busy to tell)
			}
			if got != h.conn || h.destroyed.Load() > 0 {
				o.bad("a connection in use was dropped", "%s", c.String())
				return
			}
		}
	}
	for c := range o.live {
		if !keep[c] {
			if o.m.Conn(c) != nil {
				o.bad("an idle connection goes on", "%s", c.String())
				return
			}
			o.close(c)
			o.counts["c23_idled"]++
		}
	}
}

func (o *mapSim) run(slow bool) {
	ttl := time.Hour
	if slow {
		ttl = 600 * time.Millisecond
	}
	o.m = sync3.NewConnMap(false, ttl)
	defer o.m.Teardown()
	for i := 0; i < 60 && len(o.viols) == 0; i++ {
		if slow {
			// (create some, as long as none of them can have gone)
			h := &mapConn{cid: o.cid(), touched: time.Now()}
			o.close(h.cid)
			h.conn = o.m.CreateConn(h.cid, func() {}, func() sync3.ConnHandler { return h })
			o.live[h.cid] = h
			if i == 9 {
				o.idle(ttl)
				return
			}
			continue
		}
		o.step()
	}
	if len(o.viols) > 0 {
		return
	}
	// whatever was closed is shut down sooner or later
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		left := ""
		for _, h := range o.gone {
			if h.destroyed.Load() == 0 {
				left = h.cid.String()
			}
		}
		if left == "" {
			break
		}
		if time.Now().After(end) {
			o.bad("a closed connection is not shut down", "%s", left)
			return
		}
	}
	o.check()
}
