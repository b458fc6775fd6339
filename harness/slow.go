package zzverif

// Clients which do not keep up: far more is going on than a connection's buffer holds, between requests and
// while a request is being answered.

import (
	"context"
	"fmt"
	"time"

	syncv3 "github.com/matrix-org/sliding-sync"
)

var setBufferWait func(time.Duration)

// flooded is what a client must have missed out on: how many events of its rooms were processed completely
// since its last response.
func (s *Sim) flooded(c *Client) (n int) {
	s.hs.With(func() {
		settled := s.hs.lastSettle()
		for _, r := range s.rooms {
			for _, e := range r.Events {
				if e.Pos > c.RespPos && e.Pos <= settled && e.DeliveredTL && !e.DeliveredState && e.StateKey == nil &&
					r.Membership(c.Dev.UserID, e.Pos) == "join" && r.Membership(c.Dev.UserID, c.RespPos) == "join" {
					n++
				}
			}
		}
	})
	return n
}

func (s *Sim) slowRequest(c *Client) {
	if s.prof.MaxPending == 0 || c.Pos == "" {
		c.mustExpire = 0
		return
	}
	c.mustExpire = s.flooded(c)
}

func (s *Sim) slowResult(c *Client, expired bool) {
	n := c.mustExpire
	c.mustExpire = 0
	switch max := s.prof.MaxPending; {
	case max == 0:
	case expired:
		s.Count("c23_refused", 1)
		s.Sig("slow refused", n)
		s.hs.With(func() {
			if d := int(s.hs.pos - c.DrainPos); !c.mayExpire && c.DrainPos > 0 && 2*d+2 < max {
				s.Violate([]string{"C23"}, "a connection which kept up was given up", fmt.Sprintf("client %s: at most %d things happened since it was up to date, the buffer holds %d", c.Name, d, max))
			}
		})
	default:
		s.Sig("slow served", n)
		if n > max {
			s.Violate([]string{"C23"}, "a connection goes on although it has missed updates", fmt.Sprintf("client %s pos %s: %d events of its rooms were pending, the buffer holds %d", c.Name, c.Pos, n, max))
		}
		if n > 0 && n <= max {
			s.Count("c23_caught_up", 1)
		}
	}
}

// Flood: a lot happens, possibly while some clients wait for something to happen.
func (s *Sim) Flood() {
	max := s.prof.MaxPending
	n := pick(s, []int{1, max / 2, max - 1, max, max + 1, max + 1 + s.rng.Intn(max+1), 2*max + 3})
	type pend struct {
		c    *Client
		body []byte
		res  chan HTTPResult
	}
	var waits []pend
	for _, c := range s.clients {
		c := c
		if c.Pos == "" || !s.chance(0.25) {
			continue
		}
		// (a request of a client which is at a loss anyway decides nothing)
		body := c.BuildBody()
		p := pend{c, body, make(chan HTTPResult, 1)}
		tmo := s.rng.Intn(300)
		s.slowRequest(c)
		c.preRequest()
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			defer cancel()
			p.res <- s.proxy.Sync(ctx, c.tok(), c.Pos, tmo, body)
		}()
		waits = append(waits, p)
	}
	s.step("flood of %d", n)
	one := s.chance(0.5)
	r, u := s.joinedRoomUser()
	for i := 0; i < n; {
		s.hs.Do(func() {
			for k := 1 + s.rng.Intn(8); k > 0 && i < n; k, i = k-1, i+1 {
				if !one {
					r, u = s.joinedRoomUser()
				}
				if r == nil {
					i = n
					return
				}
				s.hs.send(r, "m.room.message", nil, u, J{"body": fmt.Sprintf("f%d", s.rng.Int31())}, "", "", "")
			}
		})
		if s.chance(0.7) && !s.Settle() {
			return
		}
	}
	for _, w := range waits {
		if _, err := w.c.finish(w.body, <-w.res, w.c.tok(), time.Now()); err != nil && err != errExpired {
			s.clientErr(w.c, err)
			return
		}
	}
	s.Count("c23_floods", 1)
	if s.chance(0.5) {
		s.Settle()
	}
}

func init() {
	for _, max := range []int{3, 8, 25} {
		max := max
		prof(fmt.Sprintf("slow%d", max), func() *Profile {
			return &Profile{Users: 3, Devices: 2, Rooms: 4, Steps: 40, NoSettle: 0.5, As: []string{"C23"}, MaxPending: max, Conns: 2,
				Env:  []string{"VERIF_BUFFER_WAIT_MS=15"},
				Opts: func(o *syncv3.Opts) { o.MaxPendingEventUpdates = max },
				W: map[string]int{"flood": 10, "msg": 4, "msgbatch": 3, "state": 2, "join": 1, "leave": 1, "sync": 12, "check": 2, "settle": 2,
					"unread": 1, "sub": 1, "ranges": 1, "newconn": 1, "restart": 1, "typing": 1, "receipt": 1, "globalad": 1},
				Lists: func(s *Sim, c *Client) { randListCfg(s, c) }}
		})
	}
}
