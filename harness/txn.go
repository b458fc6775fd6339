package zzverif

// Transaction ids: own events are held back until the sender's own stream shows the id, and no longer
// than the configured delay. The streams of the sender's devices and of everybody else are let go in
// any order.

import (
	"fmt"
	"time"

	syncv3 "github.com/matrix-org/sliding-sync"
)

func (s *Sim) monitorTxn(c *Client, r *Resp) {
	now := time.Now()
	see := func(rid string, rr RespRoom, raw []byte, live bool) {
		x := parseEv(raw)
		room := s.hs.rooms[rid]
		if room == nil {
			return
		}
		e := room.ByID[x.EventID]
		if e == nil {
			return
		}
		if x.Unsigned.TxnID != nil {
			s.Count("c15_ids", 1)
			if e.TxnToken != c.Dev.Token || e.TxnID != *x.Unsigned.TxnID {
				s.Violate([]string{"C15", "C17"}, "transaction id of another device", fmt.Sprintf("client %s room %s event %s (sender %s, %s): transaction_id %q, sent with %q by %s", c.Name, rid, e.ID, e.Sender, e.Type, *x.Unsigned.TxnID, e.TxnID, e.TxnToken))
			}
			return
		}
		if e.TxnID == "" || e.TxnToken != c.Dev.Token {
			return
		}
		s.Count("c15_without", 1)
		if at, ok := e.ShownTo[c.Dev.Token]; ok && c.ReqIngested >= at {
			s.Violate([]string{"C15"}, "transaction id missing although it was known", fmt.Sprintf("client %s room %s event %s (initial=%v): the device's own stream was at %d, the event is at %d", c.Name, rid, e.ID, rr.Initial, c.ReqIngested, e.Pos))
			return
		}
		if !live || e.StateKey != nil {
			return
		}
		// shown live without the id: only after the delay, or to keep the order
		for _, o := range room.Events[e.Idx+1:] {
			if o.Sender == e.Sender && o.TxnToken != e.TxnToken {
				return // (confirmed by another device of the user)
			}
		}
		if waited := now.Sub(e.SentAt); waited < s.prof.TxnDelay-10*time.Millisecond {
			s.Violate([]string{"C15"}, "own event shown without its transaction id too early", fmt.Sprintf("client %s room %s event %s: %v after it was sent, the delay is %v", c.Name, rid, e.ID, waited, s.prof.TxnDelay))
		}
	}
	s.hs.With(func() {
		for rid, rr := range r.Rooms {
			for i, raw := range rr.Timeline {
				see(rid, rr, raw, !rr.Initial && i >= len(rr.Timeline)-rr.NumLive)
			}
			for _, raw := range rr.RequiredState {
				if x := parseEv(raw); x.Unsigned.TxnID != nil {
					see(rid, rr, raw, false)
				}
			}
		}
		s.Sig("txn", len(r.Rooms), c.ReqIngested >= s.hs.pos)
	})
}

// hold pauses some of the pollers.
func (s *Sim) hold(p float64, must func(d *Dev) bool) {
	s.hs.With(func() {
		for _, d := range s.hs.devList {
			if !d.Paused && d.waiting && d.gen == s.hs.gen && (must != nil && must(d) || s.chance(p)) {
				d.Paused = true
				s.hs.logf("held %s", d.DeviceID)
			}
		}
	})
}

func (s *Sim) clientOf(d *Dev) *Client {
	for _, c := range s.clients {
		if c.Dev == d {
			return c
		}
	}
	return nil
}

// waitIngested: until the poller of d has processed pos
func (s *Sim) waitIngested(d *Dev, e *Ev) bool {
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		ok := false
		s.hs.With(func() { ok = s.hs.ingested(d) >= e.Pos })
		if ok {
			// (unless this stream has jumped over it)
			s.hs.With(func() { _, ok = e.ShownTo[d.Token] })
			return ok
		}
	}
	return false
}

// TxnMsg: some messages of one user's devices among those of others, while some streams are held back.
func (s *Sim) TxnMsg() {
	r, u := s.joinedRoomUser()
	if r == nil {
		return
	}
	var own, others []*Dev
	members := map[string]bool{}
	s.hs.With(func() {
		for _, m := range s.users {
			members[m] = r.Membership(m, maxPos) == "join"
		}
	})
	for _, d := range s.hs.devList {
		if d.UserID == u {
			own = append(own, d)
		} else if members[d.UserID] {
			others = append(others, d)
		}
	}
	d := pick(s, own)
	mode := s.rng.Intn(4)
	switch mode {
	case 0:
		s.hold(0.4, nil)
	case 1: // others are first
		s.hold(0.2, func(x *Dev) bool { return x == d })
	case 2:
		s.hold(0, func(x *Dev) bool { return x.UserID == u })
	}
	var last, plain *Ev
	s.hs.Do(func() {
		n := 1 + s.rng.Intn(3)
		for i := 0; i < n; i++ {
			from, tok, id := u, d.Token, fmt.Sprintf("m%d", s.hs.nev)
			switch s.rng.Intn(6) {
			case 0:
				tok, id = "", ""
			case 1:
				tok = pick(s, own).Token
			case 2:
				if len(others) > 0 {
					o := pick(s, others)
					from, tok = o.UserID, o.Token
				}
			}
			var sk *string
			typ, c := "m.room.message", J{"body": id, "msgtype": "m.text"}
			if s.chance(0.1) {
				sk, typ, c = sp("k1"), "com.custom", J{"v": s.rng.Int31()}
			}
			e := s.hs.send(r, typ, sk, from, c, tok, id, "")
			if from == u && sk == nil && tok == d.Token {
				last = e
			} else if from == u && sk == nil && tok == "" {
				plain = e
			}
		}
	})
	s.Count("c15_sent", 1)
	c := s.clientOf(d)
	see := func(why string, last *Ev) {
		if last == nil || c == nil || len(s.viols) > 0 {
			return
		}
		tracked := false
		for end := time.Now().Add(25 * time.Second); ; {
			if _, err := c.Sync(100); err != nil && err != errExpired {
				s.clientErr(c, err)
				return
			}
			if cr := c.Rooms[r.ID]; cr != nil && (cr.Seen[last.ID] || cr.LastIdx >= last.Idx) {
				s.Count("c15_"+why, 1)
				return
			}
			if tracked = c.Tracked(r.ID); !tracked || len(s.viols) > 0 {
				return
			}
			if time.Now().After(end) {
				s.dumpStacks()
				s.Violate([]string{"C15", "C20"}, "own event held back for good", fmt.Sprintf("client %s room %s event %s: %s", c.Name, r.ID, last.ID, why))
				return
			}
		}
	}
	if plain != nil && (mode == 0 || mode == 3) {
		// nobody knows an id: as soon as all of the user's streams have it
		all := true
		s.hs.With(func() {
			for _, x := range own {
				all = all && !x.Paused && x.waiting
			}
		})
		for _, x := range own {
			all = all && s.waitIngested(x, plain)
		}
		if all {
			see("all_clear", plain)
		}
	}
	switch {
	case last == nil || c == nil || s.chance(0.4):
	case mode == 0 || mode == 3:
		// as soon as its own stream has the last of them
		paused := false
		s.hs.With(func() { paused = d.Paused })
		if !paused && s.waitIngested(d, last) {
			see("confirmed", last)
		}
	case s.prof.TxnDelay < 10*time.Second:
		// without ever hearing from its own stream
		for _, o := range others {
			if !o.Paused {
				if s.waitIngested(o, last) {
					time.Sleep(s.prof.TxnDelay + 50*time.Millisecond)
					see("unconfirmed", last)
				}
				break
			}
		}
	}
	if s.chance(0.5) {
		// let them go one after the other
		for _, i := range s.rng.Perm(len(s.hs.devList)) {
			x := s.hs.devList[i]
			if !x.Paused || s.chance(0.2) {
				continue
			}
			s.hs.Do(func() {
				s.hs.logf("let go %s", x.DeviceID)
				s.hs.resume(x)
			})
			if s.chance(0.5) && !s.Settle() {
				return
			}
			if s.chance(0.4) {
				s.syncOne(pick(s, s.clients))
			}
		}
	}
}

func init() {
	for name, delay := range map[string]time.Duration{"txn": 300 * time.Millisecond, "txnlong": 10 * time.Minute} {
		delay := delay
		prof(name, func() *Profile {
			return &Profile{Users: 3, Devices: 2, Rooms: 3, Steps: 40, NoSettle: 0.7, As: []string{"C15"}, TxnDelay: delay, NoCheck: delay > time.Minute,
				Opts: func(o *syncv3.Opts) { o.MaxTransactionIDDelay = delay },
				W: map[string]int{"txnmsg": 20, "msg": 4, "msgbatch": 2, "state": 2, "sync": 14, "check": 3, "pause": 2, "settle": 4,
					"sub": 2, "unsub": 1, "ranges": 2, "newconn": 1, "restart": 1, "pollerr": 1, "join": 1, "leave": 1, "clean": 1},
				PostInit: func(s *Sim) { s.setupCleaner() },
				OnResp:   func(s *Sim, c *Client, body []byte, r *Resp, raw []byte, initial bool) { s.monitorTxn(c, r) },
				Lists: func(s *Sim, c *Client) {
					c.SetList("a", ListCfg{Ranges: [][2]int{{0, 10}}, RoomSubCfg: s.randSub()})
				}}
		})
	}
}
