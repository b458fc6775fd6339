package zzverif

// Homeserver timelines with gaps, pagination tokens, long state histories and cleanups.

import "fmt"

var newCleaner func(pq string) (clean func(), stop func())

func (s *Sim) setupCleaner() {
	if newCleaner == nil {
		return
	}
	clean, stop := newCleaner(dbConnString())
	s.atClose = append(s.atClose, stop)
	s.data["clean"] = clean
}

func (s *Sim) Clean() {
	if f, ok := s.data["clean"].(func()); ok {
		// (known finding: a connection more than 50 state changes behind loses the state it still has to load)
		mark, _ := s.data["cleanMark"].(int)
		if s.hs.nev-mark > 45 {
			s.unpause()
			if !s.Settle() {
				return
			}
			for _, c := range s.clients {
				if err := c.Drain(60); err != nil {
					s.clientErr(c, err)
				}
			}
			s.data["cleanMark"] = s.hs.nev
			s.Count("cleanups_drained", 1)
		}
		f()
		s.Count("cleanups", 1)
	}
}

// Gap lets the pollers fall behind and then gives some of them limited timelines, one poller after the other.
func (s *Sim) Gap() {
	s.unpause()
	if !s.Settle() {
		return
	}
	s.hs.Do(func() {
		for _, d := range s.hs.devList {
			d.Paused = d.Active && d.gen == s.hs.gen && d.Valid
		}
	})
	kinds := s.stepKinds()
	n := 2 + s.rng.Intn(8)
	for i := 0; i < n; i++ {
		k := pick(s, []string{"msg", "msg", "msg", "msg", "state", "name", "profile", "msgbatch"})
		kinds[k](s)
	}
	perm := s.rng.Perm(len(s.hs.devList))
	// (known finding: the state section of a later, less limited timeline can hold state which is older than
	// what is known, and overwrites it; so here all limited timelines are equally long)
	lim := 1 + s.rng.Intn(4)
	for i, x := range perm {
		d := s.hs.devList[x]
		s.hs.Do(func() {
			d.maxTL = 0
			if i == 0 || s.chance(0.4) {
				d.maxTL = lim
			}
			s.hs.resume(d)
			s.hs.logf("gap: %s maxTL=%d", d.DeviceID, d.maxTL)
		})
		if !s.Settle() {
			return
		}
		if s.chance(0.2) {
			s.SyncSome()
		}
	}
	s.hs.With(func() {
		for _, d := range s.hs.devList {
			d.maxTL = 0
		}
	})
	s.Count("gaps", 1)
}

// StateBurst makes so many state snapshots in a room that the cleanup has something to remove.
func (s *Sim) StateBurst() {
	r, u := s.joinedRoomUser()
	if r == nil {
		return
	}
	n := 20 + s.rng.Intn(50)
	for i := 0; i < n; i += 10 {
		s.hs.Do(func() {
			for k := 0; k < 10; k++ {
				s.hs.send(r, "com.custom", sp(fmt.Sprintf("k%d", s.rng.Intn(5))), u, J{"v": s.rng.Int31()}, "", "", "")
			}
		})
		if !s.Settle() {
			return
		}
	}
}

func gapSubs(s *Sim) RoomSubCfg {
	c := RoomSubCfg{TimelineLimit: pick(s, []int{1, 2, 3, 5, 8, 12, 20}), ReqState: [][2]string{{"*", "*"}}}
	if s.chance(0.3) {
		c.ReqState = [][2]string{{"com.custom", "*"}, {"m.room.member", "*"}}
	}
	return c
}

func init() {
	w := map[string]int{"gap": 8, "msg": 8, "msgbatch": 4, "state": 4, "name": 1, "profile": 2, "join": 2, "leave": 2, "sync": 10, "check": 3, "settle": 4, "sub": 5, "unsub": 4, "ranges": 3,
		"newconn": 4, "restart": 1, "fresh": 3, "clean": 3, "stateburst": 1, "lost": 1, "pollerr": 1}
	mk := func(proxied int, as string) func() *Profile {
		return func() *Profile {
			return &Profile{Users: 3, Rooms: 3, Steps: 60, NoSettle: 0.2, Gaps: true, NoOrder: true, Fresh: 0.4, As: []string{as}, Subs: gapSubs, Proxied: proxied,
				W: w, PostInit: func(s *Sim) { s.setupCleaner(); s.hs.JoinedHistory = true },
				Lists: func(s *Sim, c *Client) {
					c.SetList("a", ListCfg{Ranges: [][2]int{{0, s.rng.Intn(4)}}, RoomSubCfg: s.randSub()})
				}}
		}
	}
	prof("gaps", mk(0, "C24"))
	prof("gaps1", mk(1, "C24"))
	prof("gapsreset", mk(0, "C23"))
}
