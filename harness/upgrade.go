package zzverif

// Upgraded rooms: clients can ask for the rooms a room has replaced (include_old_rooms) along with it.

import (
	"encoding/json"
	"fmt"
	"sort"
)

// upgradeRoom: somebody replaces a room, most of its members move on.
func (s *Sim) upgradeRoom(with string) (old, next *Room) {
	var cand []*Room
	s.hs.With(func() {
		for _, r := range s.rooms {
			if stateStr(r.Cur(), "m.room.tombstone", "replacement_room") == "" && len(r.MembersWith("join")) > 0 && (with == "" || r.Membership(with, maxPos) == "join") {
				cand = append(cand, r)
			}
		}
	})
	if len(cand) == 0 {
		return nil, nil
	}
	old = cand[len(cand)-1]
	if s.chance(0.5) {
		old = pick(s, cand)
	}
	ms := old.MembersWith("join")
	u := pick(s, ms)
	tomb := s.chance(0.5)
	next = s.CreateRoom(RoomSpec{Creator: u, Name: s.randName(), Predecessor: old.ID})
	s.step("%s upgrades %s to %s", u, old.ID, next.ID)
	if tomb {
		s.hs.Send(old, "m.room.tombstone", sp(""), u, J{"body": "moved", "replacement_room": next.ID})
	}
	for _, m := range ms {
		if m != u && (m == with || s.chance(0.7)) {
			s.Join(next, m)
		}
	}
	if !tomb && s.chance(0.8) {
		s.hs.Send(old, "m.room.tombstone", sp(""), u, J{"body": "moved", "replacement_room": next.ID})
	}
	return old, next
}

func (s *Sim) randName() string { return fmt.Sprintf("up %d", s.rng.Intn(1000)) }

// oldChain: the rooms which come with a room. Lock held.
func (s *Sim) oldChain(user string, rid string) (out []string) {
	seen := map[string]bool{}
	for r := s.hs.rooms[rid]; r != nil; {
		ce := r.Cur()[[2]string{"m.room.create", ""}]
		if ce == nil {
			return
		}
		p, _ := ce.Content["predecessor"].(J)
		prev := s.hs.rooms[str(p["room_id"])]
		if prev == nil || prev.Membership(user, maxPos) != "join" || seen[prev.ID] {
			return
		}
		seen[prev.ID] = true
		out = append(out, prev.ID)
		r = prev
	}
	return
}

func (s *Sim) oldConfigs() (cur, old RoomSubCfg) {
	old = s.randSub()
	old.OldRooms = nil
	cur = s.randSub()
	cur.OldRooms = &old
	return
}

func (s *Sim) oldSync(d *Dev, conn, pos string, j J) *Resp {
	j["conn_id"] = conn
	body := mustJSON(j)
	res := s.proxy.Sync(ctxBG(), d.Token, pos, 0, body)
	s.hs.With(func() { s.hs.logf("%s/%s -> pos=%s %s\n<- %d %s", d.DeviceID, conn, pos, body, res.Code, res.Body) })
	if res.Err != nil || res.Code != 200 {
		s.Violate([]string{"C27", "C25"}, "request refused", fmt.Sprintf("device %s: %d %s %v", d.DeviceID, res.Code, res.Body, res.Err))
		return nil
	}
	var r Resp
	if err := json.Unmarshal(res.Body, &r); err != nil {
		s.Violate([]string{"C27"}, "bad response", err.Error())
		return nil
	}
	return &r
}

// checkOld: an old room in a response. Lock held, nothing has moved since.
func (s *Sim) checkOld(d *Dev, r *Resp, rid string, of string, cfg RoomSubCfg, exact bool) {
	bad := func(f string, a ...any) {
		s.Violate([]string{"C27"}, "old room", fmt.Sprintf("device %s, %s which replaced %s: %s", d.DeviceID, of, rid, fmt.Sprintf(f, a...)))
	}
	rr, ok := r.Rooms[rid]
	s.Count("c27_old_rooms", 1)
	if !ok || !rr.Initial {
		bad("not sent along (there: %v)", ok)
		return
	}
	if !exact {
		return
	}
	room := s.hs.rooms[rid]
	got := map[[2]string]string{}
	for _, raw := range rr.RequiredState {
		e := parseEv(raw)
		if e.StateKey != nil {
			got[[2]string{e.Type, *e.StateKey}] = e.EventID
		}
	}
	lazy := false
	for _, t := range cfg.ReqState {
		lazy = lazy || t[1] == "$LAZY"
	}
	for k, e := range room.Cur() {
		want := matchRS(cfg.ReqState, d.UserID, k[0], k[1])
		if want && got[k] != e.ID {
			bad("state %v is %q, should be %s", k, got[k], e.ID)
		}
		if !want && !lazy && got[k] != "" {
			bad("state %v is there without having been asked for", k)
		}
	}
	if len(rr.Timeline) > cfg.TimelineLimit {
		bad("%d events with a limit of %d", len(rr.Timeline), cfg.TimelineLimit)
	}
	if cfg.TimelineLimit > 0 {
		last := -1
		for _, e := range room.Events {
			if e.DeliveredTL {
				last = e.Idx
			}
		}
		if len(rr.Timeline) == 0 {
			bad("no events with a limit of %d", cfg.TimelineLimit)
		} else if e := room.ByID[parseEv(rr.Timeline[len(rr.Timeline)-1]).EventID]; e == nil || e.Idx != last {
			bad("the timeline does not end with the latest event (idx %d): %s", last, rr.Timeline[len(rr.Timeline)-1])
		}
	}
}

// oldRooms: a new connection which wants old rooms too.
func (s *Sim) oldRooms() {
	if !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	cfg, old := s.oldConfigs()
	j := J{}
	asked := map[string]bool{}  // in their own right
	follow := map[string]bool{} // with their old rooms
	withList := s.chance(0.7)
	if withList {
		j["lists"] = J{"a": ListCfg{RoomSubCfg: cfg, Ranges: s.randRanges()}.J()}
	}
	if !withList || s.chance(0.4) {
		subs := J{}
		for i := 0; i < 1+s.rng.Intn(2); i++ {
			r := pick(s, s.rooms)
			c := cfg
			if s.chance(0.3) {
				c.OldRooms = nil
			}
			subs[r.ID] = c.J()
			s.hs.With(func() {
				if r.Membership(d.UserID, maxPos) == "join" {
					asked[r.ID] = true
					if c.OldRooms != nil {
						follow[r.ID] = true
					}
				}
			})
		}
		if len(subs) == 2 || len(subs) == 1 {
			// (the same room may have been picked twice: the last one counts)
			for rid := range subs {
				if sj, ok := subs[rid].(J); ok && sj["include_old_rooms"] == nil {
					delete(follow, rid)
				}
			}
		}
		j["room_subscriptions"] = subs
	}
	s.seq27++
	r := s.oldSync(d, fmt.Sprintf("old%d", s.seq27), "", j)
	if r == nil {
		return
	}
	for _, l := range r.Lists {
		for _, op := range l.Ops {
			for _, rid := range op.RoomIDs {
				asked[rid], follow[rid] = true, true
			}
		}
	}
	s.hs.With(func() {
		exp := map[string]string{}
		for rid := range follow {
			if s.hs.rooms[rid] == nil || s.hs.rooms[rid].Membership(d.UserID, maxPos) != "join" {
				continue
			}
			ch := s.oldChain(d.UserID, rid)
			s.Sig("c27", len(ch), withList, len(asked))
			for _, o := range ch {
				exp[o] = rid
			}
		}
		var rids []string
		for o := range exp {
			rids = append(rids, o)
		}
		sort.Strings(rids)
		for _, o := range rids {
			s.checkOld(d, r, o, exp[o], old, !asked[o])
		}
		for rid := range r.Rooms {
			if !asked[rid] && exp[rid] == "" {
				s.Violate([]string{"C27", "C01"}, "room which was not asked for", fmt.Sprintf("device %s room %s", d.DeviceID, rid))
			}
		}
	})
}

// oldLive: a room is replaced while a connection is open.
func (s *Sim) oldLive() {
	if !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	cfg, _ := s.oldConfigs()
	s.seq27++
	conn := fmt.Sprintf("live%d", s.seq27)
	r := s.oldSync(d, conn, "", J{"lists": J{"a": ListCfg{RoomSubCfg: cfg, Ranges: [][2]int{{0, 99}}}.J()}})
	if r == nil {
		return
	}
	old, next := s.upgradeRoom(d.UserID)
	if old == nil || !s.Settle() {
		return
	}
	pos, seen := r.Pos, false
	for quiet := 0; quiet < 4; {
		if r = s.oldSync(d, conn, pos, J{}); r == nil {
			return
		}
		pos = r.Pos
		quiet++
		if len(r.Rooms) > 0 {
			quiet = 0
		}
		if rr, ok := r.Rooms[next.ID]; ok && rr.Initial {
			seen = true
			s.hs.With(func() {
				ch := s.oldChain(d.UserID, next.ID)
				s.Sig("c27 live", len(ch))
				for _, o := range ch {
					s.checkOld(d, r, o, next.ID, *cfg.OldRooms, false)
				}
			})
		}
	}
	s.Count("c27_live", 1)
	if !seen {
		s.Violate([]string{"C27"}, "old room", fmt.Sprintf("device %s: %s, which replaced %s, has not been sent", d.DeviceID, next.ID, old.ID))
	}
}

func init() {
	prof("upgrade", func() *Profile {
		return &Profile{Users: 3, Rooms: 3, Steps: 45, NoSettle: 0.3, Fresh: -1, As: []string{"C27"},
			W:     map[string]int{"upgrade": 8, "oldrooms": 12, "oldlive": 4, "msg": 5, "state": 4, "name": 2, "join": 4, "leave": 3, "kick": 1, "profile": 2, "settle": 4, "restart": 2},
			Lists: func(s *Sim, c *Client) {}}
	})
}
