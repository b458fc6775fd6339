package zzverif

// Extensions limited to some lists and rooms: what is in scope arrives, what is not does not.

import (
	"encoding/json"
	"fmt"
	"sort"
)

type extScope struct{ lists, rooms []string } // nil: not said

var scopeExts = []string{"account_data", "receipts", "typing"}

func (s *Sim) randScope(rooms []string) (e extScope) {
	switch s.rng.Intn(5) {
	case 0:
		e.lists = []string{}
	case 1:
		e.lists = []string{"*"}
	case 2:
		e.lists = []string{"a"}
	case 3:
		e.lists = []string{"b"}
	}
	switch s.rng.Intn(4) {
	case 0:
		e.rooms = []string{}
	case 1:
		e.rooms = []string{"*"}
	case 2:
		for _, r := range rooms {
			if s.chance(0.4) {
				e.rooms = append(e.rooms, r)
			}
		}
	}
	return
}

func (e extScope) j(first bool) J {
	j := J{}
	if first {
		j["enabled"] = true
	}
	if e.lists != nil {
		j["lists"] = e.lists
	}
	if e.rooms != nil {
		j["rooms"] = e.rooms
	}
	return j
}

func (e extScope) has(rid string, visible map[string]map[string]bool, subs map[string]bool) bool {
	for i, r := range e.rooms {
		if r == rid || i == 0 && r == "*" && subs[rid] {
			return true
		}
	}
	for i, l := range e.lists {
		if i == 0 && l == "*" {
			return visible["a"][rid] || visible["b"][rid]
		}
		if visible[l][rid] {
			return true
		}
	}
	return false
}

type scopeSeen struct {
	ad     map[string]map[string]string // room, type -> content
	rc     map[string]map[string]string // room, user|kind|thread -> event
	typing map[string]string
}

func (x *scopeSeen) add(r *Resp) {
	if e := r.Extensions.AccountData; e != nil {
		for rid, l := range e.Rooms {
			for _, raw := range l {
				var a struct {
					Type    string
					Content json.RawMessage
				}
				_ = json.Unmarshal(raw, &a)
				if x.ad[rid] == nil {
					x.ad[rid] = map[string]string{}
				}
				x.ad[rid][a.Type] = string(mustCanon(a.Content))
			}
		}
	}
	if e := r.Extensions.Receipts; e != nil {
		for rid, raw := range e.Rooms {
			for _, p := range parseReceipts(raw) {
				if x.rc[rid] == nil {
					x.rc[rid] = map[string]string{}
				}
				x.rc[rid][p.User+"|"+p.Kind+"|"+p.Thread] = p.EventID
			}
		}
	}
	if e := r.Extensions.Typing; e != nil {
		for rid, raw := range e.Rooms {
			x.typing[rid] = string(raw)
		}
	}
}

func newScopeSeen() *scopeSeen {
	return &scopeSeen{map[string]map[string]string{}, map[string]map[string]string{}, map[string]string{}}
}

func (s *Sim) scopeStep() {
	if !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	var mine []*Room
	s.hs.With(func() {
		for _, r := range s.rooms {
			if r.Membership(d.UserID, maxPos) == "join" {
				mine = append(mine, r)
			}
		}
	})
	if len(mine) == 0 {
		return
	}
	var ids []string
	for _, r := range mine {
		ids = append(ids, r.ID)
	}
	sub := RoomSubCfg{ReqState: [][2]string{{"m.room.create", ""}}, TimelineLimit: 3}
	subs, sj := map[string]bool{}, J{}
	for _, r := range ids {
		if s.chance(0.3) {
			subs[r] = true
			sj[r] = sub.J()
		}
	}
	lo := s.rng.Intn(3)
	j := J{"lists": J{
		"a": ListCfg{RoomSubCfg: sub, Ranges: [][2]int{{0, s.rng.Intn(2)}}, Sort: []string{"by_name"}}.J(),
		"b": ListCfg{RoomSubCfg: sub, Ranges: [][2]int{{lo, lo + s.rng.Intn(2)}}, Sort: []string{"by_recency"}}.J(),
	}}
	if len(sj) > 0 {
		j["room_subscriptions"] = sj
	}
	sc, ej := map[string]extScope{}, J{}
	for _, x := range scopeExts {
		e := s.randScope(ids)
		ej[x] = e.j(true)
		if e.lists == nil {
			e.lists = []string{"*"}
		}
		if e.rooms == nil {
			e.rooms = []string{"*"}
		}
		sc[x] = e
	}
	j["extensions"] = ej
	s.seq28++
	conn := fmt.Sprintf("scope%d", s.seq28)
	sync := func(pos string, j J) *Resp { return s.oldSync(d, conn, pos, j) }
	r := sync("", j)
	if r == nil {
		return
	}
	visible := map[string]map[string]bool{"a": {}, "b": {}}
	for l, x := range r.Lists {
		for _, op := range x.Ops {
			for _, rid := range op.RoomIDs {
				visible[l][rid] = true
			}
		}
	}
	bad := func(x, rid, f string, a ...any) {
		s.Violate([]string{"C28"}, "extension scope", fmt.Sprintf("device %s conn %s: %s of %s, lists %v rooms %v, visible %v subscribed %v: %s", d.DeviceID, conn, x, rid, sc[x].lists, sc[x].rooms, visible, subs, fmt.Sprintf(f, a...)))
	}
	// what must not be there
	outside := func(seen *scopeSeen) {
		for rid := range seen.ad {
			if !sc["account_data"].has(rid, visible, subs) {
				bad("account_data", rid, "not in scope, got %v", seen.ad[rid])
			}
		}
		for rid := range seen.rc {
			if !sc["receipts"].has(rid, visible, subs) {
				bad("receipts", rid, "not in scope, got %v", seen.rc[rid])
			}
		}
		for rid := range seen.typing {
			if !sc["typing"].has(rid, visible, subs) {
				bad("typing", rid, "not in scope, got %v", seen.typing[rid])
			}
		}
	}
	seen := newScopeSeen()
	seen.add(r)
	outside(seen)
	s.hs.With(func() {
		us := s.hs.users[d.UserID]
		for rid := range r.Rooms {
			if !sc["account_data"].has(rid, visible, subs) {
				continue
			}
			for typ, st := range us.RoomAD[rid] {
				s.Count("c28_initial", 1)
				if got, want := seen.ad[rid][typ], string(mustCanon(mustJSON(st.Data))); got != want {
					bad("account_data", rid, "%s is %q, should be %q", typ, got, want)
				}
			}
		}
	})
	pos := r.Pos
	for round := 0; round < 2; round++ {
		if round == 1 {
			// some scopes change, what is left out stays
			ej := J{}
			for _, x := range scopeExts {
				if s.chance(0.5) {
					continue
				}
				e := s.randScope(ids)
				ej[x] = e.j(false)
				old := sc[x]
				if e.lists == nil {
					e.lists = old.lists
				}
				if e.rooms == nil {
					e.rooms = old.rooms
				}
				sc[x] = e
			}
			if r = sync(pos, J{"extensions": ej}); r == nil {
				return
			}
			pos = r.Pos
		}
		type exp struct{ ad, rcKey, rcEv string }
		want := map[string]exp{}
		typed := map[string]bool{}
		for _, room := range mine {
			room := room
			if s.chance(0.3) {
				continue
			}
			v := J{"v": s.rng.Int31(), "owner": d.UserID}
			s.SetRoomAD(d.UserID, room, "com.scope", v)
			x := exp{ad: string(mustCanon(mustJSON(v)))}
			s.hs.Do(func() {
				s.hs.ts += 10
				rc := Receipt{Pos: s.hs.bump(), EventID: room.Last().ID, UserID: d.UserID, ThreadID: fmt.Sprintf("$scope%d", s.rng.Int31()), TS: s.hs.ts}
				for _, o := range room.Receipts {
					if o.EventID == rc.EventID && o.UserID == rc.UserID {
						return
					}
				}
				room.Receipts = append(room.Receipts, rc)
				s.hs.logf("receipt %+v in %s", rc, room.ID)
				x.rcKey, x.rcEv = rc.UserID+"|m.read|"+rc.ThreadID, rc.EventID
			})
			if s.chance(0.7) {
				var t []string
				if len(room.Typing) == 0 {
					t = []string{d.UserID}
				}
				s.hs.Do(func() { room.Typing = t; room.TypePos = s.hs.bump(); s.hs.logf("typing %s %v", room.ID, t) })
				typed[room.ID] = true
			}
			want[room.ID] = x
		}
		if !s.Settle() {
			return
		}
		seen = newScopeSeen()
		for quiet := 0; quiet < 3; {
			if r = sync(pos, J{}); r == nil {
				return
			}
			pos = r.Pos
			for _, l := range r.Lists {
				if len(l.Ops) > 0 {
					return // cannot tell any more what is visible
				}
			}
			seen.add(r)
			quiet++
			if !r.Empty() {
				quiet = 0
			}
		}
		outside(seen)
		var rids []string
		for rid := range want {
			rids = append(rids, rid)
		}
		sort.Strings(rids)
		for _, rid := range rids {
			x := want[rid]
			s.Count("c28_live", 1)
			if sc["account_data"].has(rid, visible, subs) && seen.ad[rid]["com.scope"] != x.ad {
				bad("account_data", rid, "in scope, got %q, should be %q", seen.ad[rid]["com.scope"], x.ad)
			}
			if x.rcKey != "" && sc["receipts"].has(rid, visible, subs) && seen.rc[rid][x.rcKey] != x.rcEv {
				bad("receipts", rid, "in scope, got %v, should have %s on %s", seen.rc[rid], x.rcKey, x.rcEv)
			}
			if typed[rid] && sc["typing"].has(rid, visible, subs) && seen.typing[rid] == "" {
				bad("typing", rid, "in scope, got nothing")
			}
			s.Sig("c28", round, len(sc["account_data"].lists), len(sc["account_data"].rooms), sc["receipts"].has(rid, visible, subs), sc["typing"].has(rid, visible, subs), len(subs), len(visible["a"]), len(visible["b"]))
		}
	}
}

func init() {
	prof("scope", func() *Profile {
		return &Profile{Users: 2, Rooms: 4, Steps: 30, NoSettle: 0.3, Fresh: -1, As: []string{"C28"},
			W:     map[string]int{"scope": 14, "msg": 3, "name": 2, "roomad": 3, "receipt": 3, "typing": 3, "join": 3, "settle": 2, "restart": 1}, // (no leaves: K-d)
			Lists: func(s *Sim, c *Client) {}}
	})
}
