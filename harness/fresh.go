package zzverif

// Fresh clients: what somebody who connects anew is shown. Used against the ground truth, and to compare
// what is shown before and after a restart.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// freshClient opens a connection of its own (it takes no to-device messages or device list changes from
// the real client of the device).
func (s *Sim) freshClient(d *Dev, connID string, cfg func(c *Client)) (*Client, error) {
	c := NewClient(s, d, connID)
	c.Name = d.DeviceID + "/" + connID
	for _, e := range []string{"account_data", "receipts", "typing"} {
		c.SetExt(e, J{"enabled": true})
	}
	cfg(c)
	err := c.Drain(30)
	return c, err
}

// FreshCheck: a new client with a random configuration has to agree with the ground truth at once.
func (s *Sim) FreshCheck() {
	var act []*Dev
	for _, d := range s.hs.devList {
		if d.Valid && !d.Paused {
			act = append(act, d)
		}
	}
	if len(act) == 0 || !s.Settle() {
		return
	}
	d := pick(s, act)
	if d == s.junk {
		return
	}
	c, err := s.freshClient(d, "fresh", func(c *Client) {
		randListCfg(s, c)
		if s.chance(0.5) {
			c.SetList("all", ListCfg{Ranges: [][2]int{{0, 99}}, RoomSubCfg: RoomSubCfg{ReqState: [][2]string{{"*", "*"}}, TimelineLimit: 1 + s.rng.Intn(30)}})
		}
	})
	s.extra = append(s.extra, c)
	if err != nil {
		s.clientErr(c, err)
		return
	}
	s.Count("fresh_clients", 1)
	k := &checker{s: s}
	s.hs.With(func() {
		rooms := s.modelRooms(d.UserID)
		k.lists(c, rooms)
		k.rooms(c, rooms)
		k.ext(c, rooms)
		k.snapshots(c, rooms)
	})
	for _, v := range k.errs {
		s.Violate(v.Props, v.Kind+" (fresh client)", v.Detail)
	}
}

// snapshots: what a room's first appearance on a connection holds. Lock held, nothing moved since.
func (k *checker) snapshots(c *Client, rooms map[string]*RoomView) {
	s := k.s
	if s.prof.Ignores || s.prof.Gaps {
		return
	}
	for rid, v := range rooms {
		cr := c.Rooms[rid]
		if cr != nil && v.Invite && s.hs.Mangle == nil {
			var got, want []string
			for _, e := range cr.InviteState {
				got = append(got, string(mustCanon(e)))
			}
			for _, e := range s.hs.users[c.Dev.UserID].InviteState[rid] {
				want = append(want, string(mustCanon(e)))
			}
			sort.Strings(got)
			sort.Strings(want)
			s.Count("c14_invite_states", 1)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				k.bad([]string{"C14", "C01"}, "wrong invite state", "client %s room %s: %v expected %v", c.Name, rid, got, want)
			}
		}
		if cr == nil || v.Invite || !cr.Contig || cr.LimitExact == 0 {
			continue
		}
		room := s.hs.rooms[rid]
		st := room.Stays(c.Dev.UserID)
		from := st[len(st)-1].From
		k.freshReceipts(c, room, cr)
		for _, e := range cr.Timeline {
			if x := room.ByID[e.ID]; x != nil && x.Idx < from {
				k.bad([]string{"C01"}, "timeline of an earlier stay", "client %s room %s: event %s idx %d, joined at %d", c.Name, rid, e.ID, x.Idx, from)
			}
		}
		// everything that came after a poller first got the room has been in a timeline
		avail := 0
		for i := len(room.Events) - 1; i >= from; i-- {
			if room.Events[i].Pos <= room.FirstServed || !room.Events[i].DeliveredTL {
				break
			}
			avail++
		}
		s.Count("c24_snapshots", 1)
		if len(cr.Timeline) < min(avail, cr.LimitExact) {
			k.bad([]string{"C05", "C24", "C07"}, "snapshot with too few events", "client %s room %s: %d events with a limit of %d and %d stored; timeline %v", c.Name, rid, len(cr.Timeline), cr.LimitExact, avail, tlIdx(room, cr))
		}
		s.Sig("snap", len(cr.Timeline), cr.LimitExact, avail)
	}
}

// freshView renders everything a new client of the device is shown, normalised.
func (s *Sim) freshView(d *Dev) (map[string]string, error) {
	lists := map[string]ListCfg{}
	add := func(name string, sort []string, f J, bump []string) {
		lists[name] = ListCfg{Ranges: [][2]int{{0, 99}}, Sort: sort, Filters: f, Bump: bump, RoomSubCfg: RoomSubCfg{ReqState: [][2]string{{"*", "*"}}, TimelineLimit: 20, Heroes: true}}
	}
	add("recency", []string{"by_recency"}, nil, nil)
	add("name", []string{"by_name", "by_recency"}, nil, nil)
	add("level", []string{"by_notification_level", "by_recency"}, nil, nil)
	add("hcount", []string{"by_highlight_count", "by_notification_count", "by_recency"}, nil, nil)
	add("enc", []string{"by_recency"}, J{"is_encrypted": true}, nil)
	add("inv", []string{"by_recency"}, J{"is_invite": true}, nil)
	add("dm", []string{"by_recency"}, J{"is_dm": true}, nil)
	add("fav", []string{"by_recency"}, J{"tags": []string{"m.favourite"}}, nil)
	add("sp", []string{"by_recency"}, J{"room_types": []any{"m.space"}}, nil)
	for _, r := range s.rooms {
		if r.RoomType == "m.space" {
			add("in"+r.ID, []string{"by_recency"}, J{"spaces": []string{r.ID}}, nil)
		}
	}
	add("bump", []string{"by_recency"}, J{"is_invite": false}, []string{"m.room.message"})
	c, err := s.freshClient(d, "diff", func(c *Client) {
		for k, l := range lists {
			c.SetList(k, l)
		}
	})
	s.extra = append(s.extra, c)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	unnamed := false
	s.hs.With(func() {
		for _, v := range s.modelRooms(d.UserID) {
			unnamed = unnamed || v.Name == ""
		}
	})
	for name, l := range c.Lists {
		var ids []string
		for i := 0; i < l.Count; i++ {
			ids = append(ids, l.M[i])
		}
		if name == "name" && unnamed {
			sort.Strings(ids)
		}
		out["list "+name] = fmt.Sprintf("%d %v", l.Count, ids)
	}
	for rid, cr := range c.Rooms {
		names, ok := splitNames(cr.Name)
		if !ok {
			names = []string{cr.Name}
		}
		out["room "+rid+" name"] = fmt.Sprint(names)
		out["room "+rid+" counts"] = fmt.Sprintf("joined %d invited %d notif %d highlight %d dm %v avatar %v", cr.Joined, cr.Invited, cr.Notif, cr.Highlight, cr.IsDM, cr.Avatar)
		if len(cr.InviteState) == 0 {
			out["room "+rid+" timestamp"] = fmt.Sprint(cr.Timestamp)
		}
		out["room "+rid+" prev_batch"] = cr.PrevBatch
		var tl, st, inv, her []string
		for _, e := range cr.Timeline {
			tl = append(tl, e.ID)
		}
		for k, e := range cr.State {
			st = append(st, fmt.Sprintf("%s|%s=%s", k[0], k[1], parseEv(e).EventID))
		}
		sort.Strings(st)
		for _, e := range cr.InviteState {
			inv = append(inv, string(mustCanon(e)))
		}
		sort.Strings(inv)
		for _, h := range cr.Heroes {
			her = append(her, string(mustJSON(h)))
		}
		sort.Strings(her)
		out["room "+rid+" timeline"] = strings.Join(tl, " ")
		out["room "+rid+" state"] = strings.Join(st, " ")
		out["room "+rid+" invite"] = strings.Join(inv, " ")
		out["room "+rid+" heroes"] = strings.Join(her, " ")
		out["room "+rid+" account data"] = adView(c.RoomAD[rid])
		var rc []string
		for k, v := range c.Receipts[rid] {
			rc = append(rc, fmt.Sprintf("%s=%s@%d", k, v.EventID, v.TS))
		}
		sort.Strings(rc)
		out["room "+rid+" receipts"] = strings.Join(rc, " ")
	}
	out["account data"] = adView(c.GlobalAD)
	return out, nil
}

func adView(m map[string]json.RawMessage) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+string(mustCanon(v)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func diffViews(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: before %q after %q", k, a[k], b[k])
		}
	}
	return ""
}

// RestartDiff restarts the proxy at rest and compares what fresh clients see before, right after (from the
// database alone: the homeserver has nothing to add) and after everything was polled again.
func (s *Sim) RestartDiff() {
	if !s.Settle() {
		return
	}
	before := map[*Dev]map[string]string{}
	for _, d := range s.hs.devList {
		if !d.Valid {
			continue
		}
		v, err := s.freshView(d)
		if err != nil {
			s.clientErr(s.extra[len(s.extra)-1], err)
			return
		}
		before[d] = v
	}
	if !s.Settle() {
		return
	}
	s.hs.Do(func() { s.hs.Freeze = true })
	s.Restart()
	compare := func(when string) bool {
		for _, d := range s.hs.devList {
			if before[d] == nil {
				continue
			}
			v, err := s.freshView(d)
			if err != nil {
				s.clientErr(s.extra[len(s.extra)-1], err)
				return false
			}
			s.Count("c11_views", 1)
			s.Count("c11_facts", len(v))
			for k, x := range v {
				s.Sig("fv", strings.SplitN(k, " ", 2)[0], len(x))
			}
			if df := diffViews(before[d], v); df != "" {
				s.Violate([]string{"C11"}, "a restart changed what a fresh client sees", fmt.Sprintf("device %s, %s: %s", d.DeviceID, when, df))
				return false
			}
		}
		return true
	}
	ok := compare("right after the restart")
	s.hs.Do(func() { s.hs.Freeze = false })
	if ok && s.Settle() {
		compare("after polling resumed")
	}
}

// freshReceipts: a client which opens a room is given its own latest receipts, and the public ones on the
// events it is shown. Lock held, nothing moved since.
func (k *checker) freshReceipts(c *Client, room *Room, cr *CRoom) {
	s := k.s
	if !c.ExtOn("receipts") || s.hs.Mangle != nil || s.data["faults"] == true {
		return
	}
	inTL := map[string]bool{}
	for _, e := range cr.Timeline {
		inTL[e.ID] = true
	}
	type rk struct {
		u, t string
		p    bool
	}
	last := map[rk]Receipt{}
	for _, rc := range room.Receipts {
		last[rk{rc.UserID, rc.ThreadID, rc.Private}] = rc
	}
	for _, rc := range last {
		own := rc.UserID == c.Dev.UserID
		if !rc.Reported || (rc.Private && !own) || (!own && !inTL[rc.EventID]) {
			continue
		}
		moved := false
		for _, e := range room.Events {
			if e.Type == "m.room.member" && e.Membership() != "join" && e.Pos > rc.Pos {
				moved = true // a poller may have been the last to report something older, and never report this one
			}
		}
		if moved || (rc.ThreadID != "" && room.unthreadedOn(rc)) {
			continue
		}
		kind := "m.read"
		if rc.Private {
			kind = "m.read.private"
		}
		s.Count("c12_fresh", 1)
		got := c.Receipts[room.ID][rcptKey(rc.UserID, kind, rc.ThreadID)]
		if got.EventID != rc.EventID || got.TS != rc.TS {
			k.bad([]string{"C12"}, "receipt missing from a newly opened room", "client %s room %s: %+v, client has %+v", c.Name, room.ID, rc, got)
		}
	}
}
