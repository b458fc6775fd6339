package zzverif

// Online monitors (every response) and quiescence oracles (client view vs ground truth).

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// ---------- per response ----------

func (s *Sim) preResponse(c *Client, body []byte, r *Resp, raw []byte, initial bool) {
	for k := range c.Lists {
		if _, ok := r.Lists[k]; !ok {
			s.Violate([]string{"C03", "C18"}, "list missing from a response", fmt.Sprintf("client %s list %s: %s", c.Name, k, raw))
		}
	}
	moved := initial || c.behind
	for _, l := range r.Lists {
		moved = moved || len(l.Ops) > 0
	}
	for rid, rr := range r.Rooms {
		if !moved && !c.Tracked(rid) && !rr.Initial && len(rr.Timeline) > 0 {
			s.Violate([]string{"C18"}, "data for a room which is not asked for", fmt.Sprintf("client %s room %s: %s", c.Name, rid, raw))
		}
	}
	// what the request itself let go of is no longer tracked while the response is made
	for rid, cr := range c.Rooms {
		if !c.Tracked(rid) {
			cr.Contig = false
		}
	}
	s.hs.With(func() { s.checkConfidential(c, r, raw) })
	if s.prof.OnResp != nil {
		s.prof.OnResp(s, c, body, r, raw, initial)
	}
}

// C01. Lock held.
func (s *Sim) checkConfidential(c *Client, r *Resp, raw []byte) {
	u := c.Dev.UserID
	bad := func(kind, f string, a ...any) {
		s.Violate([]string{"C01"}, kind, fmt.Sprintf("client %s: ", c.Name)+fmt.Sprintf(f, a...))
	}
	for rid, rr := range r.Rooms {
		room := s.hs.rooms[rid]
		if room == nil {
			bad("unknown room in a response", "room %s: %s", rid, raw)
			continue
		}
		stays := room.Stays(u)
		me := room.MemberEv(u, maxPos)
		everInvited := false
		for _, e := range room.Events {
			if e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u && e.Membership() == "invite" {
				everInvited = true
			}
		}
		if me == nil || (len(stays) == 0 && !everInvited) {
			bad("room the user never was a member of", "room %s: %s", rid, mustJSON(rr))
			continue
		}
		s.Count("c01_rooms", 1)
		if s.hs.Mangle == nil {
			for _, ev := range rr.InviteState {
				if !s.hs.users[u].InviteHist[rid][string(mustCanon(ev))] {
					bad("invite state the homeserver has not given to the user", "room %s: %s", rid, ev)
				}
			}
		}
		lastEnd := -1
		for _, st := range stays {
			if st.To > lastEnd {
				lastEnd = st.To
			}
		}
		check := func(where string, ev json.RawMessage) {
			p := parseEv(ev)
			e := room.ByID[p.EventID]
			s.Count("c01_events", 1)
			if e == nil {
				other := ""
				for _, o := range s.hs.rooms {
					if o.ByID[p.EventID] != nil {
						other = o.ID
					}
				}
				s.Violate([]string{"C05", "C06", "C01"}, "event does not belong to the room", fmt.Sprintf("client %s %s of room %s has event %s (belongs to %q): %s", c.Name, where, rid, p.EventID, other, ev))
				return
			}
			if where == "required_state" {
				if e.Idx > lastEnd {
					bad("state from after the user left", "room %s event %s idx %d last stay ends %d: %s", rid, e.ID, e.Idx, lastEnd, ev)
				}
				return
			}
			if e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u {
				return
			}
			for _, st := range stays {
				if e.Idx >= st.From && e.Idx <= st.To {
					return
				}
			}
			bad("timeline event from outside the user's membership", "room %s event %s idx %d stays %v: %s", rid, e.ID, e.Idx, stays, ev)
		}
		for _, ev := range rr.Timeline {
			check("timeline", ev)
		}
		for _, ev := range rr.RequiredState {
			check("required_state", ev)
		}
		// metadata set after the last stay must not be visible (unless a later invite revealed it)
		if lastEnd < len(room.Events) && lastEnd < 1<<30 && !s.invitedAfter(room, u, lastEnd) {
			for _, e := range room.Events[lastEnd+1:] {
				if e.Type == "m.room.name" && rr.Name != nil && *rr.Name != "" && e.Content["name"] == *rr.Name {
					bad("room name from after the user left", "room %s name %q set by %s idx %d, stay ended %d", rid, *rr.Name, e.ID, e.Idx, lastEnd)
				}
			}
		}
	}
	for key, l := range r.Lists {
		for _, op := range l.Ops {
			ids := append([]string{}, op.RoomIDs...)
			if op.RoomID != "" {
				ids = append(ids, op.RoomID)
			}
			for _, rid := range ids {
				room := s.hs.rooms[rid]
				if room == nil || room.MemberEv(u, maxPos) == nil {
					bad("list shows a room the user never was a member of", "list %s room %s", key, rid)
				}
			}
		}
	}
	// extensions
	if x := r.Extensions.Receipts; x != nil {
		for rid, rw := range x.Rooms {
			room := s.hs.rooms[rid]
			if room == nil {
				bad("receipt for an unknown room", "%s", rid)
				continue
			}
			for _, rc := range parseReceipts(rw) {
				s.Count("c12_receipts", 1)
				if rc.Kind == "m.read.private" && rc.User != u {
					s.Violate([]string{"C12", "C01"}, "private receipt of another user", fmt.Sprintf("client %s room %s: %s", c.Name, rid, rw))
				}
				ok, vis := false, false
				for _, m := range room.Receipts {
					if m.UserID == rc.User && m.EventID == rc.EventID && m.ThreadID == rc.Thread && m.TS == rc.TS && m.Private == (rc.Kind == "m.read.private") {
						ok = true
						if s.posInStays(room, u, m.Pos) {
							vis = true
						}
					}
				}
				if !ok {
					s.Violate([]string{"C12"}, "receipt nobody sent", fmt.Sprintf("client %s room %s %+v", c.Name, rid, rc))
				} else if !vis {
					bad("receipt from after the user left", "room %s %+v", rid, rc)
				}
			}
		}
	}
	if x := r.Extensions.Typing; x != nil {
		for rid := range x.Rooms {
			room := s.hs.rooms[rid]
			if room == nil || len(room.Stays(u)) == 0 {
				s.Violate([]string{"C26", "C01"}, "typing for a room the user is not in", fmt.Sprintf("client %s room %s", c.Name, rid))
			}
		}
	}
	if x := r.Extensions.AccountData; x != nil {
		chk := func(where string, ev json.RawMessage) {
			var d struct {
				Content struct {
					Owner string `json:"owner"`
				} `json:"content"`
			}
			_ = json.Unmarshal(ev, &d)
			if d.Content.Owner != "" && d.Content.Owner != u {
				s.Violate([]string{"C13", "C17", "C01"}, "account data of another user", fmt.Sprintf("client %s %s: %s", c.Name, where, ev))
			}
			s.Count("c13_events", 1)
		}
		for _, ev := range x.Global {
			chk("global", ev)
		}
		for rid, evs := range x.Rooms {
			for _, ev := range evs {
				chk(rid, ev)
			}
			if s.hs.rooms[rid] == nil {
				s.Violate([]string{"C13"}, "account data for an unknown room", fmt.Sprintf("client %s room %q: %s", c.Name, rid, mustJSON(evs)))
			}
		}
	}
	if x := r.Extensions.ToDevice; x != nil {
		have := map[string]bool{}
		for _, m := range c.Dev.ToDevice {
			have[string(mustCanon(m.Raw))] = true
		}
		for _, ev := range x.Events {
			if !have[string(mustCanon(ev))] {
				s.Violate([]string{"C09", "C17"}, "to-device message for another device", fmt.Sprintf("client %s: %s", c.Name, ev))
			}
		}
	}
}

func mustCanon(b json.RawMessage) []byte {
	var v any
	_ = json.Unmarshal(b, &v)
	return mustJSON(v)
}

func (s *Sim) invitedAfter(room *Room, u string, idx int) bool {
	for _, e := range room.Events {
		if e.Idx > idx && e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u && e.Membership() == "invite" {
			return true
		}
	}
	return false
}

// posInStays: was there a stay that had begun and not ended... the receipt may be older than the stay
// (joining users are given existing receipts), so only what came after the last stay is out of bounds.
func (s *Sim) posInStays(room *Room, u string, pos int64) bool {
	stays := room.Stays(u)
	if len(stays) == 0 {
		return false
	}
	last := stays[len(stays)-1]
	if last.Open {
		return true
	}
	// ephemeral events in the same batch as the leave may legitimately be processed first
	return !s.hs.settledBetween(room.Events[last.To].Pos, pos)
}

// visible: may/should the user see this event in a timeline. Lock held.
func (s *Sim) visible(room *Room, stays []Stay, e *Ev) bool {
	for _, st := range stays {
		if e.Idx >= st.From && e.Idx <= st.To {
			return true
		}
	}
	return false
}

// monitorRoom: C05 (after the room data was applied to the client's view).
func (s *Sim) monitorRoom(c *Client, rid string, rr RespRoom) {
	cr := c.Rooms[rid]
	u := c.Dev.UserID
	if c.EverMembers[rid] == nil {
		c.EverMembers[rid] = map[string]bool{}
	}
	for k := range cr.State {
		if k[0] == "m.room.member" {
			c.EverMembers[rid][k[1]] = true
		}
	}
	s.hs.With(func() {
		room := s.hs.rooms[rid]
		if room == nil {
			return
		}
		stays := room.Stays(u)
		prev := -1
		s.monitorContent(c, rid, rr)
		if rr.Initial {
			cr.Contig = true
			cr.InitPos = s.hs.pos
			cr.QPos = s.hs.pos + 1<<40 // nothing is due before the next quiescent check
			s.recordGuarantee(c, cr)
		}
		prev = cr.LastIdx
		for i, ev := range rr.Timeline {
			p := parseEv(ev)
			e := room.ByID[p.EventID]
			if e == nil {
				continue // reported elsewhere
			}
			s.Count("c05_events", 1)
			if cr.Seen[e.ID] {
				s.Violate([]string{"C05"}, "duplicate timeline event", fmt.Sprintf("client %s room %s event %s idx %d delivered twice since the last snapshot; timeline now %v", c.Name, rid, e.ID, e.Idx, tlIdx(room, cr)))
				continue
			}
			cr.Seen[e.ID] = true
			if !cr.Contig && !rr.Initial {
				if e.Idx > cr.LastIdx {
					cr.LastIdx = e.Idx
				}
				continue
			}
			isLeaveOfUs := e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u && e.Membership() != "join"
			if prev >= 0 && e.Idx < prev {
				s.Violate([]string{"C05"}, "timeline out of order", fmt.Sprintf("client %s room %s event %s idx %d after idx %d (initial=%v)", c.Name, rid, e.ID, e.Idx, prev, rr.Initial))
			} else if prev >= 0 && (!s.prof.Gaps || (rr.Initial && i > 0 && i < len(rr.Timeline)-rr.NumLive)) && !(isLeaveOfUs && !rr.Initial) && c.Tracked(rid) {
				// (a room that merely passed through the window is given single events, with no promise of continuity)
				for k := prev + 1; k < e.Idx; k++ {
					m := room.Events[k]
					if m.DeliveredTL && s.visible(room, stays, m) && !s.mayIgnore(u, m) {
						s.Violate([]string{"C05", "C24"}, "timeline gap", fmt.Sprintf("client %s room %s: event %s idx %d missing between idx %d and %d (initial=%v, pos in response %d)", c.Name, rid, m.ID, m.Idx, prev, e.Idx, rr.Initial, i))
						break
					}
				}
			}
			if e.Idx > prev {
				prev = e.Idx
			}
		}
		if prev > cr.LastIdx {
			cr.LastIdx = prev
		}
		s.monitorPages(c, room, cr, rr, stays)
		if len(rr.Timeline) > 0 {
			s.Sig("tl", rr.Initial, len(rr.Timeline), cr.Contig, len(stays), prev-len(room.Events))
		}
	})
}

// monitorPages: C24 - how far a snapshot of a timeline reaches back, and where its pagination token continues. Lock held.
func (s *Sim) monitorPages(c *Client, room *Room, cr *CRoom, rr RespRoom, stays []Stay) {
	if len(rr.Timeline) == 0 || len(stays) == 0 || s.prof.Ignores || len(rr.InviteState) > 0 || len(cr.InviteState) > 0 {
		return
	}
	first := room.ByID[parseEv(rr.Timeline[0]).EventID]
	if first == nil {
		return
	}
	st := stays[len(stays)-1]
	stored := len(rr.Timeline) - rr.NumLive
	short := rr.Initial && rr.NumLive == 0 && !c.behind && cr.LimitExact > 0 && stored < cr.LimitExact && first.Idx > st.From && first.Idx > 0 && c.Tracked(room.ID)
	if short {
		// it must have been cut at the start of a timeline whose predecessor is unknown
		ok := false
		for _, x := range room.Served {
			ok = ok || (x.First == first.Idx && x.Limited)
		}
		s.Count("c24_cut", 1)
		if !ok {
			s.Violate([]string{"C24"}, "snapshot cut where nothing is missing", fmt.Sprintf("client %s room %s: %d events, limit %d, starts at idx %d; served %v", c.Name, room.ID, len(rr.Timeline), cr.LimitExact, first.Idx, room.Served))
		}
	}
	if rr.Initial && rr.NumLive == 0 && !c.behind && cr.LimitMax > 0 && c.Tracked(room.ID) && stored > cr.LimitMax {
		s.Violate([]string{"C24"}, "more events than asked for", fmt.Sprintf("client %s room %s: %d events, limit %d", c.Name, room.ID, len(rr.Timeline), cr.LimitMax))
	}
	if rr.PrevBatch == "" && !short {
		return
	}
	var rid string
	tok := -1
	if p := strings.Split(rr.PrevBatch, "|"); len(p) == 3 {
		rid = p[1]
		tok, _ = strconv.Atoi(p[2])
	}
	s.Count("c24_tokens", 1)
	if rid != room.ID {
		s.Violate([]string{"C24"}, "foreign pagination token", fmt.Sprintf("client %s room %s: prev_batch %q", c.Name, room.ID, rr.PrevBatch))
		return
	}
	if tok < first.Idx {
		s.Violate([]string{"C24"}, "pagination token skips events", fmt.Sprintf("client %s room %s: timeline starts at idx %d, prev_batch %q (initial=%v)", c.Name, room.ID, first.Idx, rr.PrevBatch, rr.Initial))
	}
	if short && tok != first.Idx {
		s.Violate([]string{"C24"}, "pagination token is not the nearest", fmt.Sprintf("client %s room %s: timeline cut at idx %d, prev_batch %q; served %v", c.Name, room.ID, first.Idx, rr.PrevBatch, room.Served))
	}
	// exact when one poller alone brought the room, each time with news only
	exact, want, last := true, -1, -1
	for i, x := range room.Served {
		exact = exact && x.First > last && x.Dev == room.Served[0].Dev && (i == 0 || !x.Leave)
		last = x.Last
		if x.First >= first.Idx && (want < 0 || x.First < want) {
			want = x.First
		}
	}
	if exact && want >= 0 {
		s.Count("c24_tokens_exact", 1)
		if tok != want {
			s.Violate([]string{"C24"}, "pagination token is not the nearest", fmt.Sprintf("client %s room %s: timeline starts at idx %d, prev_batch %q, expected idx %d; served %v", c.Name, room.ID, first.Idx, rr.PrevBatch, want, room.Served))
		}
	}
	s.Sig("pb", short, rr.Initial, tok-first.Idx, len(rr.Timeline), exact)
}

// mayIgnore: could the event have been held back because its sender was ignored when it was processed. Lock held.
func (s *Sim) mayIgnore(u string, e *Ev) bool {
	if e.StateKey != nil || !s.prof.Ignores {
		return false
	}
	before := int64(0)
	for _, p := range s.hs.settles {
		if p <= e.Pos {
			before = p
		}
	}
	for _, v := range ignoresSince(s.hs.users[u].Ignores, before) {
		if v.Who[e.Sender] {
			return true
		}
	}
	return false
}

// ignoresSince: the version of the ignore list in effect at pos, and all later ones.
func ignoresSince(vs []IgnoreVer, pos int64) []IgnoreVer {
	i := len(vs)
	for i > 0 && vs[i-1].Pos > pos {
		i--
	}
	if i > 0 {
		i--
	} else {
		return append([]IgnoreVer{{}}, vs...)
	}
	return vs[i:]
}

// monitorContent: C22 - no messages of ignored senders, and nothing of what was redacted. Lock held.
func (s *Sim) monitorContent(c *Client, rid string, rr RespRoom) {
	room := s.hs.rooms[rid]
	if room == nil {
		return
	}
	vers := ignoresSince(s.hs.users[c.Dev.UserID].Ignores, c.ReqSettle)
	for i, raw := range rr.Timeline {
		p := parseEv(raw)
		e := room.ByID[p.EventID]
		if e == nil {
			continue
		}
		if e.StateKey == nil {
			ig := true
			for _, v := range vers {
				ig = ig && v.Who[e.Sender]
			}
			if len(vers) > 0 && len(vers[len(vers)-1].Who) > 0 {
				s.Count("c22_ignore_checked", 1)
			}
			if ig {
				s.Violate([]string{"C22"}, "message of an ignored user", fmt.Sprintf("client %s room %s initial=%v event %s sender %s", c.Name, rid, rr.Initial, e.ID, e.Sender))
			}
		}
		if rr.Initial && i < len(rr.Timeline)-rr.NumLive {
			s.checkRedacted(c, room, e, raw, "initial timeline")
		} else if e.RedactedBy != nil {
			s.checkRedactedLive(c, room, e, raw)
		} else {
			s.checkIntact(c, room, e, raw, "timeline")
		}
	}
	for _, raw := range rr.RequiredState {
		if e := room.ByID[parseEv(raw).EventID]; e != nil {
			s.checkRedacted(c, room, e, raw, "required_state")
		}
	}
}

// checkIntact: what was not redacted is served as it was sent.
func (s *Sim) checkIntact(c *Client, room *Room, e *Ev, raw json.RawMessage, where string) {
	if !sameContent(raw, e.Content) {
		s.Violate([]string{"C22", "C06", "C05"}, "event content altered", fmt.Sprintf("client %s room %s %s: %s, sent with content %s", c.Name, room.ID, where, raw, mustJSON(e.Content)))
	}
}

// checkRedactedLive: events on their way to the client when they were redacted come before the redaction,
// and are either as they were or pruned.
func (s *Sim) checkRedactedLive(c *Client, room *Room, e *Ev, raw json.RawMessage) {
	if !sameContent(raw, e.Content) && !sameContent(raw, e.Orig) {
		s.Violate([]string{"C22"}, "event content altered", fmt.Sprintf("client %s room %s: %s", c.Name, room.ID, raw))
	}
}

func (s *Sim) checkRedacted(c *Client, room *Room, e *Ev, raw json.RawMessage, where string) {
	if e.RedactedBy == nil {
		s.checkIntact(c, room, e, raw, where)
		return
	}
	if e.RedactedBy.Pos > c.ReqSettle {
		s.checkRedactedLive(c, room, e, raw)
		return
	}
	s.Count("c22_redacted_checked", 1)
	if !sameContent(raw, e.Content) {
		s.Violate([]string{"C22"}, "redacted content served", fmt.Sprintf("client %s room %s %s: %s redacted by %s", c.Name, room.ID, where, raw, e.RedactedBy.ID))
	}
}

func tlIdx(room *Room, cr *CRoom) []int {
	var out []int
	for _, t := range cr.Timeline {
		if e := room.ByID[t.ID]; e != nil {
			out = append(out, e.Idx)
		} else {
			out = append(out, -1)
		}
	}
	return out
}

// recordGuarantee remembers what state and limits the client may rely on for this snapshot:
// what every configuration that could have produced it asked for.
func (s *Sim) recordGuarantee(c *Client, cr *CRoom) {
	var srcs []RoomSubCfg
	if sub, ok := c.Subs[cr.ID]; ok {
		srcs = append(srcs, sub)
	}
	for _, l := range c.Lists {
		if l.Cfg.Slow {
			srcs = append(srcs, l.Cfg.RoomSubCfg)
			continue
		}
		in := false
		for i, rid := range l.M {
			if rid == cr.ID && l.Cfg.InRange(i) {
				in = true
			}
		}
		if in {
			srcs = append(srcs, l.Cfg.RoomSubCfg)
		}
	}
	if cr.Kept {
		// an update of a tracked room only carries what the changed parameters ask for: what used to be
		// narrowed away beside [*,*] is not caught up on
		cr.Narrow = append(append(cr.Narrow, cr.Guar...), cr.GuarAll...)
	}
	cr.Guar, cr.GuarAll = nil, nil
	cr.LimitExact, cr.LimitMax = 0, c.Subs[cr.ID].TimelineLimit
	for _, l := range c.Lists {
		cr.GuarAll = append(cr.GuarAll, l.Cfg.ReqState...)
		cr.LimitMax = max(cr.LimitMax, l.Cfg.TimelineLimit)
	}
	cr.GuarAll = append(cr.GuarAll, c.Subs[cr.ID].ReqState...)
	cr.Lazy = len(srcs) > 0
	for i, x := range srcs {
		lazy := false
		for _, t := range x.ReqState {
			if t == [2]string{"m.room.member", "$LAZY"} {
				lazy = true
			}
		}
		cr.Lazy = cr.Lazy && lazy
		cr.Guar = append(cr.Guar, x.ReqState...)
		if i == 0 || x.TimelineLimit < cr.LimitExact {
			cr.LimitExact = x.TimelineLimit
		}
	}
	for _, l := range c.Lists {
		if l.Moved {
			// the room may have been in this list when the snapshot was made and have left it since
			cr.LimitExact = min(cr.LimitExact, l.Cfg.TimelineLimit)
		}
	}
}

// guaranteed: does the combination of all the configurations ask for this piece of state
func (cr *CRoom) guaranteed(user string, key [2]string) bool {
	// (the room may have passed through the window of any list while the response was made)
	return matchRS(cr.Guar, user, key[0], key[1]) && matchRS(cr.GuarAll, user, key[0], key[1]) &&
		(len(cr.Narrow) == 0 || matchRS(append(append([][2]string{}, cr.Guar...), cr.Narrow...), user, key[0], key[1]))
}

// matchRS implements required_state selection: with [*,*], entries with a concrete state key narrow their type.
func matchRS(rs [][2]string, user, typ, key string) bool {
	hasWild, typRestricted, any, exact := false, false, false, false
	for _, t := range rs {
		k := t[1]
		if k == "$ME" {
			k = user
		}
		if t[0] == "*" && k == "*" {
			hasWild = true
			continue
		}
		if t[0] == typ && k != "*" {
			typRestricted = true
			exact = exact || k == key
		}
		if (t[0] == "*" || t[0] == typ) && (k == "*" || k == key) {
			any = true
		}
	}
	if hasWild {
		return !typRestricted || exact
	}
	return any
}

func (s *Sim) postResponse(c *Client, body []byte, r *Resp, raw []byte, initial bool) {
	for rid, cr := range c.Rooms {
		if !c.Tracked(rid) {
			cr.Contig = false
		}
	}
	// lazily loaded members
	onlyLazy := len(c.Lists)+len(c.Subs) > 0
	wanted := map[string]bool{}
	scan := func(rs [][2]string) {
		lazy := false
		for _, t := range rs {
			if t[0] != "m.room.member" && t[0] != "*" {
				continue
			}
			switch {
			case t[1] == "$LAZY":
				lazy = true
			case t[1] == "$ME":
				wanted[c.Dev.UserID] = true
			case t[1] == "*":
				onlyLazy = false
			default:
				wanted[t[1]] = true
			}
		}
		onlyLazy = onlyLazy && lazy
	}
	for _, l := range c.Lists {
		scan(l.Cfg.ReqState)
	}
	for _, sub := range c.Subs {
		scan(sub.ReqState)
	}
	s.hs.With(func() {
		for rid, rr := range r.Rooms {
			room := s.hs.rooms[rid]
			if room == nil {
				continue
			}
			idx := c.MemberIdx[rid]
			if idx == nil {
				idx = map[string]int{}
				c.MemberIdx[rid] = idx
			}
			senders := map[string]bool{}
			for _, x := range [][]json.RawMessage{rr.RequiredState, rr.Timeline} {
				for _, ev := range x {
					p := parseEv(ev)
					senders[p.Sender] = true
					e := room.ByID[p.EventID]
					if e != nil && e.Type == "m.room.member" && e.StateKey != nil {
						if old, ok := idx[*e.StateKey]; !ok || e.Idx > old {
							idx[*e.StateKey] = e.Idx
						}
					}
				}
			}
			senders = map[string]bool{}
			for _, ev := range rr.Timeline {
				senders[parseEv(ev).Sender] = true
			}
			if t := r.Extensions.Typing; t != nil && t.Rooms[rid] != nil {
				for _, u := range c.Typing[rid] {
					senders[u] = true
				}
			}
			if onlyLazy {
				for _, ev := range rr.RequiredState {
					p := parseEv(ev)
					if p.Type != "m.room.member" || p.StateKey == nil {
						continue
					}
					s.Count("c21_members", 1)
					if !senders[*p.StateKey] && !wanted[*p.StateKey] {
						s.Violate([]string{"C21"}, "member event nobody asked for", fmt.Sprintf("client %s room %s (initial=%v): %s is neither a sender in the timeline nor typing nor asked for", c.Name, rid, rr.Initial, *p.StateKey))
					}
				}
			}
		}
		for rid, rr := range r.Rooms {
			cr := c.Rooms[rid]
			if !cr.Lazy || !cr.Contig || len(cr.InviteState) > 0 {
				continue // (invites come with what the invite says about the room, and no state)
			}
			room := s.hs.rooms[rid]
			if room == nil {
				continue
			}
			for _, ev := range rr.Timeline {
				p := parseEv(ev)
				if p.Sender == "" || room.MemberEv(p.Sender, maxPos) == nil {
					continue
				}
				s.Count("c21_senders", 1)
				if !c.EverMembers[rid][p.Sender] {
					s.Violate([]string{"C21"}, "timeline sender without a membership event", fmt.Sprintf("client %s room %s sender %s of %s: known members %v", c.Name, rid, p.Sender, p.EventID, c.EverMembers[rid]))
				} else if e := room.ByID[p.EventID]; e != nil {
					m := room.MemberEv(p.Sender, e.Pos)
					if got, ok := c.MemberIdx[rid][p.Sender]; m != nil && (!ok || got < m.Idx) {
						s.Violate([]string{"C21"}, "timeline sender with an outdated membership event", fmt.Sprintf("client %s room %s sender %s of %s (idx %d): newest membership event received idx %d, current was idx %d", c.Name, rid, p.Sender, p.EventID, e.Idx, got, m.Idx))
					}
				}
			}
		}
		if t := r.Extensions.Typing; t != nil {
			for rid := range t.Rooms {
				cr := c.Rooms[rid]
				room := s.hs.rooms[rid]
				if cr == nil || room == nil || !cr.Lazy || !cr.Contig || len(cr.InviteState) > 0 {
					continue
				}
				for _, u := range c.Typing[rid] {
					if room.MemberEv(u, c.ReqSettle) == nil {
						continue // may still be on its way
					}
					s.Count("c21_typers", 1)
					if !c.EverMembers[rid][u] {
						s.Violate([]string{"C21"}, "typing user without a membership event", fmt.Sprintf("client %s room %s user %s", c.Name, rid, u))
					}
				}
			}
		}
	})
}

// ---------- ground truth views ----------

type RoomView struct {
	ID         string
	Invite     bool
	Name       string // "" when it has to be calculated
	Heroes     []string
	TS         int64
	Notif      int
	Highlight  int
	Encrypted  bool
	Type       string
	Tags       map[string]bool
	DM         bool
	Spaces     map[string]bool
	SpacesAmb  map[string]bool // may or may not count
	DMAmb      bool
	TagsAmb    bool
	NotifAmb   bool // re-invited: whether the count from the earlier stay still stands is not specified
	Avatar     string
	HeroAvatar []string
	HeroNames  map[string]string // of the other members
	Crowd      bool              // not all members need be named
	Joined     int
	Invited    int
	Gone       bool // replaced by a room the user joined
}

func str(v any) string { x, _ := v.(string); return x }

func stateStr(st map[[2]string]*Ev, typ, field string) string {
	if e := st[[2]string{typ, ""}]; e != nil {
		return str(e.Content[field])
	}
	return ""
}

// modelRooms: the rooms the user should see. Lock held.
func (s *Sim) modelRooms(u string) map[string]*RoomView {
	out := map[string]*RoomView{}
	us := s.hs.users[u]
	dms := map[string]bool{}
	if st, ok := us.AccountData["m.direct"]; ok {
		for _, v := range st.Data {
			if l, ok := v.([]string); ok {
				for _, r := range l {
					dms[r] = true
				}
			}
		}
	}
	for rid, r := range s.hs.rooms {
		me := r.MemberEv(u, maxPos)
		if me == nil {
			continue
		}
		m := me.Membership()
		if m != "join" && m != "invite" {
			continue
		}
		v := &RoomView{ID: rid, Tags: map[string]bool{}, Spaces: map[string]bool{}, SpacesAmb: map[string]bool{}, DM: dms[rid]}
		for _, e := range r.Events {
			if e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u && e.Membership() == "invite" {
				v.DMAmb = true
			}
		}
		if tg, ok := us.RoomAD[rid]["m.tag"]; ok {
			if t, ok := tg.Data["tags"].(J); ok {
				for k := range t {
					v.Tags[k] = true
				}
			}
		}
		if m == "invite" {
			v.TagsAmb = len(r.Stays(u)) > 0 // room account data is only delivered for joined rooms
			v.Invite = true
			v.TS = me.TS
			v.Highlight = 1
			if ur, ok := us.Unread[rid]; ok {
				v.Notif = ur.N
			}
			v.NotifAmb = len(r.Stays(u)) > 0
			v.Joined, v.Invited = 1, 1
			v.Type = r.RoomType
			for _, raw := range us.InviteState[rid] {
				var e struct {
					Type    string
					Content J
				}
				_ = json.Unmarshal(raw, &e)
				switch e.Type {
				case "m.room.name":
					v.Name = str(e.Content["name"])
				case "m.room.encryption":
					v.Encrypted = true
				case "m.room.avatar":
					v.Avatar = str(e.Content["url"])
				}
			}
			if v.Name == "" {
				for _, raw := range us.InviteState[rid] {
					var e struct {
						Type    string
						Content J
					}
					_ = json.Unmarshal(raw, &e)
					if e.Type == "m.room.canonical_alias" {
						v.Name = str(e.Content["alias"])
					}
				}
			}
		} else {
			cur := r.Cur()
			v.Name = stateStr(cur, "m.room.name", "name")
			if v.Name == "" {
				v.Name = stateStr(cur, "m.room.canonical_alias", "alias")
			}
			v.Avatar = stateStr(cur, "m.room.avatar", "url")
			v.TS = r.Last().TS
			if ur, ok := us.Unread[rid]; ok {
				v.Notif, v.Highlight = ur.N, ur.H
			}
			_, v.Encrypted = cur[[2]string{"m.room.encryption", ""}]
			v.Type = r.RoomType
			v.Joined = len(r.MembersWith("join"))
			v.Invited = len(r.MembersWith("invite"))
			for _, ms := range []string{"join", "invite"} {
				for _, o := range r.MembersWith(ms) {
					if o != u {
						v.HeroAvatar = append(v.HeroAvatar, str(cur[[2]string{"m.room.member", o}].Content["avatar_url"]))
						n := str(cur[[2]string{"m.room.member", o}].Content["displayname"])
						if v.HeroNames == nil {
							v.HeroNames = map[string]string{}
						}
						v.HeroNames[o] = n
						if n == "" {
							n = o
						}
						v.Heroes = append(v.Heroes, n)
					}
				}
			}
			sort.Strings(v.Heroes)
			v.Crowd = s.prof.Heroes || len(v.Heroes) > 5
			if tomb := stateStr(cur, "m.room.tombstone", "replacement_room"); tomb != "" {
				if nr := s.hs.rooms[tomb]; nr != nil && nr.Membership(u, maxPos) == "join" {
					v.Gone = true
				}
			}
		}
		out[rid] = v
	}
	for sid, sr := range s.hs.rooms {
		if sr.RoomType != "m.space" || len(sr.Stays(u)) == 0 {
			continue
		}
		joined := sr.Membership(u, maxPos) == "join"
		ever := map[string]bool{}
		for _, e := range sr.Events {
			if e.Type == "m.space.child" && e.StateKey != nil {
				if _, ok := e.Content["via"].([]string); ok {
					ever[*e.StateKey] = true
				}
			}
		}
		cur := sr.Cur()
		for ch := range ever {
			v := out[ch]
			if v == nil {
				continue
			}
			on := false
			if e := cur[[2]string{"m.space.child", ch}]; e != nil {
				_, on = e.Content["via"].([]string)
			}
			if v.Invite {
				v.SpacesAmb[sid] = true // whether invites count as part of spaces is not specified
			} else if on && joined {
				v.Spaces[sid] = true
			}
		}
	}
	return out
}

// include: 1 yes, 0 no, -1 unspecified
func (v *RoomView) include(f J) int {
	res := 1
	amb := false
	test := func(ok bool) {
		if !ok {
			res = 0
		}
	}
	if v.Gone {
		return 0
	}
	if x, ok := f["is_encrypted"].(bool); ok {
		test(x == v.Encrypted)
	}
	if x, ok := f["is_invite"].(bool); ok {
		test(x == v.Invite)
	}
	if x, ok := f["is_dm"].(bool); ok {
		if v.DMAmb {
			amb = true
		} else {
			test(x == v.DM)
		}
	}
	if x, ok := f["room_name_like"].(string); ok && x != "" {
		name := v.Name
		if name == "" {
			// calculated names: decided only when every order of names gives the same answer
			any := false
			for _, h := range v.Heroes {
				if strings.Contains(strings.ToLower(h), strings.ToLower(x)) {
					any = true
				}
			}
			if v.Invite || v.Crowd {
				amb = true
			} else if len(v.Heroes) == 0 {
				test(strings.Contains("empty room", strings.ToLower(x)))
			} else if !any {
				if strings.Contains(" and ", strings.ToLower(x)) || strings.Contains(", ", x) || len(x) > 3 {
					amb = true
				} else {
					amb = true
				}
			}
		} else {
			test(strings.Contains(strings.ToLower(name), strings.ToLower(x)))
		}
	}
	if x, ok := f["tags"].([]string); ok && len(x) > 0 {
		amb = amb || v.TagsAmb
		any := v.TagsAmb
		for _, t := range x {
			any = any || v.Tags[t]
		}
		test(any)
	}
	if x, ok := f["not_tags"].([]string); ok {
		amb = amb || v.TagsAmb
		for _, t := range x {
			test(v.TagsAmb || !v.Tags[t])
		}
	}
	typeIn := func(l []any) bool {
		for _, t := range l {
			if (t == nil && v.Type == "") || (t != nil && t == v.Type && v.Type != "") {
				return true
			}
		}
		return false
	}
	if x, ok := f["not_room_types"].([]any); ok && len(x) > 0 {
		test(!typeIn(x))
	}
	if x, ok := f["room_types"].([]any); ok && len(x) > 0 {
		test(typeIn(x))
	}
	if x, ok := f["spaces"].([]string); ok && len(x) > 0 {
		yes, am := false, false
		for _, sp_ := range x {
			yes = yes || v.Spaces[sp_]
			am = am || v.SpacesAmb[sp_]
		}
		if !yes && am {
			amb = true
		} else {
			test(yes)
		}
	}
	if res == 1 && amb {
		return -1
	}
	return res
}

func canonName(n string) string { return strings.ToLower(strings.Trim(n, "#!():_@")) }

// sortKey gives the comparison key of one sort criterion; smaller first.
func (v *RoomView) sortKey(by string) string {
	num := func(n int64) string { return fmt.Sprintf("%020d", int64(1)<<60-n) }
	switch by {
	case "by_recency":
		return num(v.TS)
	case "by_name":
		return canonName(v.Name)
	case "by_notification_count":
		return num(int64(v.Notif))
	case "by_highlight_count":
		return num(int64(v.Highlight))
	case "by_notification_level":
		switch {
		case v.Highlight > 0:
			return "0"
		case v.Notif > 0 && v.Encrypted:
			return "1"
		case v.Notif > 0:
			return "2"
		}
		return "3"
	}
	return ""
}

func (v *RoomView) key(sorts []string) string {
	if len(sorts) == 0 {
		sorts = []string{"by_recency"}
	}
	var p []string
	for _, x := range sorts {
		p = append(p, v.sortKey(x))
	}
	return strings.Join(p, "|")
}

// ---------- quiescence oracles ----------

type checker struct {
	s    *Sim
	errs []Violation
}

func (k *checker) bad(props []string, kind, f string, a ...any) {
	k.errs = append(k.errs, Violation{props, kind, fmt.Sprintf(f, a...)})
}

// CheckViews compares every client's view with the ground truth. Everything is at rest.
func (s *Sim) CheckViews() []Violation {
	k := &checker{s: s}
	s.hs.With(func() {
		for _, c := range s.clients {
			if c.Pos == "" || c.muted {
				continue
			}
			rooms := s.modelRooms(c.Dev.UserID)
			if st, ok := s.hs.users[c.Dev.UserID].AccountData["m.direct"]; ok && st.Pos > c.SessPos {
				// changes of the direct flags are not pushed to live lists
				for _, v := range rooms {
					v.DMAmb = true
				}
			}
			k.lists(c, rooms)
			k.rooms(c, rooms)
			k.ext(c, rooms)
		}
	})
	return k.errs
}

func (k *checker) lists(c *Client, rooms map[string]*RoomView) {
	s := k.s
	keys := make([]string, 0)
	for key := range c.Lists {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		l := c.Lists[key]
		var exp []*RoomView
		namb := 0
		amb := map[string]bool{}
		for _, v := range rooms {
			switch v.include(l.Cfg.Filters) {
			case 1:
				exp = append(exp, v)
			case -1:
				namb++
				amb[v.ID] = true
			}
		}
		s.Count("c03_lists", 1)
		if l.Count < len(exp) || l.Count > len(exp)+namb {
			k.bad([]string{"C03", "C04"}, "wrong list count", "client %s list %s %s: count %d, expected %d (+%d unspecified): %v", c.Name, key, mustJSON(l.Cfg.J()), l.Count, len(exp), namb, ids(exp))
			continue
		}
		if l.Cfg.Slow {
			for _, v := range exp {
				if c.Rooms[v.ID] == nil {
					k.bad([]string{"C03", "C04"}, "room missing from an all-rooms list", "client %s list %s room %s", c.Name, key, v.ID)
				}
			}
			continue
		}
		// the window is exactly the indexes of the ranges below the count
		seen := map[string]bool{}
		for i := 0; i < l.Count; i++ {
			if !l.Cfg.InRange(i) {
				continue
			}
			rid, ok := l.M[i]
			if !ok {
				k.bad([]string{"C03"}, "hole in the window", "client %s list %s %s: index %d of %d is empty: %s", c.Name, key, mustJSON(l.Cfg.J()), i, l.Count, fmtWin(l.M))
				return
			}
			if seen[rid] {
				k.bad([]string{"C03"}, "duplicate room in the window", "client %s list %s %s: %s: %s", c.Name, key, mustJSON(l.Cfg.J()), rid, fmtWin(l.M))
				return
			}
			seen[rid] = true
		}
		for i, rid := range l.M {
			if i >= l.Count && l.Cfg.InRange(i) {
				k.bad([]string{"C03"}, "stale entry past the end of the list", "client %s list %s %s: count %d but index %d = %s: %s", c.Name, key, mustJSON(l.Cfg.J()), l.Count, i, rid, fmtWin(l.M))
				return
			}
		}
		inexp := map[string]*RoomView{}
		for _, v := range exp {
			inexp[v.ID] = v
		}
		for i, rid := range l.M {
			if l.Cfg.InRange(i) && inexp[rid] == nil && !amb[rid] {
				k.bad([]string{"C04", "C03", "C01"}[:2], "room does not belong in the list", "client %s list %s %s: index %d room %s (membership %s)", c.Name, key, mustJSON(l.Cfg.J()), i, rid, s.hs.rooms[rid].Membership(c.Dev.UserID, maxPos))
				return
			}
			if l.Cfg.InRange(i) && c.Rooms[rid] == nil {
				k.bad([]string{"C03", "C18"}, "visible room without room data", "client %s list %s: index %d room %s", c.Name, key, i, rid)
				return
			}
		}
		// ordering
		if l.Cfg.Bump != nil {
			k.bumpOrder(c, key, l)
			continue
		}
		if s.prof.NoOrder {
			continue
		}
		byName, byCount := false, false
		for _, x := range l.Cfg.Sort {
			byName = byName || x == "by_name"
			byCount = byCount || x == "by_notification_count"
		}
		countAmb := false
		for _, v := range rooms {
			countAmb = countAmb || v.NotifAmb
		}
		if byCount && countAmb {
			continue
		}
		unnamed := false
		for _, v := range exp {
			unnamed = unnamed || v.Name == ""
		}
		for _, rid := range l.M {
			if v := rooms[rid]; v != nil && v.Name == "" {
				unnamed = true
			}
		}
		if byName && unnamed {
			continue
		}
		if namb == 0 {
			sort.Slice(exp, func(i, j int) bool { return exp[i].key(l.Cfg.Sort) < exp[j].key(l.Cfg.Sort) })
			for i := 0; i < l.Count; i++ {
				if !l.Cfg.InRange(i) {
					continue
				}
				got := rooms[l.M[i]]
				if got.key(l.Cfg.Sort) != exp[i].key(l.Cfg.Sort) {
					k.bad([]string{"C04", "C03"}, "wrong order", "client %s list %s %s: index %d is %s (%s), expected %s (%s); window %s; expected order %v", c.Name, key, mustJSON(l.Cfg.J()), i, got.ID, got.key(l.Cfg.Sort), exp[i].ID, exp[i].key(l.Cfg.Sort), fmtWin(l.M), ids(exp))
					return
				}
			}
		} else {
			last := ""
			for i := 0; i < l.Count; i++ {
				if !l.Cfg.InRange(i) {
					continue
				}
				kk := rooms[l.M[i]].key(l.Cfg.Sort)
				if kk < last {
					k.bad([]string{"C04", "C03"}, "wrong order", "client %s list %s: index %d out of order: %s", c.Name, key, i, fmtWin(l.M))
					return
				}
				last = kk
			}
		}
		s.Sig("list", l.Cfg.Sort, l.Cfg.Ranges, l.Cfg.Filters != nil, l.Count, len(l.M))
	}
}

// bumpBounds: the recency of a room in a list with bump_event_types is at least the time of its latest
// bump event, and cannot have moved unless there was a bump event since. Lock held.
func (s *Sim) bumpBounds(c *Client, l *CList, rid string, since int64) (lb, ub int64) {
	room := s.hs.rooms[rid]
	u := c.Dev.UserID
	ub, known := l.BumpUB[rid]
	lb = l.BumpLB[rid]
	reset := !known || l.bumpSession != c.Session
	for _, e := range room.Events {
		if e.Pos <= since {
			continue
		}
		if e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == u {
			reset = true
			break
		}
		for _, t := range l.Cfg.Bump {
			if t == e.Type {
				if known {
					lb = e.TS
				}
				ub = room.Last().TS
			}
		}
	}
	if reset {
		lb, ub = 0, room.Last().TS
	}
	return lb, ub
}

func (k *checker) bumpOrder(c *Client, key string, l *CList) {
	if len(l.Cfg.Sort) > 0 && l.Cfg.Sort[0] != "by_recency" {
		return
	}
	s := k.s
	for i := 0; i < l.Count; i++ {
		for j := i + 1; j < l.Count; j++ {
			a, b := l.M[j], l.M[i] // b is shown before a
			if a == "" || b == "" || !l.Cfg.InRange(i) || !l.Cfg.InRange(j) {
				continue
			}
			lb, _ := s.bumpBounds(c, l, a, l.BumpSince)
			_, ub := s.bumpBounds(c, l, b, l.BumpSince)
			if lb > 0 {
				s.Count("c04_bump_pairs", 1)
			}
			if lb > ub {
				k.bad([]string{"C18", "C04"}, "room not ordered by its bump events", "client %s list %s %s: %s (last bump event at %d) is shown after %s (recency at most %d): %s", c.Name, key, mustJSON(l.Cfg.J()), a, lb, b, ub, fmtWin(l.M))
				return
			}
		}
	}
	s.Sig("bump", l.Cfg.Bump, l.Cfg.Sort, l.Count, len(l.M))
}

func ids(vs []*RoomView) []string {
	var o []string
	for _, v := range vs {
		o = append(o, v.ID)
	}
	return o
}

func (k *checker) rooms(c *Client, rooms map[string]*RoomView) {
	s := k.s
	u := c.Dev.UserID
	var rids []string
	for rid := range c.Rooms {
		rids = append(rids, rid)
	}
	sort.Strings(rids)
	// a subscription to a joined room must have produced data
	for rid := range c.Subs {
		if v := rooms[rid]; v != nil && !v.Invite && c.Rooms[rid] == nil {
			k.bad([]string{"C18", "C05"}, "no data for a subscribed room", "client %s room %s", c.Name, rid)
		}
	}
	for _, rid := range rids {
		cr := c.Rooms[rid]
		v := rooms[rid]
		if v == nil || !c.Tracked(rid) {
			continue
		}
		room := s.hs.rooms[rid]
		s.Count("quiescent_rooms", 1)
		if !v.Invite || c.InWindow(rid) {
			if (cr.Notif != v.Notif && !v.NotifAmb) || cr.Highlight != v.Highlight {
				k.bad([]string{"C14"}, "wrong unread counts", "client %s room %s (invite=%v): notif %d highlight %d, expected %d %d", c.Name, rid, v.Invite, cr.Notif, cr.Highlight, v.Notif, v.Highlight)
			}
		}
		if v.Invite {
			if !c.InWindow(rid) {
				continue
			}
			if len(cr.Timeline) == 0 && len(cr.InviteState) == 0 {
				k.bad([]string{"C14"}, "invite without invite state", "client %s room %s", c.Name, rid)
			}
			invites := 0
			for _, e := range room.Events {
				if e.Type == "m.room.member" && *e.StateKey == c.Dev.UserID && e.Membership() == "invite" {
					invites++
				}
			}
			// (a further invite, of somebody who already has one, is not an update of the room)
			if v.Name != "" && cr.Name != v.Name && (invites < 2 || strings.HasSuffix(c.Name, "fresh")) {
				k.bad([]string{"C14", "C19"}, "wrong name of an invite", "client %s room %s %q expected %q", c.Name, rid, cr.Name, v.Name)
			}
			continue
		}
		if !cr.Contig {
			continue
		}
		// C05 completeness
		stays := room.Stays(u)
		{
			want := -1
			for i := len(room.Events) - 1; i >= stays[len(stays)-1].From; i-- {
				if room.Events[i].DeliveredTL && !s.mayIgnore(u, room.Events[i]) {
					want = i
					break
				}
			}
			if s.prof.Ignores && want >= 0 {
				// messages of ignored users count towards the timeline limit
				n := 0
				for _, e := range room.Events[want+1:] {
					if e.Pos <= cr.InitPos {
						n++
					}
				}
				if n >= cr.LimitExact {
					want = -1
				}
			}
			if want >= 0 && cr.LastIdx < want {
				k.bad([]string{"C05"}, "timeline does not reach the latest event", "client %s room %s: last event idx %d, latest is idx %d (%s); timeline %v stays %v", c.Name, rid, cr.LastIdx, want, room.Events[want].ID, tlIdx(room, cr), stays)
			}
		}
		// C06
		cur := room.Cur()
		for key, raw := range cr.State {
			want := cur[key]
			if cr.Weak[key] && !cr.guaranteed(u, key) {
				continue // not requested and possibly changed before the snapshot
			}
			got := parseEv(raw)
			s.Count("c06_state", 1)
			if want == nil || got.EventID != want.ID {
				w := "<none>"
				if want != nil {
					w = want.ID
				}
				k.bad([]string{"C06"}, "stale state", "client %s room %s state %v: client has %s, current is %s", c.Name, rid, key, got.EventID, w)
			}
		}
		for key, e := range cur {
			if cr.guaranteed(u, key) {
				s.Count("c06_required", 1)
				if cr.State[key] == nil {
					k.bad([]string{"C06", "C18"}, "requested state missing", "client %s room %s state %v (%s) not delivered; required_state %v", c.Name, rid, key, e.ID, cr.Guar)
				}
			}
		}
		// C19
		if v.Name != "" {
			if cr.Name != v.Name {
				k.bad([]string{"C19"}, "wrong room name", "client %s room %s: %q expected %q", c.Name, rid, cr.Name, v.Name)
			}
		} else if got, ok := splitNames(cr.Name); ok && !reflect.DeepEqual(got, v.Heroes) {
			k.bad([]string{"C19"}, "wrong calculated room name", "client %s room %s: %q expected names %v", c.Name, rid, cr.Name, v.Heroes)
		} else if !ok {
			k.crowdName(c, rid, cr, v)
		}
		if v.Name == "" && s.prof.Heroes && len(v.HeroNames) > 0 { // (nothing is listed for an empty room)
			k.heroes(c, rid, cr, v)
		}
		if cr.Joined != v.Joined || cr.Invited != v.Invited {
			k.bad([]string{"C19"}, "wrong member counts", "client %s room %s: joined %d invited %d, expected %d %d", c.Name, rid, cr.Joined, cr.Invited, v.Joined, v.Invited)
		}
		bump := false
		for _, l := range c.Lists {
			bump = bump || l.Cfg.Bump != nil
		}
		if !bump && cr.Timestamp != 0 && cr.Timestamp != v.TS && !s.prof.Ignores && !s.prof.Gaps {
			k.bad([]string{"C19"}, "wrong room timestamp", "client %s room %s: %d expected %d", c.Name, rid, cr.Timestamp, v.TS)
		}
		wantAv := v.Avatar
		if wantAv == "" && v.DM && len(v.HeroAvatar) == 1 {
			wantAv = v.HeroAvatar[0]
		}
		if v.DM && !v.DMAmb {
			s.Count("c19_dm_rooms", 1)
		}
		if cr.IsDM != v.DM && !v.DMAmb {
			k.bad([]string{"C19", "C13"}, "wrong direct message flag", "client %s room %s: %v expected %v", c.Name, rid, cr.IsDM, v.DM)
		}
		if av := str(cr.Avatar); av != wantAv && !v.DMAmb {
			k.bad([]string{"C19"}, "wrong room avatar", "client %s room %s: %q expected %q", c.Name, rid, av, v.Avatar)
		}
		s.Sig("room", len(cr.Timeline), cr.Initials, len(cr.State), v.Joined, v.Invited, v.Name == "")
	}
}

// crowdName: "A, B, C and 7 others"
func (k *checker) crowdName(c *Client, rid string, cr *CRoom, v *RoomView) {
	k.s.Count("c19_crowd_names", 1)
	bad := func(why string) {
		k.bad([]string{"C19"}, "wrong calculated room name", "client %s room %s: %q with other members %v: %s", c.Name, rid, cr.Name, v.Heroes, why)
	}
	i := strings.LastIndex(cr.Name, " and ")
	var n int
	if i < 0 {
		bad("not understood")
		return
	}
	if _, err := fmt.Sscanf(cr.Name[i:], " and %d others", &n); err != nil {
		bad("not understood")
		return
	}
	names := strings.Split(cr.Name[:i], ", ")
	if cr.Name[:i] == "" {
		names = nil
	}
	if n+len(names) != len(v.Heroes) || n < 0 {
		bad(fmt.Sprintf("there are %d other members", len(v.Heroes)))
	}
	left := map[string]int{}
	for _, h := range v.Heroes {
		left[h]++
	}
	for _, x := range names {
		if j := strings.Index(x, " (@"); j > 0 {
			x = x[:j]
		}
		if left[x]--; left[x] < 0 {
			bad(x + " is not the name of a member")
		}
	}
	k.s.Sig("crowdname", len(names), n)
}

// heroes: the members listed for naming the room are members and go by these names
func (k *checker) heroes(c *Client, rid string, cr *CRoom, v *RoomView) {
	for _, h := range cr.Heroes {
		id := str(h["user_id"])
		k.s.Count("c19_heroes", 1)
		n, ok := v.HeroNames[id]
		if !ok {
			k.bad([]string{"C19"}, "wrong heroes", "client %s room %s: %s is listed, other members are %v", c.Name, rid, id, v.HeroNames)
		} else if n != str(h["displayname"]) {
			k.bad([]string{"C19"}, "wrong heroes", "client %s room %s: %s is listed as %q, is called %q", c.Name, rid, id, str(h["displayname"]), n)
		}
	}
	// (when members leave a large room, others are not listed in their place)
	if want := len(v.HeroNames); want > 0 && len(cr.Heroes) == 0 {
		k.bad([]string{"C19"}, "wrong heroes", "client %s room %s: %d listed, other members are %v", c.Name, rid, len(cr.Heroes), v.HeroNames)
	}
}

// splitNames parses a calculated room name into the sorted list of names it was composed of.
func splitNames(n string) ([]string, bool) {
	if n == "Empty Room" {
		return nil, true
	}
	if strings.Contains(n, " others") {
		return nil, false
	}
	n = strings.TrimSuffix(strings.TrimPrefix(n, "Empty Room (was "), ")")
	n = strings.ReplaceAll(n, " and ", ", ")
	out := strings.Split(n, ", ")
	sort.Strings(out)
	return out, true
}

func (k *checker) ext(c *Client, rooms map[string]*RoomView) {
	s := k.s
	us := s.hs.users[c.Dev.UserID]
	if c.ExtOn("account_data") {
		for typ, st := range us.AccountData {
			s.Count("c13_checked", 1)
			if !sameContent(c.GlobalAD[typ], st.Data) {
				k.bad([]string{"C13"}, "wrong global account data", "client %s type %s: has %s expected %s", c.Name, typ, c.GlobalAD[typ], mustJSON(st.Data))
			}
		}
		for rid, cr := range c.Rooms {
			v := rooms[rid]
			if v == nil || v.Invite || !c.Tracked(rid) || !cr.Contig {
				continue
			}
			for typ, st := range us.RoomAD[rid] {
				s.Count("c13_checked", 1)
				if !sameContent(c.RoomAD[rid][typ], st.Data) {
					k.bad([]string{"C13"}, "wrong room account data", "client %s room %s type %s: has %s expected %s", c.Name, rid, typ, c.RoomAD[rid][typ], mustJSON(st.Data))
				}
			}
		}
	}
	if c.ExtOn("to_device") {
		want := c.Dev.ToDevice
		got := c.ToDev
		n := 0
		g, w := "", ""
		gone := map[string]int{} // requests left out: index of the request
		pairs, seen := map[string]int{}, map[string]bool{}
		for i, m := range want {
			if m.Pair == "" {
				continue
			}
			if !m.Cancel {
				pairs[m.Pair] = i
			} else if _, ok := pairs[m.Pair]; ok {
				seen[m.Pair] = m.MustPair
			}
		}
		skip := func(m ToDevice) bool {
			must, cancelled := seen[m.Pair]
			if m.Pair == "" || !cancelled || must {
				return false
			}
			if m.Cancel {
				_, ok := gone[m.Pair]
				return ok
			}
			gone[m.Pair] = n
			s.Count("c09_withheld", 1)
			return true
		}
		for _, raw := range got {
			gs := string(mustCanon(raw))
			for n < len(want) && gs != string(mustCanon(want[n].Raw)) && skip(want[n]) {
				n++
			}
			if n < len(want) && gs == string(mustCanon(want[n].Raw)) {
				n++
				continue
			}
			again := false
			for _, m := range want[:n] {
				if c.Dev.tdAgain[m.Key] && string(mustCanon(m.Raw)) == gs {
					again = true
					s.Count("todevice_redelivered_after_kill", 1)
				}
			}
			if !again {
				g = gs
				break
			}
		}
		for g == "" && n < len(want) && skip(want[n]) {
			n++
		}
		s.Count("c09_checked", len(got))
		if !s.prof.TDCancel && (g != "" || n < len(want)) {
			if g == "" {
				g = "<end>"
			}
			w = "<end>"
			if n < len(want) {
				w = string(want[n].Raw)
			}
			k.bad([]string{"C09"}, "to-device messages lost, duplicated or reordered", "client %s: %d received, %d sent; first difference at %d: got %s want %s", c.Name, len(got), len(want), n, g, w)
		}
	}
	if c.ExtOn("e2ee") {
		if c.OTK != nil && c.Dev.OTK != nil && !reflect.DeepEqual(c.OTK, c.Dev.OTK) {
			k.bad([]string{"C10"}, "wrong one-time key counts", "client %s: %v expected %v", c.Name, c.OTK, c.Dev.OTK)
		}
		if c.OTK == nil && c.Dev.OTK != nil {
			k.bad([]string{"C10"}, "one-time key counts never sent", "client %s expected %v", c.Name, c.Dev.OTK)
		}
		if c.Dev.Fallback != nil && (!c.FallbackSet || fmt.Sprint(c.Fallback) != fmt.Sprint(c.Dev.Fallback)) {
			k.bad([]string{"C10"}, "wrong fallback keys", "client %s: %v (set=%v) expected %v", c.Name, c.Fallback, c.FallbackSet, c.Dev.Fallback)
		}
		want := map[string]bool{}
		due := true
		for _, d := range c.Dev.DL {
			want[d.User] = d.Left
		}
		got := map[string]bool{}
		for _, d := range c.DLEvents {
			got[d.User] = d.Left
		}
		for _, d := range c.Dev.DL {
			if g, ok := got[d.User]; d.Pos > c.Dev.dlFrom && (!ok || g != want[d.User]) {
				due = false
			}
		}
		for u := range got {
			if _, ok := want[u]; !ok {
				due = false
			}
		}
		s.Count("c10_checked", 1)
		if !due {
			k.bad([]string{"C10"}, "device list changes lost", "client %s: has %v expected %v", c.Name, got, want)
		}
	}
	for rid, cr := range c.Rooms {
		v := rooms[rid]
		if v == nil || v.Invite || !c.Tracked(rid) || !cr.Contig {
			continue
		}
		room := s.hs.rooms[rid]
		if c.ExtOn("typing") && room.TypePos > cr.QPos && s.typingDue(room) {
			s.Count("c26_checked", 1)
			got := append([]string{}, c.Typing[rid]...)
			want := append([]string{}, room.Typing...)
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				k.bad([]string{"C26"}, "wrong typing users", "client %s room %s: %v expected %v", c.Name, rid, got, want)
			}
		}
		if c.ExtOn("receipts") {
			inTL := map[string]bool{}
			for i := 0; i < cr.InitTL && i < len(cr.Timeline); i++ {
				inTL[cr.Timeline[i].ID] = true
			}
			type rk struct {
				u, t string
				p    bool
			}
			last := map[rk]Receipt{}
			for _, rc := range room.Receipts {
				if rc.Private && rc.UserID != c.Dev.UserID {
					continue
				}
				last[rk{rc.UserID, rc.ThreadID, rc.Private}] = rc
			}
			for _, rc := range last {
				if rc.ThreadID != "" && room.unthreadedOn(rc) {
					continue // an unthreaded receipt takes the place of a threaded one
				}
				if rc.ThreadID != "" && !rc.Reported {
					continue
				}
				due := rc.Pos > cr.QPos
				if !due && rc.Pos <= cr.InitPos && inTL[rc.EventID] && s.prof.StrictReceipts {
					due = true
				}
				if !due {
					continue
				}
				kind := "m.read"
				if rc.Private {
					kind = "m.read.private"
				}
				s.Count("c12_checked", 1)
				got := c.Receipts[rid][rcptKey(rc.UserID, kind, rc.ThreadID)]
				if got.EventID != rc.EventID {
					k.bad([]string{"C12"}, "receipt missing", "client %s room %s: %+v, client has %+v", c.Name, rid, rc, got)
				}
			}
		}
	}
}

// typingDue: one device at a time is responsible for a room's typing notices, and gives that up when its
// user leaves; notices that come while a departure is being processed are not promised. Lock held.
func (s *Sim) typingDue(room *Room) bool {
	for _, e := range room.Events {
		if e.Type == "m.room.member" && e.StateKey != nil && e.Membership() != "join" && e.Membership() != "invite" {
			a, b := e.Pos, room.TypePos
			if a > b {
				a, b = b, a
			}
			if !s.hs.settledBetween(a, b) {
				return false
			}
		}
	}
	return true
}

func sameContent(raw json.RawMessage, want J) bool {
	if raw == nil {
		return false
	}
	var d struct {
		Content any `json:"content"`
	}
	if json.Unmarshal(raw, &d) != nil {
		return false
	}
	return string(mustJSON(d.Content)) == string(mustCanon(mustJSON(want)))
}

// MarkQuiescent records that everything up to now has been seen.
func (s *Sim) MarkQuiescent() {
	s.hs.With(func() {
		for _, c := range s.clients {
			for rid, cr := range c.Rooms {
				if c.Tracked(rid) && cr.Contig {
					cr.QPos = s.hs.pos
				}
			}
			for _, l := range c.Lists {
				if l.Cfg.Bump == nil || c.Pos == "" {
					continue
				}
				lbs, ubs := map[string]int64{}, map[string]int64{}
				for i, rid := range l.M {
					if l.Cfg.InRange(i) {
						lbs[rid], ubs[rid] = s.bumpBounds(c, l, rid, l.BumpSince)
					}
				}
				l.BumpLB, l.BumpUB, l.BumpSince, l.bumpSession = lbs, ubs, s.hs.pos, c.Session
			}
		}
	})
}

// unthreadedOn: has the user had an unthreaded receipt of the kind of rc on the same event
func (room *Room) unthreadedOn(rc Receipt) bool {
	for _, o := range room.Receipts {
		if o.ThreadID == "" && o.UserID == rc.UserID && o.Private == rc.Private && o.EventID == rc.EventID {
			return true
		}
	}
	return false
}
