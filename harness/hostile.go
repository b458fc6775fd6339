package zzverif

// Malformed input: garbage mixed into the homeserver's responses, hostile event content, and garbage
// requests from clients. Everything well-formed has to come out as if the garbage was not there.

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

func isObjWithType(ev json.RawMessage) bool {
	var x struct {
		Type *string `json:"type"`
	}
	return json.Unmarshal(ev, &x) == nil && x.Type != nil && *x.Type != ""
}

func wellFormed(evs []json.RawMessage) []json.RawMessage {
	out := []json.RawMessage{}
	for _, ev := range evs {
		if isObjWithType(ev) {
			out = append(out, ev)
		}
	}
	return out
}

// sanitize: what a client ignores anyway
func (r *Resp) sanitize() {
	if x := r.Extensions.ToDevice; x != nil {
		x.Events = wellFormed(x.Events)
	}
	if x := r.Extensions.AccountData; x != nil {
		x.Global = wellFormed(x.Global)
		for rid := range x.Rooms {
			if strings.HasPrefix(rid, "!junk") {
				delete(x.Rooms, rid)
				continue
			}
			x.Rooms[rid] = wellFormed(x.Rooms[rid])
		}
	}
	for rid, rr := range r.Rooms {
		if rr.InviteState != nil {
			rr.InviteState = wellFormed(rr.InviteState)
			r.Rooms[rid] = rr
		}
	}
}

var garbageEvents = []string{
	`null`, `5`, `"x"`, `[]`, `{}`, `true`, `[{"type":"m.room.message"}]`,
	`{"type":"m.room.message","content":{"body":"no id"}}`,
	`{"event_id":"$GARB","content":{"body":"no type"}}`,
	`{"event_id":5,"type":"m.room.message","content":{}}`,
	`{"event_id":"$GARB","type":5,"content":{}}`,
	`{"event_id":null,"type":null}`,
	`{"event_id":"$GARB","type":"m.room.member","state_key":"@ghost:hs","sender":"@ghost:hs","content":{}}`,
	`{"event_id":"$GARB","type":"m.room.member","state_key":"@ghost:hs","sender":"@ghost:hs","content":null}`,
	`{"event_id":"$GARB","type":"m.room.member","state_key":"@ghost:hs","sender":"@ghost:hs","content":{"membership":5}}`,
	`{"event_id":"$GARB","type":"m.room.member","state_key":"@ghost:hs","sender":"@ghost:hs","content":{"membership":""}}`,
}

// (no type, so nothing any consumer could be waiting for)
var garbageOther = []string{`null`, `5`, `"x"`, `[]`, `{}`, `{"content":{}}`, `{"type":5,"content":{}}`, `{"type":null}`, `{"sender":"@ghost:hs"}`}

var garbageEphemeral = []string{`null`, `5`, `{}`, `[]`, `{"type":5}`, `{"type":"m.receipt"}`, `{"type":"m.receipt","content":5}`, `{"type":"m.receipt","content":{"$x":5}}`,
	`{"type":"m.receipt","content":{"$x":{"m.read":5}}}`, `{"type":"m.receipt","content":{"$x":{"m.read":{"@ghost:hs":{"ts":"soon"}}}}}`, `{"type":"m.receipt","content":{"$x":{"m.read":{"@ghost:hs":null}}}}`,
	`{"type":"m.presence","content":{"presence":"online"}}`, `{"type":"m.receipt","content":[]}`}

// garble adds garbage to a response. The same request gets the same garbage when it is repeated.
func (s *Sim) garble(d *Dev, since int64, resp J) {
	h := fnv.New64a()
	fmt.Fprint(h, s.seed, d.DeviceID, since)
	rng := rand.New(rand.NewSource(int64(h.Sum64())))
	n := 0
	mix := func(list any, pool []string) []json.RawMessage {
		evs, _ := list.([]json.RawMessage)
		evs = append([]json.RawMessage{}, evs...)
		for k := 1 + rng.Intn(3); k > 0; k-- {
			n++
			g := json.RawMessage(strings.ReplaceAll(pool[rng.Intn(len(pool))], "$GARB", fmt.Sprintf("$garb%d-%d-%s", since, n, d.DeviceID)))
			at := rng.Intn(len(evs) + 1)
			evs = append(evs[:at], append([]json.RawMessage{g}, evs[at:]...)...)
		}
		return evs
	}
	sub := func(m J, key string) J {
		x, ok := m[key].(J)
		if !ok {
			x = J{}
			m[key] = x
		}
		return x
	}
	put := func(m J, key string, pool []string, p float64) {
		if rng.Float64() < p {
			x := sub(m, key)
			x["events"] = mix(x["events"], pool)
		}
	}
	put(resp, "account_data", garbageOther, 0.3)
	put(resp, "to_device", garbageOther, 0.2)
	if resp["rooms"] == nil {
		return
	}
	rooms := sub(resp, "rooms")
	join := sub(rooms, "join")
	var ids []string
	for id := range join {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		e := join[id].(J)
		if tl, ok := e["timeline"].(J); ok && rng.Float64() < 0.4 {
			evs := tl["events"].([]json.RawMessage)
			first := evs[0]
			evs = mix(evs, garbageEvents)
			if fmt.Sprint(tl["limited"]) == "true" || since == 0 {
				// (the token goes with the first event)
				for string(evs[0]) != string(first) {
					evs = append(evs[1:], evs[0])
				}
			}
			tl["events"] = evs
		}
		if e["state"] != nil {
			put(e, "state", garbageEvents, 0.4)
		} else if !strings.Contains(string(mustJSON(e)), "m.room.create") {
			// (a create event in the timeline is moved to a state block which has none)
			put(e, "state", garbageEvents, 0.1)
		}
		put(e, "ephemeral", garbageEphemeral, 0.3)
		put(e, "account_data", garbageOther, 0.2)
	}
	// rooms nothing can be made of
	if rng.Float64() < 0.5 {
		id := fmt.Sprintf("!junk%d-%s:hs", rng.Intn(5), s.nonce)
		j := J{}
		mem := json.RawMessage(fmt.Sprintf(`{"event_id":"$jm%d-%s","type":"m.room.member","state_key":%q,"sender":%q,"content":{"membership":"join"},"origin_server_ts":5}`, rng.Intn(1000), d.DeviceID, d.UserID, d.UserID))
		msg := json.RawMessage(fmt.Sprintf(`{"event_id":"$jx%d-%s","type":"m.room.message","sender":%q,"content":{"body":"junk"},"origin_server_ts":5}`, rng.Intn(1000), d.DeviceID, d.UserID))
		switch rng.Intn(7) {
		case 0:
			j["state"] = J{"events": []json.RawMessage{mem}}
		case 1:
			j["timeline"] = J{"events": []json.RawMessage{msg}, "limited": true, "prev_batch": "x"}
		case 2:
			j["state"] = J{"events": mix(nil, garbageEvents)}
			j["timeline"] = J{"events": []json.RawMessage{msg}}
		case 3:
			j["timeline"] = J{"events": mix([]json.RawMessage{msg}, garbageEvents)}
		case 4:
			j["timeline"] = J{"events": mix(nil, garbageEvents)}
		case 5:
			j["ephemeral"] = J{"events": append(mix(nil, garbageEphemeral), json.RawMessage(`{"type":"m.typing","content":{"user_ids":5}}`), json.RawMessage(`{"type":"m.typing"}`))}
		}
		join[id] = j
	}
	if rng.Float64() < 0.2 {
		lv := sub(rooms, "leave")
		lv[fmt.Sprintf("!junkleft%d-%s:hs", rng.Intn(5), s.nonce)] = J{"timeline": J{"events": mix(nil, garbageEvents)}}
	}
	s.Count("c25_garbled", 1)
	s.Count("c25_pieces", n)
}

// mutate replaces parts of a JSON tree.
func mutateTree(rng *rand.Rand, v any, p float64, leaf func() any) any {
	if rng.Float64() < p {
		return leaf()
	}
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			switch {
			case rng.Float64() < p/2:
				continue
			case rng.Float64() < p/3:
				out[junkString(rng)] = x[k]
				continue
			}
			out[k] = mutateTree(rng, x[k], p, leaf)
		}
		return out
	case []any:
		out := []any{}
		for _, y := range x {
			out = append(out, mutateTree(rng, y, p, leaf))
			if rng.Float64() < p/2 {
				out = append(out, leaf())
			}
		}
		return out
	}
	return v
}

func junkString(rng *rand.Rand) string {
	switch rng.Intn(12) {
	case 0:
		return strings.Repeat("long", 70)
	case 1:
		return "a\u0000b"
	case 2:
		return "\U0001F600"
	case 3:
		return "'; DROP TABLE syncv3_events; --"
	case 4:
		return "!r0-x:hs"
	case 5:
		return "*"
	case 6:
		return "%s%d"
	case 7:
		return ".#*?|@"
	}
	return []string{"", "$ME", "$LAZY", "by_name", "m.room.member"}[rng.Intn(5)]
}

func junkValue(rng *rand.Rand) any {
	switch rng.Intn(13) {
	case 0:
		return nil
	case 1:
		return rng.Intn(2) == 0
	case 2:
		return -1
	case 3:
		return 0
	case 4:
		return json.Number("9223372036854775807")
	case 5:
		return json.Number("1e400")
	case 6:
		return 1.5
	case 7:
		return []any{}
	case 8:
		return map[string]any{}
	case 9:
		return []any{[]any{1, 2}, "x", nil}
	case 10:
		return map[string]any{"a": map[string]any{"b": nil}}
	}
	return junkString(rng)
}

func reparse(v any) any {
	dec := json.NewDecoder(strings.NewReader(string(mustJSON(v))))
	dec.UseNumber()
	var out any
	_ = dec.Decode(&out)
	return out
}

// junkBody: a request body, more or less wrong
func (s *Sim) junkBody(conn string, rooms []string) []byte {
	if s.chance(0.08) {
		return []byte(pick(s, []string{"", "null", "[]", "{", `"x"`, "5", "{}{}", "\xff\xfe", `{"lists":`, strings.Repeat("[", 20000), `{"lists":{"a":{"ranges":[[0,5]]}}} trailing`}))
	}
	rid := pick(s, append(rooms, "!nosuch:hs", ""))
	rng := func() any {
		return pick(s, []any{[][2]int{{0, 5}}, [][2]int{{0, 1}, {3, 4}}, [][2]int{{5, 1}}, [][2]int{{-1, 3}}, [][2]int{{0, 3}, {2, 5}}, []any{[]any{0, json.Number("9223372036854775807")}},
			[]any{[]any{0}}, []any{[]any{1, 2, 3}}, []any{}, nil, [][2]int{{1000000, 2000000}}, [][2]int{{0, 0}, {0, 0}}, [][2]int{{2, 2}}, [][2]int{{0, 0}, {1, 1}, {2, 2}}, [][2]int{{3, 4}, {0, 1}}})
	}
	sub := func() J {
		j := J{"timeline_limit": pick(s, []any{1, 5, 0, -1, 1000000, json.Number("9223372036854775807")}),
			"required_state": pick(s, []any{[][]string{{"*", "*"}}, [][]string{{"m.room.member", "$LAZY"}, {"m.room.create", ""}}, [][]string{{"m.room.member"}}, []string{}, [][]string{{"", ""}}, [][]string{{"*", "*"}, {"*", "*"}}, nil})}
		if s.chance(0.5) {
			j["include_old_rooms"] = J{"timeline_limit": 2, "required_state": [][]string{{"*", "*"}}}
		}
		if s.chance(0.3) {
			j["include_heroes"] = true
		}
		return j
	}
	list := func() J {
		j := sub()
		j["ranges"] = rng()
		if s.chance(0.4) {
			j["sort"] = pick(s, []any{[]string{"by_name"}, []string{"by_recency", "by_name"}, []string{"nosuch"}, []string{}, []string{""}, []string{"by_name", "by_name"}, []string{"by_notification_level", "by_highlight_count", "by_notification_count"}})
		}
		if s.chance(0.4) {
			j["filters"] = pick(s, []any{J{"is_dm": true}, J{"spaces": []string{rid, ""}}, J{"room_types": []any{nil, "m.space"}, "not_room_types": []any{nil}}, J{"tags": []string{""}, "not_tags": []string{"u.x"}}, J{"room_name_like": "("}, J{}, J{"is_tombstoned": true, "is_encrypted": false, "is_invite": true}})
		}
		if s.chance(0.2) {
			j["slow_get_all_rooms"] = s.chance(0.5)
		}
		if s.chance(0.2) {
			j["deleted"] = true
		}
		if s.chance(0.3) {
			j["bump_event_types"] = pick(s, []any{[]string{}, []string{""}, []string{"m.room.message"}, []string{"nosuch"}})
		}
		return j
	}
	b := J{"conn_id": conn}
	lists := J{}
	for i := 0; i < 1+s.rng.Intn(3); i++ {
		lists[pick(s, []string{"a", "b", "", "c", "long" + strings.Repeat("x", 100)})] = list()
	}
	b["lists"] = lists
	if s.chance(0.5) {
		b["room_subscriptions"] = J{rid: sub(), pick(s, append(rooms, "x")): sub()}
	}
	if s.chance(0.3) {
		b["unsubscribe_rooms"] = []string{rid, "!nosuch:hs"}
	}
	if s.chance(0.3) {
		b["txn_id"] = pick(s, []string{"t", strings.Repeat("t", 64), strings.Repeat("t", 65)})
	}
	ext := J{}
	for _, e := range allExt {
		if s.chance(0.5) {
			x := J{"enabled": pick(s, []any{true, true, true, false, nil})}
			if s.chance(0.4) {
				x["lists"] = pick(s, []any{[]string{"a"}, []string{"*"}, []string{"nosuch"}, []string{}, nil})
			}
			if s.chance(0.4) {
				x["rooms"] = pick(s, []any{[]string{rid}, []string{"*"}, []string{""}, []string{}, nil})
			}
			if e == "to_device" {
				x["since"] = pick(s, []any{"0", "-5", "abc", "99999999999999999999", "", "1"})
				x["limit"] = pick(s, []any{0, -1, 5, 1000000})
			}
			ext[e] = x
		}
	}
	b["extensions"] = ext
	tree := reparse(b)
	if s.chance(0.6) {
		tree = mutateTree(s.rng, tree, 0.01+s.rng.Float64()*0.08, func() any { return junkValue(s.rng) })
	}
	if m, ok := tree.(map[string]any); ok && !s.chance(0.1) {
		m["conn_id"] = conn
	}
	out, err := json.Marshal(tree)
	if err != nil {
		return []byte("{}")
	}
	return out
}

// FuzzRequests: requests of the junk user; they must all be answered, one way or the other.
func (s *Sim) FuzzRequests() {
	d := s.junk
	if d == nil {
		return
	}
	var rooms []string
	for _, r := range s.rooms {
		rooms = append(rooms, r.ID)
	}
	for _, r := range s.junkRooms {
		rooms = append(rooms, r.ID)
	}
	var wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		conn := fmt.Sprintf("fz%d", k)
		var bodies [][]byte
		for i := 0; i < 3; i++ {
			bodies = append(bodies, s.junkBody(conn, rooms))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.fuzzChain(conn, bodies)
		}()
	}
	wg.Wait()
}

func (s *Sim) fuzzChain(conn string, bodies [][]byte) {
	d := s.junk
	pos := ""
	for _, body := range bodies {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		began := time.Now()
		res := s.proxy.Sync(ctx, d.Token, pos, 0, body)
		cancel()
		s.Count("c25_requests", 1)
		s.hs.With(func() {
			s.hs.logf("fuzz pos=%s %s", pos, tail(string(body), 3000))
			s.hs.logf("fuzz -> %d %s %v", res.Code, tail(string(res.Body), 400), res.Err)
		})
		if res.Err != nil {
			s.dumpStacks()
			s.Violate([]string{"C25", "C20"}, "a request got no answer", fmt.Sprintf("pos %q after %v: %v; body %s", pos, time.Since(began), res.Err, tail(string(body), 3000)))
			return
		}
		s.Count(fmt.Sprintf("c25_status_%d", res.Code), 1)
		if res.Code >= 500 || res.Code < 200 {
			s.Violate([]string{"C25", "C20"}, "a malformed request was not refused as such", fmt.Sprintf("%d %s; pos %q body %s", res.Code, tail(string(res.Body), 500), pos, tail(string(body), 3000)))
			return
		}
		if res.Code != 200 {
			if strings.Contains(string(res.Body), "M_UNKNOWN_POS") {
				pos = ""
			}
			continue
		}
		var r Resp
		if err := json.Unmarshal(res.Body, &r); err != nil {
			s.Violate([]string{"C25"}, "unparseable response", fmt.Sprintf("%v: %s; body %s", err, tail(string(res.Body), 1000), tail(string(body), 3000)))
			return
		}
		s.Sig("fuzz", len(r.Lists), len(r.Rooms), res.Code)
		if strings.Contains(string(body), `"conn_id":"`+conn+`"`) {
			pos = r.Pos
		}
		// what the others may not see
		for rid, rr := range r.Rooms {
			var room *Room
			s.hs.With(func() { room = s.hs.rooms[rid] })
			if room == nil {
				continue
			}
			s.hs.With(func() {
				if room.MemberEv(d.UserID, maxPos) == nil && (len(rr.Timeline)+len(rr.RequiredState) > 0 || rr.Name != nil) {
					s.Violate([]string{"C25", "C01"}, "data of a room the user has nothing to do with", fmt.Sprintf("room %s: %s", rid, tail(string(res.Body), 1000)))
				}
			})
		}
	}
}

// weird: valid events whose content is not what anybody expects
func (s *Sim) Weird() {
	r, u := s.joinedRoomUser()
	if r == nil {
		return
	}
	if s.junk != nil && s.chance(0.4) && len(s.junkRooms) > 0 {
		r, u = pick(s, s.junkRooms), s.junk.UserID
	}
	any_ := func() any { return junkValue(s.rng) }
	typ := pick(s, []string{"m.room.topic", "m.room.avatar", "m.room.join_rules", "m.room.power_levels", "m.room.history_visibility", "m.room.guest_access", "m.room.message", "m.custom", "", strings.Repeat("t", 300), "m.room.pinned_events", "m.call.member", "m.room.redaction.x"})
	c := J{}
	for _, k := range []string{"url", "topic", "join_rule", "body", "msgtype", "users", "info", "m.relates_to", "via", "name", "alias", "membership", "displayname", "redacts_", "tags"} {
		if s.chance(0.3) {
			c[k] = any_()
		}
	}
	delete(c, "url")
	if s.chance(0.05) {
		deep := any(1)
		for i := 0; i < 500; i++ {
			deep = []any{deep}
		}
		c["deep"] = deep
	}
	for k, v := range c {
		if n, ok := v.(json.Number); ok && n == "1e400" {
			c[k] = 1
		}
	}
	var sk *string
	if typ != "m.room.message" && s.chance(0.6) {
		sk = sp(pick(s, []string{"", "x", "@ghost:hs", strings.Repeat("k", 255)}))
		if strings.HasPrefix(typ, "m.room.") {
			sk = sp("")
		}
	}
	s.step("weird %q %v in %s", typ, keyOf(sk), r.ID)
	s.hs.Do(func() { s.hs.send(r, typ, sk, u, c, "", "", "") })
	s.Count("c25_weird", 1)
}

// JunkRoom: a room of the junk user alone whose creation data is odd.
func (s *Sim) JunkRoom() {
	d := s.junk
	if d == nil || len(s.junkRooms) > 6 {
		return
	}
	id := fmt.Sprintf("!jr%d-%s:hs", len(s.hs.rooms), s.nonce)
	prev := pick(s, []string{id, "!nosuch:hs", ""})
	if n := len(s.junkRooms); n > 0 && s.chance(0.5) {
		prev = s.junkRooms[s.rng.Intn(n)].ID
	}
	r := s.hs.NewRoom(id)
	r.Version = "10"
	s.hs.Do(func() {
		c := J{"creator": d.UserID, "predecessor": pick(s, []any{J{"room_id": prev}, J{"room_id": prev, "event_id": "$x"}, J{"room_id": 5}, "x", nil, []any{}}), "type": pick(s, []any{nil, 5, "m.space", J{}, ""}), "room_version": pick(s, []any{"10", 5, nil, "nosuch"})}
		s.hs.send(r, "m.room.create", sp(""), d.UserID, c, "", "", "")
		s.hs.send(r, "m.room.member", sp(d.UserID), d.UserID, J{"membership": "join", "displayname": junkValueFinite(s.rng), "avatar_url": junkValueFinite(s.rng)}, "", "", "")
		for _, t := range []string{"m.room.name", "m.room.canonical_alias", "m.room.encryption", "m.room.tombstone", "m.room.avatar", "m.space.child", "m.space.parent", "m.room.power_levels"} {
			if s.chance(0.5) {
				sk := ""
				if strings.HasPrefix(t, "m.space") {
					sk = pick(s, []string{"", id, "!nosuch:hs", "x"})
				}
				s.hs.send(r, t, sp(sk), d.UserID, J{"name": junkValueFinite(s.rng), "alias": junkValueFinite(s.rng), "algorithm": junkValueFinite(s.rng), "replacement_room": pick(s, []any{id, prev, 5, nil}), "url": junkValueFinite(s.rng), "via": junkValueFinite(s.rng), "users": junkValueFinite(s.rng)}, "", "", "")
			}
		}
	})
	s.SetRoomAD(d.UserID, r, "m.tag", J{"tags": junkValueFinite(s.rng)})
	s.SetGlobalAD(d.UserID, pick(s, []string{"m.direct", "m.ignored_user_list", "m.push_rules", "x"}), J{"ignored_users": junkValueFinite(s.rng), d.UserID: junkValueFinite(s.rng), "x": []any{id, 5}})
	s.junkRooms = append(s.junkRooms, r)
	s.step("junk room %s", id)
}

func junkValueFinite(rng *rand.Rand) any {
	for {
		v := junkValue(rng)
		if n, ok := v.(json.Number); ok && n == "1e400" {
			continue
		}
		return v
	}
}

// Canary: after all the garbage the junk user still gets what is new.
func (s *Sim) Canary() {
	d := s.junk
	if d == nil || len(s.viols) > 0 {
		return
	}
	var e *Ev
	s.hs.Do(func() { e = s.hs.send(s.canary, "m.room.message", nil, d.UserID, J{"body": "canary"}, "", "", "") })
	if !s.Settle() {
		return
	}
	body := mustJSON(J{"conn_id": "canary", "room_subscriptions": J{s.canary.ID: J{"timeline_limit": 3}}})
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	res := s.proxy.Sync(ctx, d.Token, "", 0, body)
	s.Count("c25_canaries", 1)
	if res.Err != nil || res.Code != 200 || !strings.Contains(string(res.Body), e.ID) {
		s.Violate([]string{"C25"}, "nothing gets through any more", fmt.Sprintf("event %s: %d %s %v", e.ID, res.Code, tail(string(res.Body), 1500), res.Err))
	}
}

func init() {
	prof("hostile", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 60, NoSettle: 0.3, As: []string{"C25"}, Hostile: true, NoExpire: false, Env: []string{"VERIF_FAST_POLL_BACKOFF=1", "SYNCV3_DEBUG=0"},
			W: weights(wMsg, wMember, map[string]int{"sync": 10, "check": 3, "ranges": 2, "sub": 2, "unsub": 1, "newconn": 1, "restart": 1,
				"unread": 2, "roomad": 3, "globalad": 3, "todevice": 3, "devlist": 2, "receipt": 3, "typing": 2, "tag": 1,
				"fuzz": 6, "weird": 10, "junkroom": 4}),
			Setup: func(s *Sim) {
				uid := fmt.Sprintf("@junk-%s:hs", s.nonce)
				s.hs.AddUser(uid)
				s.junk = s.hs.AddDevice(uid, "DJ_"+s.nonce, "tokj_"+s.nonce)
				s.canary = s.hs.NewRoom(fmt.Sprintf("!canary-%s:hs", s.nonce))
				s.canary.Version = "10"
				s.hs.Do(func() {
					s.hs.send(s.canary, "m.room.create", sp(""), uid, J{"creator": uid, "room_version": "10"}, "", "", "")
					s.hs.send(s.canary, "m.room.member", sp(uid), uid, J{"membership": "join"}, "", "", "")
				})
				s.hs.Mangle = s.garble
			},
			Check: func(s *Sim) { s.Canary() },
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
}
