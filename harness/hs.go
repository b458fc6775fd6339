package zzverif

// A model homeserver: it owns the ground truth (rooms, events, memberships,
// account data, receipts, to-device queues, ...) and serves it to the proxy
// through the real client-server sync v2 API with real since-token semantics.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type J = map[string]any

// Ev is an immutable event in a room.
type Ev struct {
	ID       string
	Type     string
	Sender   string
	StateKey *string
	Content  J
	TS       int64
	Pos      int64 // global stream position
	Idx      int   // index in the room
	RoomID   string
	Redacts  string
	Prev     *Ev    // the state event this one replaces
	TxnToken string // token of the sending device, if sent with a transaction id
	TxnID    string
	SentAt   time.Time
	ShownTo  map[string]int64 // token -> position of the first poll response with it in a timeline
	// bookkeeping about what the proxy was given
	DeliveredTL    bool // in some timeline section
	DeliveredState bool // in some state section
	Forged         bool // malformed stuff; excluded from oracles
	RedactedBy     *Ev
	Orig           J // content before it was redacted
}

func (e *Ev) IsState() bool { return e.StateKey != nil }

func (e *Ev) Membership() string {
	m, _ := e.Content["membership"].(string)
	return m
}

// JSON renders the event for a given receiving device token.
func (e *Ev) JSON(token string) json.RawMessage {
	j := J{
		"event_id":         e.ID,
		"type":             e.Type,
		"sender":           e.Sender,
		"content":          e.Content,
		"origin_server_ts": e.TS,
	}
	if e.StateKey != nil {
		j["state_key"] = *e.StateKey
	}
	if e.Redacts != "" {
		j["redacts"] = e.Redacts
	}
	un := J{}
	if e.TxnID != "" && e.TxnToken == token {
		un["transaction_id"] = e.TxnID
	}
	if e.Prev != nil {
		un["prev_content"] = e.Prev.Content
		un["replaces_state"] = e.Prev.ID
	}
	if r := e.RedactedBy; r != nil {
		un = J{"redacted_because": J{"event_id": r.ID, "type": r.Type, "sender": r.Sender, "content": r.Content, "origin_server_ts": r.TS}}
	}
	if len(un) > 0 {
		j["unsigned"] = un
	}
	b, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	return b
}

type Stamped struct {
	Pos  int64
	Type string
	Data J
	// sometimes the value before this one is told as well
	PrevPos int64
	Prev    J
}

type Receipt struct {
	Pos      int64
	EventID  string
	UserID   string
	Private  bool
	ThreadID string
	TS       int64
	Reported bool // some poller was given it
}

type Served struct {
	First, Last int // event indices
	Limited     bool
	Dev         string
	Leave       bool
}

type Room struct {
	ID       string
	RoomType string
	Version  string
	Events   []*Ev
	ByID     map[string]*Ev
	Receipts []Receipt
	Typing   []string
	TypePos  int64
	// position at which a poller was first given the room
	FirstServed int64
	Served      []Served // the timelines given to pollers
	// OutOfBand rooms are rooms only known through invites.
	hs *HS
}

// Member returns the last membership event of the user at or before pos.
func (r *Room) MemberEv(user string, pos int64) *Ev {
	for i := len(r.Events) - 1; i >= 0; i-- {
		e := r.Events[i]
		if e.Pos <= pos && e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == user {
			return e
		}
	}
	return nil
}

func (r *Room) Membership(user string, pos int64) string {
	e := r.MemberEv(user, pos)
	if e == nil {
		return ""
	}
	return e.Membership()
}

const maxPos = int64(1) << 60

// StateAt folds the state from all events with Pos <= pos.
func (r *Room) StateAt(pos int64) map[[2]string]*Ev {
	st := map[[2]string]*Ev{}
	for _, e := range r.Events {
		if e.Pos > pos {
			break
		}
		if e.StateKey != nil && !e.Forged {
			st[[2]string{e.Type, *e.StateKey}] = e
		}
	}
	return st
}

func (r *Room) Cur() map[[2]string]*Ev { return r.StateAt(maxPos) }

func (r *Room) MembersWith(ms string) []string {
	var out []string
	for k, e := range r.Cur() {
		if k[0] == "m.room.member" && e.Membership() == ms {
			out = append(out, k[1])
		}
	}
	sort.Strings(out)
	return out
}

func (r *Room) Last() *Ev {
	if len(r.Events) == 0 {
		return nil
	}
	return r.Events[len(r.Events)-1]
}

// Stay is an interval of room event indexes during which a user was joined: [From,To], To inclusive
// (the leave event itself is included). To = maxint if still joined.
type Stay struct {
	From, To int
	Open     bool
}

func (r *Room) Stays(user string) []Stay {
	var out []Stay
	joined := false
	for _, e := range r.Events {
		if e.Type != "m.room.member" || e.StateKey == nil || *e.StateKey != user {
			continue
		}
		m := e.Membership()
		if m == "join" && !joined {
			out = append(out, Stay{From: e.Idx, To: 1 << 30, Open: true})
			joined = true
		} else if m != "join" && joined {
			out[len(out)-1].To = e.Idx
			out[len(out)-1].Open = false
			joined = false
		}
	}
	return out
}

type Unread struct {
	Pos  int64
	N, H int
}

type User struct {
	ID          string
	AccountData map[string]Stamped            // type
	RoomAD      map[string]map[string]Stamped // room -> type
	Unread      map[string]Unread
	InviteState map[string][]json.RawMessage
	InviteHist  map[string]map[string]bool // every stripped event given for a room
	Ignores     []IgnoreVer                // every version of the ignore list
}

type IgnoreVer struct {
	Pos int64
	Who map[string]bool
}

type ToDevice struct {
	Pos      int64
	Raw      json.RawMessage
	Key      string
	Pair     string // key request and its cancellation
	Cancel   bool
	MustPair bool // the request had been delivered when it was cancelled
}

type DLChange struct {
	Pos  int64
	User string
	Left bool
}

type Dev struct {
	Token    string
	UserID   string
	DeviceID string
	Valid    bool
	Paused   bool

	ToDevice []ToDevice
	DL       []DLChange
	OTK      map[string]int
	Fallback []string
	KeysPos  int64

	// poll bookkeeping
	Active     bool // a poller for it has been seen in this proxy generation
	waiting    bool
	waitPos    int64
	inflight   []*Poll // polls of this proxy generation which are being served
	Polls      int
	dead       bool          // its poller has been stopped: it is polled again when a client comes back
	failNext   []int         // status codes to serve instead
	failAll    int           // status code to serve to all polls
	chain      Chain         // for the check that polls continue where they should
	slow       time.Duration // delay of responses
	failed     int
	lastReject time.Time
	maxTL      int   // cap on timeline limit for the next poll (0 = none)
	holdAfter  int64 // don't deliver beyond this pos when > 0
	whoami     int
	// ack tracking for to-device: highest since this device polled with
	Acked  int64
	served int64 // highest position served to a poll
	dlFrom int64 // position of the latest initial sync: those carry no earlier device list changes
	// to-device messages which were in a response that the proxy was still processing when it was
	// killed may be delivered again
	tdAgain map[string]bool
	gen     int
}

// Poll is a sync v2 request being served.
type Poll struct {
	tok    string
	since  string
	zombie bool // of a poller that has been told to stop: its response has to be ignored
}

// Chain is where the polls of a device are known to have got to.
type Chain struct {
	live   bool // the same poller goes on
	tok    string
	since  string
	next   string // next_batch of the last response ("" if it failed)
	first  bool   // the last response was the first one of this poller
	td     bool   // the last response carried to-device messages
	stored int64  // this position is known to have been stored
	nexts  map[string]bool
}

type HS struct {
	mu      sync.Mutex
	changed chan struct{}
	pos     int64
	// JoinedHistory: new joiners do not see events from before their join in their timeline
	JoinedHistory bool
	settles       []int64 // positions at which everything was known to be ingested
	ts            int64
	nev           int
	nonce         string
	rooms         map[string]*Room
	order         []string
	users         map[string]*User
	devs          map[string]*Dev
	devList       []*Dev
	srv           *httptest.Server
	gen           int
	closed        bool
	oplog         []string

	// hostile behaviour hooks
	Mangle func(d *Dev, since int64, resp J) // called with the lock held before the response is sent
	OnPoll func(d *Dev, since string)        // lock held

	// Freeze: polls with a position are told that nothing happened
	Freeze       bool
	TDReplayOK   bool
	CheckChain   bool
	OnBad        func(kind, detail string) // lock held
	revoked      map[string]int            // tokens and the status polls with them get
	told         map[string]bool           // tokens which the proxy has refused to a client since
	rejects      map[string]int            // polls refused, by token
	versionsDown bool
	whoamiCode   int
	OverlapBack  func(d *Dev, r *Room) int // extra already-sent events to include at the head of a timeline
}

func NewHS(nonce string) *HS {
	hs := &HS{
		nonce: nonce, rooms: map[string]*Room{}, users: map[string]*User{}, devs: map[string]*Dev{},
		changed: make(chan struct{}), ts: 1700000000000,
		revoked: map[string]int{}, told: map[string]bool{}, rejects: map[string]int{},
	}
	mux := http.NewServeMux()
	mux.HandleFunc("/_matrix/client/versions", func(w http.ResponseWriter, r *http.Request) {
		writeJSON(w, 200, J{"versions": []string{"v1.1"}})
	})
	mux.HandleFunc("/_matrix/client/r0/account/whoami", hs.handleWhoami)
	mux.HandleFunc("/_matrix/client/v3/account/whoami", hs.handleWhoami)
	mux.HandleFunc("/_matrix/client/r0/sync", hs.handleSync)
	mux.HandleFunc("/_matrix/client/v3/sync", hs.handleSync)
	// every proxy incarnation gets a base URL of its own: stragglers of a stopped one reach nothing
	hs.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var gen int
		rest := ""
		if strings.HasPrefix(r.URL.Path, "/g") {
			if i := strings.Index(r.URL.Path[1:], "/"); i > 0 {
				gen, _ = strconv.Atoi(r.URL.Path[2 : i+1])
				rest = r.URL.Path[i+1:]
			}
		}
		hs.mu.Lock()
		cur := hs.gen
		hs.mu.Unlock()
		if rest == "" || gen != cur {
			panic(http.ErrAbortHandler)
		}
		r.URL.Path = rest
		mux.ServeHTTP(w, r)
	}))
	return hs
}

// URL is the base URL for the current proxy incarnation.
func (hs *HS) URL() string {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	return fmt.Sprintf("%s/g%d", hs.srv.URL, hs.gen)
}

func (hs *HS) Close() {
	hs.mu.Lock()
	hs.closed = true
	hs.wake()
	hs.mu.Unlock()
	hs.srv.CloseClientConnections()
	hs.srv.Close()
}

func (hs *HS) logf(f string, a ...any) {
	if len(hs.oplog) > 20000 {
		return
	}
	hs.oplog = append(hs.oplog, fmt.Sprintf("[%d] ", hs.pos)+fmt.Sprintf(f, a...))
}

func (hs *HS) wake() {
	close(hs.changed)
	hs.changed = make(chan struct{})
}

func (hs *HS) bump() int64 {
	hs.pos++
	return hs.pos
}

func writeJSON(w http.ResponseWriter, code int, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Content-Length", strconv.Itoa(len(b)))
	w.WriteHeader(code)
	w.Write(b)
}

func tokenOf(r *http.Request) string {
	return strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")
}

func (hs *HS) handleWhoami(w http.ResponseWriter, r *http.Request) {
	hs.mu.Lock()
	d := hs.devs[tokenOf(r)]
	code := hs.whoamiCode
	ok := d != nil && hs.revoked[tokenOf(r)] == 0
	if d != nil {
		d.whoami++
	}
	hs.mu.Unlock()
	if code != 0 {
		writeJSON(w, code, J{"errcode": "M_UNKNOWN"})
		return
	}
	if !ok {
		writeJSON(w, 401, J{"errcode": "M_UNKNOWN_TOKEN"})
		return
	}
	writeJSON(w, 200, J{"user_id": d.UserID, "device_id": d.DeviceID})
}

func (hs *HS) handleSync(w http.ResponseWriter, r *http.Request) {
	q := r.URL.Query()
	sinceStr := q.Get("since")
	var since int64
	if sinceStr != "" {
		fmt.Sscanf(sinceStr, "s%d", &since)
	}
	timeout, _ := strconv.Atoi(q.Get("timeout"))
	limit := 10
	noRooms := false
	if f := q.Get("filter"); f != "" {
		var flt struct {
			Room struct {
				Timeline struct {
					Limit int `json:"limit"`
				} `json:"timeline"`
				Rooms *[]string `json:"rooms"`
			} `json:"room"`
		}
		if json.Unmarshal([]byte(f), &flt) == nil {
			if flt.Room.Timeline.Limit > 0 {
				limit = flt.Room.Timeline.Limit
			}
			noRooms = flt.Room.Rooms != nil && len(*flt.Room.Rooms) == 0
		}
	}
	tok := tokenOf(r)
	hs.mu.Lock()
	d := hs.devs[tok]
	if d == nil {
		hs.bad("a poll with an unknown token", tok)
		hs.mu.Unlock()
		writeJSON(w, 401, J{"errcode": "M_UNKNOWN_TOKEN"})
		return
	}
	gen := hs.gen
	if strings.HasPrefix(r.RequestURI, "/g") && !strings.HasPrefix(r.RequestURI, fmt.Sprintf("/g%d/", gen)) {
		hs.mu.Unlock()
		panic(http.ErrAbortHandler)
	}
	pl := hs.pollStart(d, tok, sinceStr)
	// leave is called before the response is given. Lock held.
	leave := func(next string, td bool) {
		if hs.gen == gen {
			if !pl.zombie {
				d.waiting = false
			}
			hs.pollEnd(d, pl, next, td)
		}
	}
	refuse := func() {
		leave("", false)
		if !pl.zombie && hs.gen == gen {
			d.Active, d.dead, d.chain.live = false, true, false
		}
		hs.rejects[tok]++
		d.lastReject = time.Now()
		if hs.rejects[tok] == 200 {
			hs.bad("a poller goes on with a token that is rejected", fmt.Sprintf("device %s token %s: %d times", d.DeviceID, tok, hs.rejects[tok]))
		}
		code := hs.revoked[tok]
		hs.logf("  poll %s since=%s token %s -> %d", d.DeviceID, sinceStr, tok, code)
		hs.mu.Unlock()
		writeJSON(w, code, J{"errcode": "M_UNKNOWN_TOKEN"})
	}
	if hs.revoked[tok] != 0 {
		refuse()
		return
	}
	d.Active, d.dead = true, false
	d.gen = gen
	d.Polls++
	if hs.TDReplayOK && since < d.Acked {
		// storing the position failed before a restart: what was handed over since may be delivered again
		for _, m := range d.ToDevice {
			if m.Pos > since && m.Pos <= d.served {
				if d.tdAgain == nil {
					d.tdAgain = map[string]bool{}
				}
				d.tdAgain[m.Key] = true
			}
		}
	}
	if since > d.Acked {
		d.Acked = since
	}
	if hs.OnPoll != nil {
		hs.OnPoll(d, sinceStr)
	}
	if d.slow > 0 {
		dl := d.slow
		hs.mu.Unlock()
		time.Sleep(dl)
		hs.mu.Lock()
	}
	code := d.failAll
	if len(d.failNext) > 0 {
		code = d.failNext[0]
		d.failNext = d.failNext[1:]
		if code == 0 {
			code = -1
		}
	}
	if code != 0 {
		leave("", false)
		if d.failAll != 0 {
			d.failed++
			if d.failed > 1000 {
				d.failAll = 0
				d.Active, d.dead, d.chain.live = false, true, false
			}
		}
		hs.mu.Unlock()
		if code == -1 { // break the connection
			panic(http.ErrAbortHandler)
		}
		writeJSON(w, code, J{"errcode": "M_UNKNOWN"})
		return
	}
	deadline := time.Now().Add(time.Duration(timeout) * time.Millisecond)
	for {
		if hs.closed || hs.gen != gen {
			leave("", false)
			hs.mu.Unlock()
			panic(http.ErrAbortHandler)
		}
		if hs.revoked[tok] != 0 {
			refuse()
			return
		}
		var resp J
		has := false
		upTo := hs.pos
		if !d.Paused {
			if d.holdAfter > 0 && d.holdAfter < upTo {
				upTo = d.holdAfter
			}
			if hs.Freeze && since > 0 {
				if timeout == 0 {
					leave(sinceStr, false)
					hs.mu.Unlock()
					writeJSON(w, 200, J{"next_batch": sinceStr})
					return
				}
			} else {
				resp, has = hs.delta(d, since, limit, noRooms)
			}
		}
		if !d.Paused && resp != nil && (has || timeout == 0 || time.Now().After(deadline)) {
			resp["next_batch"] = fmt.Sprintf("s%d", hs.pos)
			if jn, ok := resp["rooms"].(J); ok {
				if m, ok := jn["join"].(J); ok {
					for rid := range m {
						if r := hs.rooms[rid]; r.FirstServed == 0 {
							r.FirstServed = hs.pos
						}
					}
				}
			}
			if hs.Mangle != nil {
				hs.Mangle(d, since, resp)
			}
			if hs.pos > d.served && !pl.zombie {
				d.served = hs.pos
			}
			if since == 0 {
				d.dlFrom = hs.pos
			}
			leave(fmt.Sprint(resp["next_batch"]), resp["to_device"] != nil)
			hs.logf("  poll %s since=%s -> %v %s", d.DeviceID, sinceStr, resp["next_batch"], pollSummary(resp))
			hs.mu.Unlock()
			writeJSON(w, 200, resp)
			return
		}
		if !pl.zombie {
			d.waiting = true
			d.waitPos = hs.pos
		}
		ch := hs.changed
		hs.mu.Unlock()
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
		case <-r.Context().Done():
			hs.mu.Lock()
			leave("", false)
			hs.mu.Unlock()
			panic(http.ErrAbortHandler)
		}
		hs.mu.Lock()
	}
}

// delta computes the sync v2 response for the device from since. Lock held.
func (hs *HS) delta(d *Dev, since int64, limit int, noRooms bool) (J, bool) {
	has := false
	u := hs.users[d.UserID]
	resp := J{}
	// global account data
	if ad := stampedSince(u.AccountData, since); len(ad) > 0 {
		resp["account_data"] = J{"events": ad}
		has = true
	}
	// to-device
	var td []json.RawMessage
	for _, m := range d.ToDevice {
		if m.Pos > since {
			td = append(td, m.Raw)
		}
	}
	if len(td) > 0 {
		resp["to_device"] = J{"events": td}
		has = true
	}
	// e2ee
	if since > 0 {
		ch := map[string]bool{}
		var changed, left []string
		for _, c := range d.DL {
			if c.Pos > since {
				ch[c.User] = c.Left // last one wins
			}
		}
		for user, l := range ch {
			if l {
				left = append(left, user)
			} else {
				changed = append(changed, user)
			}
		}
		sort.Strings(changed)
		sort.Strings(left)
		if len(changed)+len(left) > 0 {
			resp["device_lists"] = J{"changed": changed, "left": left}
			has = true
		}
	}
	if d.OTK != nil {
		resp["device_one_time_keys_count"] = d.OTK
	}
	if d.Fallback != nil {
		resp["device_unused_fallback_key_types"] = d.Fallback
	}
	if d.KeysPos > since {
		has = true
	}
	if noRooms {
		return resp, has
	}
	join, invite, leave := J{}, J{}, J{}
	for _, rid := range hs.order {
		r := hs.rooms[rid]
		me := r.MemberEv(d.UserID, maxPos)
		if me == nil {
			continue
		}
		m0 := ""
		if since > 0 {
			m0 = r.Membership(d.UserID, since)
		}
		switch me.Membership() {
		case "join":
			newly := m0 != "join"
			start := since
			if !newly {
				for _, e := range r.Events {
					if e.Pos > since && e.Type == "m.room.member" && e.StateKey != nil && *e.StateKey == d.UserID && e.Membership() != "join" {
						newly = true
					}
				}
			}
			if since > 0 && newly {
				// shared history: the timeline reaches back before the join
				start = 0
				if hs.JoinedHistory {
					// history_visibility=joined: from the first event of the current stay
					st := r.Stays(d.UserID)
					start = r.Events[st[len(st)-1].From].Pos - 1
				}
			}
			var tl []*Ev
			for _, e := range r.Events {
				if e.Pos > start {
					tl = append(tl, e)
				}
			}
			limited := false
			lim := limit
			if d.maxTL > 0 && d.maxTL < lim && since > 0 {
				lim = d.maxTL
			}
			if len(tl) > lim {
				tl = tl[len(tl)-lim:]
				limited = true
			}
			if newly && since > 0 {
				limited = true
			}
			back := 0
			if hs.OverlapBack != nil && len(tl) > 0 && since > 0 && !limited {
				back = hs.OverlapBack(d, r)
				first := tl[0].Idx
				stays := r.Stays(d.UserID)
				for i := 0; i < back && first-1-i >= stays[len(stays)-1].From; i++ {
					tl = append([]*Ev{r.Events[first-1-i]}, tl...)
				}
			}
			var state []json.RawMessage
			if len(tl) > 0 {
				before := tl[0].Pos - 1
				if newly {
					for _, e := range sortedState(r.StateAt(before)) {
						state = append(state, e.JSON(d.Token))
						e.DeliveredState = true
					}
				} else if limited {
					for _, e := range sortedState(r.StateAt(before)) {
						if e.Pos > since {
							state = append(state, e.JSON(d.Token))
							e.DeliveredState = true
						}
					}
				}
			}
			entry := J{}
			inc := newly
			if len(tl) > 0 {
				inc = true
				var evs []json.RawMessage
				for _, e := range tl {
					evs = append(evs, e.JSON(d.Token))
					e.DeliveredTL = true
					hs.shown(e, d)
				}
				r.Served = append(r.Served, Served{tl[0].Idx, tl[len(tl)-1].Idx, limited, d.Token, false})
				entry["timeline"] = J{"events": evs, "limited": limited, "prev_batch": PrevBatchToken(tl[0])}
				if len(state) > 0 {
					entry["state"] = J{"events": state}
				}
			}
			var eph []json.RawMessage
			if r.TypePos > since && (len(r.Typing) > 0 || since > 0) {
				b, _ := json.Marshal(J{"type": "m.typing", "content": J{"user_ids": append([]string{}, r.Typing...)}})
				eph = append(eph, b)
			}
			if edu := receiptEDU(r, d.UserID, since); edu != nil {
				eph = append(eph, edu)
			}
			if len(eph) > 0 {
				entry["ephemeral"] = J{"events": eph}
				inc = true
			}
			adSince := since
			if newly {
				adSince = 0 // everything there is for a room that is new to the user
			}
			if ad := stampedSince(u.RoomAD[rid], adSince); len(ad) > 0 {
				entry["account_data"] = J{"events": ad}
				inc = true
			}
			if ur, ok := u.Unread[rid]; ok {
				entry["unread_notifications"] = J{"notification_count": ur.N, "highlight_count": ur.H}
				if ur.Pos > since {
					inc = true
				}
			}
			if inc {
				join[rid] = entry
				has = true
			}
		case "invite":
			if me.Pos > since {
				invite[rid] = J{"invite_state": J{"events": u.InviteState[rid]}}
				has = true
			}
		case "leave", "ban":
			if since == 0 || me.Pos <= since {
				continue
			}
			var tl []*Ev
			stays := r.Stays(d.UserID)
			from := since
			if n := len(stays); n > 0 && r.Events[stays[n-1].From].Pos > since && !hs.JoinedHistory {
				from = 0 // (as for rooms newly joined since then: as much as fits)
			}
			for _, e := range r.Events {
				if e.Pos <= from {
					continue
				}
				vis := e == me
				for _, s := range stays {
					if e.Idx >= s.From && e.Idx <= s.To {
						vis = true
					}
					if !hs.JoinedHistory && e.Idx <= s.To {
						vis = true // shared history: what came before the stay is visible too
					}
				}
				if vis {
					tl = append(tl, e)
				}
			}
			limited := false
			if n := len(stays); n > 0 && stays[n-1].To != me.Idx && len(tl) > 1 {
				// the last of several leaves since then: what lies between them is not visible
				tl = tl[len(tl)-1:]
				limited = true
			}
			if len(tl) > limit {
				tl = tl[len(tl)-limit:]
				limited = true
			}
			var evs []json.RawMessage
			for _, e := range tl {
				evs = append(evs, e.JSON(d.Token))
				e.DeliveredTL = true
				hs.shown(e, d)
			}
			r.Served = append(r.Served, Served{tl[0].Idx, tl[len(tl)-1].Idx, limited, d.Token, true})
			leave[rid] = J{"timeline": J{"events": evs, "limited": limited, "prev_batch": PrevBatchToken(tl[0])}, "state": J{"events": []json.RawMessage{}}}
			has = true
		}
	}
	rooms := J{}
	if len(join) > 0 {
		rooms["join"] = join
	}
	if len(invite) > 0 {
		rooms["invite"] = invite
	}
	if len(leave) > 0 {
		rooms["leave"] = leave
	}
	if len(rooms) > 0 {
		resp["rooms"] = rooms
	}
	return resp, has
}

func pollSummary(resp J) string {
	out := ""
	for k := range resp {
		out += k + " "
	}
	if rm, ok := resp["rooms"].(J); ok {
		for sec, rs := range rm {
			if m, ok := rs.(J); ok {
				for rid, x := range m {
					n := 0
					if tl, ok := x.(J)["timeline"].(J); ok {
						if evs, ok := tl["events"].([]json.RawMessage); ok {
							n = len(evs)
						}
					}
					out += fmt.Sprintf("%s:%s:%d ", sec, rid, n)
				}
			}
		}
	}
	return out
}

// PrevBatchToken denotes "the point just before this event".
func PrevBatchToken(e *Ev) string { return fmt.Sprintf("pb|%s|%d", e.RoomID, e.Idx) }

func sortedState(st map[[2]string]*Ev) []*Ev {
	out := make([]*Ev, 0, len(st))
	for _, e := range st {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Idx < out[j].Idx })
	return out
}

func stampedSince(m map[string]Stamped, since int64) []json.RawMessage {
	var keys []string
	for k, v := range m {
		if v.Pos > since {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return m[keys[i]].Pos < m[keys[j]].Pos })
	var out []json.RawMessage
	for _, k := range keys {
		if m[k].Prev != nil && m[k].PrevPos > since {
			b, err := json.Marshal(J{"type": k, "content": m[k].Prev})
			if err != nil {
				panic(err)
			}
			out = append(out, b)
		}
		b, err := json.Marshal(J{"type": k, "content": m[k].Data})
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return out
}

// receiptEDU merges the receipts after since into one EDU (private ones only for their owner).
// Only the latest receipt of a (user, kind, thread) is sent, as a homeserver does.
func receiptEDU(r *Room, user string, since int64) json.RawMessage {
	type key struct {
		u, t string
		p    bool
	}
	latest := map[key]*Receipt{}
	for i := range r.Receipts {
		x := &r.Receipts[i]
		if x.Pos <= since || (x.Private && x.UserID != user) {
			continue
		}
		latest[key{x.UserID, x.ThreadID, x.Private}] = x
	}
	if len(latest) == 0 {
		return nil
	}
	content := map[string]map[string]map[string]J{}
	given := map[[3]string]*Receipt{}
	for _, x := range latest {
		typ := "m.read"
		if x.Private {
			typ = "m.read.private"
		}
		if content[x.EventID] == nil {
			content[x.EventID] = map[string]map[string]J{}
		}
		if content[x.EventID][typ] == nil {
			content[x.EventID][typ] = map[string]J{}
		}
		v := J{"ts": x.TS}
		if x.ThreadID != "" {
			v["thread_id"] = x.ThreadID
		}
		if prev, ok := content[x.EventID][typ][x.UserID]; ok {
			// cannot represent two threads on one event for one user: latest wins (unthreaded kept)
			if _, threaded := prev["thread_id"]; !threaded {
				continue
			}
		}
		content[x.EventID][typ][x.UserID] = v
		given[[3]string{x.EventID, typ, x.UserID}] = x
	}
	for _, x := range given {
		x.Reported = true
	}
	b, err := json.Marshal(J{"type": "m.receipt", "content": content})
	if err != nil {
		panic(err)
	}
	return b
}

// ---------- ground truth mutations (all take the lock) ----------

func (hs *HS) AddUser(id string) *User {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	u := &User{ID: id, AccountData: map[string]Stamped{}, RoomAD: map[string]map[string]Stamped{}, Unread: map[string]Unread{}, InviteState: map[string][]json.RawMessage{}, InviteHist: map[string]map[string]bool{}}
	hs.users[id] = u
	return u
}

func (hs *HS) AddDevice(user, device, token string) *Dev {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	d := &Dev{Token: token, UserID: user, DeviceID: device, Valid: true}
	hs.devs[token] = d
	hs.devList = append(hs.devList, d)
	return d
}

func (hs *HS) NewRoom(id string) *Room {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	r := &Room{ID: id, ByID: map[string]*Ev{}, hs: hs}
	hs.rooms[id] = r
	hs.order = append(hs.order, id)
	return r
}

// Send appends an event to the room.
func (hs *HS) Send(r *Room, typ string, sk *string, sender string, content J) *Ev {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	e := hs.send(r, typ, sk, sender, content, "", "", "")
	hs.wake()
	return e
}

func (hs *HS) send(r *Room, typ string, sk *string, sender string, content J, txnTok, txnID, redacts string) *Ev {
	hs.nev++
	hs.ts += 10
	e := &Ev{ID: fmt.Sprintf("$e%d-%s", hs.nev, hs.nonce), Type: typ, Sender: sender, StateKey: sk, Content: content, TS: hs.ts,
		Pos: hs.bump(), Idx: len(r.Events), RoomID: r.ID, TxnToken: txnTok, TxnID: txnID, Redacts: redacts, SentAt: time.Now()}
	if sk != nil {
		for i := len(r.Events) - 1; i >= 0; i-- {
			if x := r.Events[i]; x.StateKey != nil && *x.StateKey == *sk && x.Type == typ {
				e.Prev = x
				break
			}
		}
	}
	if us := hs.users[keyOf(sk)]; us != nil && typ == "m.room.member" && e.Membership() == "join" && (e.Prev == nil || e.Prev.Membership() != "join") {
		// unread counts start from the join
		if ur, ok := us.Unread[r.ID]; ok && (ur.N != 0 || ur.H != 0) {
			us.Unread[r.ID] = Unread{Pos: e.Pos}
		}
	}
	r.Events = append(r.Events, e)
	r.ByID[e.ID] = e
	s := "-"
	if sk != nil {
		s = "sk=" + *sk
	}
	cb, _ := json.Marshal(content)
	hs.logf("event %s idx=%d %s %s %s sender=%s %s", r.ID, e.Idx, e.ID, typ, s, sender, cb)
	return e
}

// Do runs f with the lock held and then wakes the pollers (an atomic batch).
func (hs *HS) Do(f func()) {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	f()
	hs.wake()
}

// With runs f under the lock with no wake-up.
func (hs *HS) With(f func()) {
	hs.mu.Lock()
	defer hs.mu.Unlock()
	f()
}

func sp(s string) *string { return &s }

func keyOf(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

func (hs *HS) setInviteState(r *Room, user string) {
	u := hs.users[user]
	if u == nil {
		return
	}
	var evs []json.RawMessage
	for _, e := range sortedState(r.Cur()) {
		keep := false
		switch e.Type {
		case "m.room.create", "m.room.name", "m.room.join_rules", "m.room.canonical_alias", "m.room.avatar", "m.room.encryption":
			keep = true
		case "m.room.member":
			me := r.MemberEv(user, maxPos)
			keep = *e.StateKey == user || (me != nil && *e.StateKey == me.Sender)
		}
		if keep {
			j := J{"type": e.Type, "state_key": *e.StateKey, "content": e.Content, "sender": e.Sender}
			if e.Type == "m.room.member" && *e.StateKey == user {
				j["event_id"] = e.ID
				j["origin_server_ts"] = e.TS
			}
			b, _ := json.Marshal(j)
			evs = append(evs, b)
		}
	}
	u.InviteState[r.ID] = evs
	if u.InviteHist[r.ID] == nil {
		u.InviteHist[r.ID] = map[string]bool{}
	}
	for _, e := range evs {
		u.InviteHist[r.ID][string(mustCanon(e))] = true
	}
}

// ---------- barrier ----------

// Settled reports whether every active, valid, unpaused poller has consumed everything.
func (hs *HS) settledLocked() (bool, string) {
	for _, d := range hs.devList {
		if !d.Active && d.Polls > 0 && d.Valid && !d.dead {
			return false, fmt.Sprintf("dev %s is not polled since the restart", d.DeviceID)
		}
		if !d.Active || !d.Valid || d.Paused || d.gen != hs.gen {
			continue
		}
		if !d.waiting || d.waitPos != hs.pos {
			return false, fmt.Sprintf("dev %s waiting=%v waitPos=%d pos=%d inflight=%d polls=%d failNext=%v", d.DeviceID, d.waiting, d.waitPos, hs.pos, len(d.inflight), d.Polls, d.failNext)
		}
	}
	return true, ""
}

// resume lets a paused poller go on; it has not settled before it has looked again. Lock held.
func (hs *HS) resume(d *Dev) {
	if d.Paused {
		d.Paused = false
		d.waitPos = -1
	}
}

// ingested: the position up to which the device's stream is known to have been processed. Lock held.
func (hs *HS) shown(e *Ev, d *Dev) {
	if e.ShownTo == nil {
		e.ShownTo = map[string]int64{}
	}
	if _, ok := e.ShownTo[d.Token]; !ok {
		e.ShownTo[d.Token] = hs.pos
	}
}

func (hs *HS) ingested(d *Dev) int64 {
	if d.waiting && !d.Paused && d.waitPos > d.Acked {
		return d.waitPos
	}
	return d.Acked
}

func (hs *HS) WaitSettled(timeout time.Duration) error {
	deadline := time.Now().Add(timeout)
	for {
		hs.mu.Lock()
		ok, why := hs.settledLocked()
		if ok && (len(hs.settles) == 0 || hs.settles[len(hs.settles)-1] != hs.pos) {
			full := true
			for _, d := range hs.devList {
				if d.Paused || !d.Active || !d.Valid {
					full = false
				}
			}
			if full {
				hs.settles = append(hs.settles, hs.pos)
			}
		}
		hs.mu.Unlock()
		if ok {
			return nil
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("pollers did not settle: %s", why)
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// NewGeneration forgets all pollers (proxy restarted).
func (hs *HS) NewGeneration() {
	hs.mu.Lock()
	for _, d := range hs.devList {
		for _, m := range d.ToDevice {
			if m.Pos > d.Acked && m.Pos <= d.served {
				if d.tdAgain == nil {
					d.tdAgain = map[string]bool{}
				}
				d.tdAgain[m.Key] = true
			}
		}
	}
	hs.gen++
	for _, d := range hs.devList {
		d.Active = false
		d.waiting = false
		d.inflight = nil
		d.chain.live = false
	}
	hs.wake()
	hs.mu.Unlock()
	hs.srv.CloseClientConnections()
}

// settledBetween: was everything up to a known to be ingested before position b came to be. Lock held.
func (hs *HS) settledBetween(a, b int64) bool {
	for _, p := range hs.settles {
		if a <= p && p < b {
			return true
		}
	}
	return false
}

// pruned: what is left of an event's content when it is redacted (room versions 6 to 11).
func pruned(ver, typ string, c J) J {
	keep := map[string][]string{
		"m.room.member":             {"membership"},
		"m.room.join_rules":         {"join_rule"},
		"m.room.power_levels":       {"ban", "events", "events_default", "kick", "redact", "state_default", "users", "users_default"},
		"m.room.history_visibility": {"history_visibility"},
	}[typ]
	switch ver {
	case "8":
		if typ == "m.room.join_rules" {
			keep = append(keep, "allow")
		}
	case "9", "10":
		if typ == "m.room.join_rules" {
			keep = append(keep, "allow")
		}
		if typ == "m.room.member" {
			keep = append(keep, "join_authorised_via_users_server")
		}
	case "11":
		if typ == "m.room.join_rules" {
			keep = append(keep, "allow")
		}
		if typ == "m.room.member" {
			keep = append(keep, "join_authorised_via_users_server")
		}
		if typ == "m.room.power_levels" {
			keep = append(keep, "invite")
		}
	}
	out := J{}
	for _, k := range keep {
		if v, ok := c[k]; ok {
			out[k] = v
		}
	}
	return out
}

// redact sends a redaction of e. Lock held.
func (hs *HS) redact(r *Room, e *Ev, by string) *Ev {
	var red *Ev
	if r.Version == "11" {
		red = hs.send(r, "m.room.redaction", nil, by, J{"reason": "r", "redacts": e.ID}, "", "", "")
	} else {
		red = hs.send(r, "m.room.redaction", nil, by, J{"reason": "r"}, "", "", e.ID)
	}
	if e.RoomID == r.ID && e.RedactedBy == nil {
		e.RedactedBy = red
		e.Orig = e.Content
		e.Content = pruned(r.Version, e.Type, e.Content)
	}
	return red
}

// lastSettle: everything up to this position is known to have been ingested. Lock held.
func (hs *HS) lastSettle() int64 {
	if n := len(hs.settles); n > 0 {
		return hs.settles[n-1]
	}
	return 0
}

// ---------- what the homeserver sees of the pollers ----------

func (hs *HS) bad(kind, detail string) {
	if hs.OnBad != nil {
		hs.OnBad(kind, detail)
	}
}

// pollStart checks a poll against what is known about the device's pollers. Lock held.
func (hs *HS) pollStart(d *Dev, tok, since string) *Poll {
	pl := &Poll{tok: tok, since: since}
	if hs.told[tok] {
		hs.bad("a token which has been rejected is used again", fmt.Sprintf("device %s: %s", d.DeviceID, tok))
	}
	for _, o := range d.inflight {
		if !o.zombie {
			hs.bad("two pollers for a device at once", fmt.Sprintf("device %s: a poll with token %s since %q while the one with token %s since %q is still going on", d.DeviceID, tok, since, o.tok, o.since))
			break
		}
	}
	d.inflight = append(d.inflight, pl)
	if hs.revoked[tok] != 0 {
		return pl
	}
	c := &d.chain
	if c.nexts == nil {
		c.nexts = map[string]bool{"": true}
	}
	var sp int64
	fmt.Sscanf(since, "s%d", &sp)
	if c.live && c.tok == tok {
		want := c.since
		if c.next != "" {
			want = c.next
		}
		if since != want && hs.CheckChain {
			hs.bad("a poll does not continue where the last one ended", fmt.Sprintf("device %s: since=%q, the last poll was since=%q and its response next_batch=%q", d.DeviceID, since, c.since, c.next))
		}
		if c.next != "" && since == c.next && (c.first || c.td) && sp > c.stored {
			c.stored = sp
		}
		if c.next != "" {
			c.first = false
		}
	} else {
		if hs.CheckChain && (!c.nexts[since] || sp < c.stored) {
			hs.bad("a new poller starts at the wrong position", fmt.Sprintf("device %s: since=%q; position s%d was stored; last poll since=%q next_batch=%q", d.DeviceID, since, c.stored, c.since, c.next))
		}
		c.first = true
	}
	c.live, c.tok, c.since, c.next = true, tok, since, ""
	return pl
}

func (hs *HS) pollEnd(d *Dev, pl *Poll, next string, td bool) {
	for i, o := range d.inflight {
		if o == pl {
			d.inflight = append(d.inflight[:i:i], d.inflight[i+1:]...)
			break
		}
	}
	if pl.zombie || d.chain.nexts == nil {
		return
	}
	d.chain.next, d.chain.td = next, td
	if next != "" {
		d.chain.nexts[next] = true
	}
}

// stopPoller: the poller of the device is no more, though its last poll may still be going on. Lock held.
func (hs *HS) stopPoller(d *Dev) {
	for _, pl := range d.inflight {
		pl.zombie = true
	}
	d.Active, d.dead, d.chain.live, d.waiting = false, true, false, false
}
