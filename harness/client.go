package zzverif

// A model sliding sync client: keeps what a real client keeps, by applying the
// responses in order (list operations per the reference client in /repo/client).

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

type RoomSubCfg struct {
	ReqState      [][2]string
	TimelineLimit int
	OldRooms      *RoomSubCfg
	Heroes        bool
}

func (c RoomSubCfg) J() J {
	j := J{"timeline_limit": c.TimelineLimit}
	if c.ReqState != nil {
		j["required_state"] = c.ReqState
	}
	if c.OldRooms != nil {
		j["include_old_rooms"] = c.OldRooms.J()
	}
	if c.Heroes {
		j["include_heroes"] = true
	}
	return j
}

type ListCfg struct {
	RoomSubCfg
	Ranges  [][2]int
	Sort    []string
	Filters J
	Bump    []string
	Slow    bool
}

func (c ListCfg) J() J {
	j := c.RoomSubCfg.J()
	if !c.Slow || c.Ranges != nil {
		r := [][2]int{}
		r = append(r, c.Ranges...)
		j["ranges"] = r
	}
	if c.Sort != nil {
		j["sort"] = c.Sort
	}
	if c.Filters != nil {
		j["filters"] = c.Filters
	}
	if c.Bump != nil {
		j["bump_event_types"] = c.Bump
	}
	if c.Slow {
		j["slow_get_all_rooms"] = true
	}
	return j
}

func (c ListCfg) InRange(i int) bool {
	if c.Slow {
		return true
	}
	for _, r := range c.Ranges {
		if r[0] <= i && i <= r[1] {
			return true
		}
	}
	return false
}

type CList struct {
	Cfg   ListCfg
	Known J // the parameters last acknowledged by the server (as JSON)
	M     map[int]string
	Count int
	Seen  bool
	Moved bool // the last response had operations for this list
	// for slow lists
	SlowSet map[string]bool
	// bounds on the recency the server may use for each room of a list with bump_event_types
	BumpUB, BumpLB map[string]int64
	BumpSince      int64
	bumpSession    int
}

type TLEvent struct {
	ID   string
	Raw  json.RawMessage
	Live bool
}

// CRoom is the client's view of a room.
type CRoom struct {
	ID           string
	Initials     int
	Timeline     []TLEvent // since the last initial:true
	InitTL       int       // number of events in the initial snapshot
	InitLimit    int
	State        map[[2]string]json.RawMessage
	Weak         map[[2]string]bool // known from before the last snapshot, which did not repeat it
	StateFromRS  map[[2]string]bool
	Name         string
	Avatar       any
	AvatarSet    bool
	Joined       int
	Invited      int
	Notif        int
	Highlight    int
	IsDM         bool
	InviteState  []json.RawMessage
	PrevBatch    string
	Timestamp    int64
	Heroes       []J
	LastLive     int
	Kept, KeptTL bool // the snapshot updated an already tracked room
	// monitoring
	Contig     bool // continuously tracked since the last initial snapshot
	LastIdx    int  // room index of the last timeline event received (-1: none)
	Seen       map[string]bool
	GuarAll    [][2]string
	Narrow     [][2]string // earlier required_state of a view that was only updated
	Guar       [][2]string // required_state of every configuration the room was requested with
	QPos       int64       // ground truth position at the last quiescent check at which this view was tracked
	InitPos    int64       // ground truth position when the initial snapshot was applied
	Lazy       bool
	LimitExact int
	LimitMax   int
}

type Op struct {
	Op      string   `json:"op"`
	Index   *int     `json:"index"`
	Range   []int    `json:"range"`
	RoomID  string   `json:"room_id"`
	RoomIDs []string `json:"room_ids"`
}

type RespRoom struct {
	Name          *string           `json:"name"`
	Avatar        json.RawMessage   `json:"avatar"`
	Heroes        []J               `json:"heroes"`
	RequiredState []json.RawMessage `json:"required_state"`
	Timeline      []json.RawMessage `json:"timeline"`
	InviteState   []json.RawMessage `json:"invite_state"`
	Notif         *int              `json:"notification_count"`
	Highlight     *int              `json:"highlight_count"`
	Initial       bool              `json:"initial"`
	IsDM          bool              `json:"is_dm"`
	Joined        *int              `json:"joined_count"`
	Invited       *int              `json:"invited_count"`
	PrevBatch     string            `json:"prev_batch"`
	NumLive       int               `json:"num_live"`
	Timestamp     int64             `json:"timestamp"`
}

type RespExt struct {
	ToDevice *struct {
		NextBatch string            `json:"next_batch"`
		Events    []json.RawMessage `json:"events"`
	} `json:"to_device"`
	E2EE *struct {
		OTK         map[string]int `json:"device_one_time_keys_count"`
		Fallback    *[]string      `json:"device_unused_fallback_key_types"`
		DeviceLists *struct {
			Changed []string `json:"changed"`
			Left    []string `json:"left"`
		} `json:"device_lists"`
	} `json:"e2ee"`
	AccountData *struct {
		Global []json.RawMessage            `json:"global"`
		Rooms  map[string][]json.RawMessage `json:"rooms"`
	} `json:"account_data"`
	Typing *struct {
		Rooms map[string]json.RawMessage `json:"rooms"`
	} `json:"typing"`
	Receipts *struct {
		Rooms map[string]json.RawMessage `json:"rooms"`
	} `json:"receipts"`
}

type Resp struct {
	Pos   string `json:"pos"`
	TxnID string `json:"txn_id"`
	Lists map[string]struct {
		Count int  `json:"count"`
		Ops   []Op `json:"ops"`
	} `json:"lists"`
	Rooms      map[string]RespRoom `json:"rooms"`
	Extensions RespExt             `json:"extensions"`
}

func (r *Resp) Empty() bool {
	for _, l := range r.Lists {
		if len(l.Ops) > 0 {
			return false
		}
	}
	if len(r.Rooms) > 0 {
		return false
	}
	e := r.Extensions
	if e.ToDevice != nil && len(e.ToDevice.Events) > 0 {
		return false
	}
	if e.E2EE != nil && e.E2EE.DeviceLists != nil && len(e.E2EE.DeviceLists.Changed)+len(e.E2EE.DeviceLists.Left) > 0 {
		return false
	}
	if e.AccountData != nil && (len(e.AccountData.Global) > 0 || len(e.AccountData.Rooms) > 0) {
		return false
	}
	if e.Typing != nil && len(e.Typing.Rooms) > 0 {
		return false
	}
	if e.Receipts != nil && len(e.Receipts.Rooms) > 0 {
		return false
	}
	return true
}

// SubState is a subscription as the server should have it.
type Client struct {
	sim    *Sim
	Dev    *Dev
	ConnID string
	Name   string
	Token  string // the token it uses ("": the device's current one)
	// mayExpire: something has happened since the connection was made that lets the server forget it
	mayExpire bool
	// for clients which do not keep up
	mustExpire        int
	RespPos, DrainPos int64

	Pos   string
	Lists map[string]*CList
	Subs  map[string]RoomSubCfg
	Ext   J // extensions currently enabled (as last sent in full)

	// pending changes, sent with the next request
	pendLists map[string]J
	pendSubs  map[string]J
	pendUnsub []string
	pendExt   J

	Rooms map[string]*CRoom

	// extension views
	ToDev       []json.RawMessage // received and accepted, in order
	ToDevNext   string
	tdRestart   bool // the proxy restarted since the last to-device response
	tdAcked     int  // how many of ToDev the proxy knows to be acknowledged
	OTK         map[string]int
	Fallback    []string
	FallbackSet bool
	DLEvents    []DLEvent
	GlobalAD    map[string]json.RawMessage
	RoomAD      map[string]map[string]json.RawMessage
	Typing      map[string][]string
	TypingSeen  map[string]int
	Receipts    map[string]map[string]RcptView // room -> key(user|kind|thread) -> view

	Expired  int // number of M_UNKNOWN_POS
	Requests int
	LastBody []byte
	LastPos  string
	LastResp []byte
	Log      []string
	// every event ID ever delivered in a timeline by this connection session, per room, in order
	Session     int
	InitialDone bool
	ReqSettle   int64 // what was known to be ingested when the request being answered was made
	SessPos     int64 // ground truth position (fully ingested or not) when the connection began
	NResp       int
	LastInitial map[string]bool // the rooms which the last response sent anew
	QGlobal     int64
	EverMembers map[string]map[string]bool
	MemberIdx   map[string]map[string]int // room index of the newest membership event received, per member
	muted       bool
	ReqIngested int64 // how far the own stream was processed when the request was sent
	behind      bool  // responses may have been waiting for the client
	settles     []int64

	curLimit map[string]int // effective limit for initial rooms in the response being applied
}

type DLEvent struct {
	User string
	Left bool
}

type RcptView struct {
	EventID string
	TS      int64
}

func NewClient(s *Sim, d *Dev, connID string) *Client {
	c := &Client{sim: s, Dev: d, ConnID: connID, Name: d.DeviceID + "/" + connID}
	c.reset()
	return c
}

// reset forgets everything tied to the connection; the configuration has to be re-sent in full.
func (c *Client) reset() {
	c.Pos = ""
	c.Session++
	c.pendLists = map[string]J{}
	c.pendSubs = map[string]J{}
	c.pendUnsub = nil
	if c.Lists == nil {
		c.Lists = map[string]*CList{}
		c.Subs = map[string]RoomSubCfg{}
		c.Ext = J{}
	}
	for k, l := range c.Lists {
		l.M = map[int]string{}
		l.Count = 0
		l.Seen = false
		l.SlowSet = map[string]bool{}
		c.pendLists[k] = l.Cfg.J()
	}
	for rid, s := range c.Subs {
		c.pendSubs[rid] = s.J()
	}
	c.pendExt = J{}
	for k, v := range c.Ext {
		c.pendExt[k] = v
	}
	c.Rooms = map[string]*CRoom{}
	c.OTK = nil
	c.Fallback = nil
	c.FallbackSet = false
	c.GlobalAD = map[string]json.RawMessage{}
	c.RoomAD = map[string]map[string]json.RawMessage{}
	c.Typing = map[string][]string{}
	c.TypingSeen = map[string]int{}
	c.Receipts = map[string]map[string]RcptView{}
	c.EverMembers = map[string]map[string]bool{}
	c.MemberIdx = map[string]map[string]int{}
	c.InitialDone = false
	c.QGlobal = 0
	c.behind, c.settles = false, nil
}

func (c *Client) logf(f string, a ...any) {
	if len(c.Log) < 3000 {
		c.Log = append(c.Log, fmt.Sprintf(f, a...))
	}
}

// ---- configuration changes (take effect with the next request) ----

func (c *Client) SetList(key string, cfg ListCfg) {
	c.Lists[key] = &CList{Cfg: cfg, M: map[int]string{}, SlowSet: map[string]bool{}}
	c.pendLists[key] = cfg.J()
}

// PatchList applies a partial change: only the given fields are sent (sticky parameters).
func (c *Client) PatchList(key string, full bool, change func(cfg *ListCfg), fields ...string) {
	l := c.Lists[key]
	bump := fmt.Sprint(l.Cfg.Bump)
	change(&l.Cfg)
	if fmt.Sprint(l.Cfg.Bump) != bump {
		l.BumpUB = nil
	}
	j := l.Cfg.J()
	if full {
		c.pendLists[key] = j
		return
	}
	p := c.pendLists[key]
	if p == nil {
		p = J{}
	}
	for _, f := range fields {
		if v, ok := j[f]; ok {
			p[f] = v
		}
	}
	c.pendLists[key] = p
}

func (c *Client) DeleteList(key string) {
	delete(c.Lists, key)
	c.pendLists[key] = J{"deleted": true}
}

func (c *Client) Subscribe(room string, cfg RoomSubCfg) {
	c.Subs[room] = cfg
	c.pendSubs[room] = cfg.J()
	var keep []string
	for _, r := range c.pendUnsub {
		if r != room {
			keep = append(keep, r)
		}
	}
	c.pendUnsub = keep
}

func (c *Client) Unsubscribe(room string) {
	delete(c.Subs, room)
	delete(c.pendSubs, room)
	c.pendUnsub = append(c.pendUnsub, room)
}

func (c *Client) SetExt(name string, v J) {
	cur, _ := c.Ext[name].(J)
	merged := J{}
	for k, x := range cur {
		merged[k] = x
	}
	for k, x := range v {
		merged[k] = x
	}
	c.Ext[name] = merged
	if p, ok := c.pendExt[name].(J); ok {
		for k, x := range v {
			p[k] = x
		}
	} else {
		p := J{}
		for k, x := range v {
			p[k] = x
		}
		c.pendExt[name] = p
	}
}

func (c *Client) ExtOn(name string) bool {
	e, _ := c.Ext[name].(J)
	b, _ := e["enabled"].(bool)
	return b
}

// BuildBody renders the pending changes as a request body.
func (c *Client) BuildBody() []byte {
	j := J{}
	if c.ConnID != "" {
		j["conn_id"] = c.ConnID
	}
	if len(c.pendLists) > 0 {
		j["lists"] = c.pendLists
	}
	if len(c.pendSubs) > 0 {
		j["room_subscriptions"] = c.pendSubs
	}
	if len(c.pendUnsub) > 0 {
		j["unsubscribe_rooms"] = c.pendUnsub
	}
	ext := J{}
	for k, v := range c.pendExt {
		ext[k] = v
	}
	if c.ExtOn("to_device") && c.ToDevNext != "" {
		td := J{}
		if p, ok := ext["to_device"].(J); ok {
			for k, v := range p {
				td[k] = v
			}
		} else {
			td["enabled"] = true
		}
		td["since"] = c.ToDevNext
		ext["to_device"] = td
	}
	if len(ext) > 0 {
		j["extensions"] = ext
	}
	return mustJSON(j)
}

func (c *Client) clearPending() {
	c.pendLists = map[string]J{}
	c.pendSubs = map[string]J{}
	c.pendUnsub = nil
	c.pendExt = J{}
}

// Sync performs one request/response cycle. Returns the parsed response (nil on error).
func (c *Client) Sync(timeoutMS int) (*Resp, error) {
	body := c.BuildBody()
	return c.syncBody(body, timeoutMS)
}

var errExpired = fmt.Errorf("session expired")

func (c *Client) syncBody(body []byte, timeoutMS int) (*Resp, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	c.sim.slowRequest(c)
	c.preRequest()
	tok, began := c.tok(), time.Now()
	res := c.sim.proxy.Sync(ctx, tok, c.Pos, timeoutMS, body)
	if res.Err != nil && ctx.Err() != nil {
		c.sim.dumpStacks()
	}
	return c.finish(body, res, tok, began)
}

// preRequest notes what is known when a request is sent.
func (c *Client) preRequest() {
	c.sim.hs.With(func() { c.ReqSettle, c.ReqIngested = c.sim.hs.lastSettle(), c.sim.hs.ingested(c.Dev) })
	if c.behind {
		// the response may have been waiting for a while
		c.settles = append(c.settles, c.ReqSettle)
		c.ReqSettle = c.settles[0]
	}
	if c.Pos == "" {
		c.sim.hs.With(func() { c.SessPos = c.sim.hs.ingested(c.Dev) })
		c.mayExpire = false
		c.DrainPos = 0
	}
}

// finish deals with the outcome of a request.
func (c *Client) finish(body []byte, res HTTPResult, tok string, began time.Time) (*Resp, error) {
	initial := c.Pos == ""
	c.Requests++
	c.LastBody, c.LastPos = body, c.Pos
	if res.Err != nil {
		c.logf("-> pos=%s %s", c.Pos, body)
		c.logf("<- ERR %v", res.Err)
		return nil, fmt.Errorf("request failed: %v", res.Err)
	}
	c.logf("-> pos=%s %s", c.Pos, body)
	c.logf("<- %d %s", res.Code, res.Body)
	if res.Code != 200 {
		if res.Code == 401 && c.sim.prof.Tokens {
			return nil, c.sim.onRefused(c, tok, began, res)
		}
		if res.Code == 400 && strings.Contains(string(res.Body), "M_UNKNOWN_POS") {
			if c.sim.prof.NoExpire && !c.mayExpire {
				c.sim.Violate([]string{"C02", "C16", "C17"}, "a connection was forgotten for no reason", fmt.Sprintf("client %s pos %s", c.Name, c.Pos))
			}
			c.sim.slowResult(c, true)
			c.Expired++
			c.sim.Count("expired", 1)
			c.reset()
			return nil, errExpired
		}
		return nil, fmt.Errorf("HTTP %d %s", res.Code, res.Body)
	}
	var r Resp
	if err := json.Unmarshal(res.Body, &r); err != nil {
		c.sim.Violate([]string{"C25", "C20"}, "unparseable response", fmt.Sprintf("client %s: %v: %s", c.Name, err, res.Body))
		return nil, err
	}
	c.LastResp = res.Body
	if c.sim.prof.Hostile {
		r.sanitize()
	}
	c.sim.slowResult(c, false)
	c.Apply(body, &r, res.Body, initial)
	c.sim.hs.With(func() { c.RespPos = c.sim.hs.pos })
	if r.Empty() {
		c.DrainPos = c.ReqSettle
	}
	return &r, nil
}

// Apply processes a response the client accepted.
func (c *Client) Apply(body []byte, r *Resp, raw []byte, initial bool) {
	// remember the acknowledged parameters
	c.clearPending()
	c.Pos = r.Pos
	c.InitialDone = true
	c.sim.Count("responses", 1)
	c.NResp++
	c.LastInitial = map[string]bool{}
	for rid, rr := range r.Rooms {
		c.LastInitial[rid] = rr.Initial
	}
	c.sim.preResponse(c, body, r, raw, initial)
	for _, l := range c.Lists {
		l.Moved = false
	}
	for key, lr := range r.Lists {
		l := c.Lists[key]
		if l == nil {
			c.sim.Violate([]string{"C03", "C18"}, "response for a list the client does not have", fmt.Sprintf("client %s list %q", c.Name, key))
			continue
		}
		l.Seen = true
		l.Count = lr.Count
		l.Moved = len(lr.Ops) > 0
		c.applyOps(key, l, lr.Ops)
	}
	for rid, rr := range r.Rooms {
		c.applyRoom(rid, rr)
		c.sim.monitorRoom(c, rid, rr)
	}
	c.applyExt(r)
	c.sim.postResponse(c, body, r, raw, initial)
}

func (c *Client) applyOps(key string, l *CList, ops []Op) {
	bad := func(f string, a ...any) {
		c.sim.Violate([]string{"C03"}, "bad list operation", fmt.Sprintf("client %s list %s: %s; ops=%s window=%s", c.Name, key, fmt.Sprintf(f, a...), mustJSON(ops), fmtWin(l.M)))
	}
	for _, op := range ops {
		c.sim.Count("op_"+op.Op, 1)
		if op.Op == "SYNC" && l.Cfg.Slow {
			l.SlowSet = map[string]bool{}
			for _, rid := range op.RoomIDs {
				l.SlowSet[rid] = true
			}
		}
	}
	applyListOps(l.M, l.Cfg.InRange, ops, bad)
}

// applyListOps is how a client reconstructs its windows: a DELETE that is followed by an INSERT
// moves the entries between both indexes by one, any other DELETE closes the gap.
func applyListOps(m map[int]string, inRange func(int) bool, ops []Op, bad func(f string, a ...any)) {
	gap := -1
	maxIdx := func() int {
		mx := -1
		for i := range m {
			if i > mx {
				mx = i
			}
		}
		return mx
	}
	set := func(i int, j int) {
		if v, ok := m[j]; ok {
			m[i] = v
		} else {
			delete(m, i)
		}
	}
	shiftRight := func(hi, low int) {
		for i := hi; i > low; i-- {
			if inRange(i) {
				set(i, i-1)
			}
		}
	}
	shiftLeft := func(hi, low int) {
		for i := low; i < hi; i++ {
			if inRange(i) {
				set(i, i+1)
			}
		}
	}
	removeEntry := func(idx int) {
		mx := maxIdx()
		if mx < 0 || idx > mx {
			return
		}
		shiftLeft(mx, idx)
		delete(m, mx)
	}
	addEntry := func(idx int) {
		mx := maxIdx()
		if mx < 0 || idx > mx {
			return
		}
		shiftRight(mx+1, idx)
	}
	for _, op := range ops {
		switch op.Op {
		case "DELETE":
			if op.Index == nil {
				bad("DELETE without an index")
				continue
			}
			if !inRange(*op.Index) {
				bad("DELETE outside of the requested ranges: %d", *op.Index)
			}
			if gap != -1 {
				removeEntry(gap)
			}
			delete(m, *op.Index)
			gap = *op.Index
		case "INSERT":
			if op.Index == nil || op.RoomID == "" {
				bad("INSERT without an index or room")
				continue
			}
			if !inRange(*op.Index) {
				bad("INSERT outside of the requested ranges: %d", *op.Index)
			}
			if _, occ := m[*op.Index]; occ {
				if gap < 0 {
					addEntry(*op.Index)
				} else if gap > *op.Index {
					shiftRight(gap, *op.Index)
				} else if gap < *op.Index {
					shiftLeft(*op.Index, gap)
				}
			}
			gap = -1
			m[*op.Index] = op.RoomID
		case "INVALIDATE":
			if len(op.Range) != 2 {
				bad("INVALIDATE without a range")
				continue
			}
			for i := op.Range[0]; i <= op.Range[1]; i++ {
				delete(m, i)
			}
		case "SYNC":
			if len(op.Range) != 2 {
				bad("SYNC without a range")
				continue
			}
			if len(op.RoomIDs) != op.Range[1]-op.Range[0]+1 {
				bad("SYNC range %v does not match the number of rooms %d", op.Range, len(op.RoomIDs))
			}
			for i := op.Range[0]; i <= op.Range[1]; i++ {
				k := i - op.Range[0]
				if k >= len(op.RoomIDs) {
					break
				}
				if !inRange(i) {
					bad("SYNC outside of the requested ranges: %d", i)
				}
				m[i] = op.RoomIDs[k]
			}
		default:
			bad("unknown operation %q", op.Op)
		}
	}
	if gap != -1 {
		removeEntry(gap)
	}
}

func fmtWin(m map[int]string) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d=%s ", k, m[k])
	}
	return s
}

type rawEv struct {
	EventID  string          `json:"event_id"`
	Type     string          `json:"type"`
	StateKey *string         `json:"state_key"`
	Sender   string          `json:"sender"`
	Content  json.RawMessage `json:"content"`
	TS       int64           `json:"origin_server_ts"`
	Unsigned struct {
		TxnID *string `json:"transaction_id"`
	} `json:"unsigned"`
}

func parseEv(b json.RawMessage) rawEv {
	var e rawEv
	_ = json.Unmarshal(b, &e)
	return e
}

func (c *Client) applyRoom(rid string, rr RespRoom) {
	cr := c.Rooms[rid]
	if cr == nil || rr.Initial {
		old := cr
		cr = &CRoom{ID: rid, State: map[[2]string]json.RawMessage{}, StateFromRS: map[[2]string]bool{}, LastIdx: -1, Seen: map[string]bool{}}
		if old != nil {
			cr.Initials = old.Initials
			if old.Contig {
				// still tracked: a new snapshot (changed parameters) only replaces what it carries
				cr.State, cr.StateFromRS = old.State, old.StateFromRS
				cr.Kept = true
				cr.Guar, cr.GuarAll, cr.Narrow = old.Guar, old.GuarAll, old.Narrow
				cr.Weak = map[[2]string]bool{}
				for k := range cr.State {
					cr.Weak[k] = true
				}
				// (with ignored users an empty timeline can mean that all of the latest messages are theirs: a new start)
				if len(rr.Timeline) == 0 && !c.sim.prof.Ignores {
					cr.Timeline, cr.InitTL, cr.Seen, cr.LastIdx = old.Timeline, old.InitTL, old.Seen, old.LastIdx
					cr.KeptTL = true
				}
			}
		}
		c.Rooms[rid] = cr
	}
	if rr.Initial {
		cr.Initials++
		if !cr.KeptTL {
			cr.InitTL = len(rr.Timeline)
		}
		c.sim.Count("initial_rooms", 1)
	}
	for _, ev := range rr.RequiredState {
		e := parseEv(ev)
		if e.StateKey != nil {
			k := [2]string{e.Type, *e.StateKey}
			cr.State[k] = ev
			cr.StateFromRS[k] = true
			delete(cr.Weak, k)
		}
	}
	for _, ev := range rr.Timeline {
		e := parseEv(ev)
		cr.Timeline = append(cr.Timeline, TLEvent{ID: e.EventID, Raw: ev, Live: !rr.Initial})
		if e.StateKey != nil {
			cr.State[[2]string{e.Type, *e.StateKey}] = ev
			delete(cr.Weak, [2]string{e.Type, *e.StateKey})
		}
		c.sim.Count("timeline_events", 1)
	}
	if rr.Name != nil {
		cr.Name = *rr.Name
	}
	if rr.Avatar != nil {
		cr.AvatarSet = true
		var v any
		_ = json.Unmarshal(rr.Avatar, &v)
		cr.Avatar = v
	}
	if rr.Heroes != nil {
		cr.Heroes = rr.Heroes
	}
	if rr.Joined != nil {
		cr.Joined = *rr.Joined
	}
	if rr.Invited != nil {
		cr.Invited = *rr.Invited
	}
	if rr.Notif != nil {
		cr.Notif = *rr.Notif
	}
	if rr.Highlight != nil {
		cr.Highlight = *rr.Highlight
	}
	if rr.Initial {
		cr.IsDM = rr.IsDM
		cr.InviteState = rr.InviteState
		cr.PrevBatch = rr.PrevBatch
	}
	if rr.Timestamp != 0 {
		cr.Timestamp = rr.Timestamp
	}
}

func rcptKey(user, kind, thread string) string { return user + "|" + kind + "|" + thread }

func (c *Client) applyExt(r *Resp) {
	e := r.Extensions
	if e.ToDevice != nil {
		evs := e.ToDevice.Events
		if c.tdRestart {
			// the first response after a proxy restart repeats what was not acknowledged (by design)
			for i := c.tdAcked; i < len(c.ToDev) && len(evs) > 0 && string(mustCanon(c.ToDev[i])) == string(mustCanon(evs[0])); i++ {
				evs = evs[1:]
				c.sim.Count("todevice_repeated_after_restart", 1)
			}
			c.tdRestart = false
		} else {
			c.tdAcked = len(c.ToDev)
		}
		if c.behind {
			// responses which had been waiting were made before the client acknowledged the ones before them
			have := map[string]bool{}
			for _, x := range c.ToDev {
				have[string(mustCanon(x))] = true
			}
			var fresh []json.RawMessage
			for _, x := range evs {
				if !have[string(mustCanon(x))] {
					fresh = append(fresh, x)
				}
			}
			evs = fresh
		}
		c.ToDev = append(c.ToDev, evs...)
		c.ToDevNext = e.ToDevice.NextBatch
		c.sim.Count("todevice_received", len(e.ToDevice.Events))
	}
	if e.E2EE != nil {
		if e.E2EE.OTK != nil {
			c.OTK = e.E2EE.OTK
		}
		if e.E2EE.Fallback != nil {
			c.Fallback = *e.E2EE.Fallback
			c.FallbackSet = true
		}
		if e.E2EE.DeviceLists != nil {
			for _, u := range e.E2EE.DeviceLists.Changed {
				c.DLEvents = append(c.DLEvents, DLEvent{u, false})
			}
			for _, u := range e.E2EE.DeviceLists.Left {
				c.DLEvents = append(c.DLEvents, DLEvent{u, true})
			}
			c.sim.Count("device_list_updates", len(e.E2EE.DeviceLists.Changed)+len(e.E2EE.DeviceLists.Left))
		}
	}
	if e.AccountData != nil {
		for _, ev := range e.AccountData.Global {
			c.GlobalAD[parseEv(ev).Type] = ev
			c.sim.Count("account_data", 1)
		}
		for rid, evs := range e.AccountData.Rooms {
			if c.RoomAD[rid] == nil {
				c.RoomAD[rid] = map[string]json.RawMessage{}
			}
			for _, ev := range evs {
				c.RoomAD[rid][parseEv(ev).Type] = ev
				c.sim.Count("account_data", 1)
			}
		}
	}
	if e.Typing != nil {
		for rid, raw := range e.Typing.Rooms {
			var t struct {
				Content struct {
					UserIDs []string `json:"user_ids"`
				} `json:"content"`
			}
			_ = json.Unmarshal(raw, &t)
			c.Typing[rid] = t.Content.UserIDs
			c.TypingSeen[rid]++
			c.sim.Count("typing", 1)
		}
	}
	if e.Receipts != nil {
		for rid, raw := range e.Receipts.Rooms {
			inEDU := map[string]int64{}
			for _, x := range parseReceipts(raw) {
				if c.Receipts[rid] == nil {
					c.Receipts[rid] = map[string]RcptView{}
				}
				k := rcptKey(x.User, x.Kind, x.Thread)
				if inEDU[k] > 0 {
					// an EDU has no order of its own: whichever is right is taken
					if room := c.sim.hs.rooms[rid]; room != nil && !newerReceipt(room, x, c.Receipts[rid][k]) {
						continue
					}
				}
				inEDU[k]++
				c.Receipts[rid][k] = RcptView{x.EventID, x.TS}
				c.sim.Count("receipts", 1)
			}
		}
	}
}

// newerReceipt: was x sent after the one with this view? Lock held or at rest.
func newerReceipt(room *Room, x rcpt, v RcptView) bool {
	a, b := int64(-1), int64(-1)
	for _, r := range room.Receipts {
		if r.UserID != x.User || r.Private != (x.Kind == "m.read.private") || r.ThreadID != x.Thread {
			continue
		}
		if r.EventID == x.EventID && r.TS == x.TS {
			a = r.Pos
		}
		if r.EventID == v.EventID && r.TS == v.TS {
			b = r.Pos
		}
	}
	return a > b
}

type rcpt struct {
	EventID, Kind, User, Thread string
	TS                          int64
}

func parseReceipts(raw json.RawMessage) []rcpt {
	var t struct {
		Content map[string]map[string]map[string]struct {
			TS     int64  `json:"ts"`
			Thread string `json:"thread_id"`
		} `json:"content"`
	}
	_ = json.Unmarshal(raw, &t)
	var out []rcpt
	for eid, kinds := range t.Content {
		for kind, users := range kinds {
			for u, v := range users {
				if u == "@ghost:hs" {
					continue // from the garbage of hostile.go
				}
				out = append(out, rcpt{eid, kind, u, v.Thread, v.TS})
			}
		}
	}
	return out
}

// Tracked reports whether the client is currently entitled to live data of the room:
// it is subscribed or visible in one of the windows.
func (c *Client) Tracked(room string) bool {
	if _, ok := c.Subs[room]; ok {
		return true
	}
	return c.InWindow(room)
}

func (c *Client) InWindow(room string) bool {
	for _, l := range c.Lists {
		if l.Cfg.Slow && l.SlowSet[room] {
			return true
		}
		for i, rid := range l.M {
			if rid == room && l.Cfg.InRange(i) {
				return true
			}
		}
	}
	return false
}

// Drain requests until the server has nothing more to say.
func (c *Client) Drain(max int) error {
	empty := 0
	for i := 0; i < max; i++ {
		r, err := c.Sync(0)
		if err == errExpired {
			continue
		}
		if err != nil {
			return err
		}
		if r.Empty() && len(c.pendLists) == 0 && len(c.pendSubs) == 0 {
			if empty++; empty > 1 {
				c.behind, c.settles = false, nil
			}
			if empty >= c.sim.prof.DrainEmpty {
				return nil
			}
		} else {
			empty = 0
		}
	}
	return fmt.Errorf("client %s: no quiescence after %d requests", c.Name, max)
}
