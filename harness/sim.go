package zzverif

import (
	"database/sql"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	syncv3 "github.com/matrix-org/sliding-sync"
)

type Violation struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
}

// Profile parametrises a scenario family.
type Profile struct {
	Users          int
	Devices        int // per user
	Rooms          int
	Steps          int
	W              map[string]int // weights of step kinds
	NoExt          bool
	Opts           func(o *syncv3.Opts)
	Lists          func(s *Sim, c *Client) // initial client configuration
	Burst          bool                    // mutate concurrently with the clients
	NoSettle       float64                 // probability to skip the settle before client steps
	PreEvents      int                     // events before the proxy first sees a room
	Check          func(s *Sim)            // at quiescence
	OnResp         func(s *Sim, c *Client, body []byte, r *Resp, raw []byte, initial bool)
	Setup          func(s *Sim)
	PostInit       func(s *Sim) // the proxy is up
	NoStay         bool
	Gaps           bool // homeserver timelines may be limited
	Ignores        bool // ignore lists in play
	NoOrder        bool
	Heroes         bool // rooms without names, clients asking for heroes
	TDCancel       bool
	StrictReceipts bool
	NoCheck        bool
	PanicOK        bool
	As             []string // further properties every violation in this profile is about
	DiffRestart    bool
	Fresh          float64 // probability of a fresh client at a quiescent check
	Env            []string
	Versions       []string // room versions
	Subs           func(s *Sim) RoomSubCfg
	Proxied        int          // only so many users use the proxy (0: all)
	Tokens         bool         // tokens come and go
	NoExpire       bool         // connections are not to be forgotten unless there is a reason
	Hostile        bool         // garbage in the homeserver's responses
	Main           func(s *Sim) // instead of steps
	SwarmW         map[string]int
	SwarmTime      time.Duration
	TxnDelay       time.Duration // how long own events are held back
	MaxPending     int           // what a connection's buffer holds
	DrainEmpty     int           // so many empty responses in a row before a client is up to date (0: 1)
	Conns          int           // connections per device (0: 1)
}

type Sim struct {
	junk      *Dev // the device of the user who only does odd things
	junkRooms []*Room
	canary    *Room
	seq27     int
	seq28     int

	prof  *Profile
	rng   *rand.Rand
	seed  int64
	hs    *HS
	proxy *Proxy
	db    *sql.DB
	nonce string

	users   []string
	rooms   []*Room
	clients []*Client
	extra   []*Client
	faulty  bool // database faults are being injected: server errors are to be expected

	swarms     []*swarmClient
	swarmStuck sync.Once
	mu         sync.Mutex
	counts     map[string]int
	sigs       map[uint64]bool
	viols      []Violation
	incon      []string
	steps      []string
	nName      int
	nTok       int
	lastRevoke map[*Dev]time.Time
	data       map[string]any
	atClose    []func()
}

func (s *Sim) Count(k string, n int) {
	s.mu.Lock()
	s.counts[k] += n
	s.mu.Unlock()
}

// Sig records a distinct observed state (for the evidence).
func (s *Sim) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s.mu.Lock()
	s.sigs[h.Sum64()] = true
	s.mu.Unlock()
}

func (s *Sim) Violate(props []string, kind, detail string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.viols) < 50 {
		s.viols = append(s.viols, Violation{s.as(props), kind, detail})
	}
}

// as adds the properties the whole profile is about.
func (s *Sim) as(props []string) []string { return append(append([]string{}, props...), s.prof.As...) }

func (s *Sim) Inconclusive(f string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.incon = append(s.incon, fmt.Sprintf(f, a...))
}

func (s *Sim) step(f string, a ...any) {
	s.steps = append(s.steps, fmt.Sprintf(f, a...))
	s.hs.With(func() { s.hs.logf("STEP "+f, a...) })
}

func NewSim(prof *Profile, seed int64, db *sql.DB, tag string) *Sim {
	s := &Sim{prof: prof, seed: seed, rng: rand.New(rand.NewSource(seed)), db: db, counts: map[string]int{}, sigs: map[uint64]bool{}, data: map[string]any{}, lastRevoke: map[*Dev]time.Time{}}
	s.nonce = fmt.Sprintf("%s%x", tag, seed&0xffffff)
	s.hs = NewHS(s.nonce)
	return s
}

func (s *Sim) Close() {
	for _, f := range s.atClose {
		f()
	}
	s.RemoveFaults()
	if s.proxy != nil {
		s.proxy.Stop()
	}
	s.hs.Close()
}

func (s *Sim) opts() syncv3.Opts {
	o := defaultOpts()
	if s.prof.Opts != nil {
		s.prof.Opts(&o)
	}
	return o
}

func (s *Sim) chance(p float64) bool { return s.rng.Float64() < p }

func pick[T any](s *Sim, xs []T) T { return xs[s.rng.Intn(len(xs))] }

// ---------- world construction ----------

func (s *Sim) Build() {
	p := s.prof
	for i := 0; i < p.Users; i++ {
		uid := fmt.Sprintf("@u%d-%s:hs", i, s.nonce)
		s.hs.AddUser(uid)
		s.users = append(s.users, uid)
		nd := p.Devices
		if nd == 0 {
			nd = 1
		}
		if p.Proxied > 0 && i >= p.Proxied {
			nd = 0
		}
		for k := 0; k < nd; k++ {
			d := s.hs.AddDevice(uid, fmt.Sprintf("D%d_%d_%s", i, k, s.nonce), fmt.Sprintf("tok_%d_%d_%s", i, k, s.nonce))
			d.OTK = map[string]int{"signed_curve25519": 50}
			d.Fallback = []string{"signed_curve25519"}
		}
	}
	for i := 0; i < p.Rooms; i++ {
		s.CreateRoom(RoomSpec{Creator: pick(s, s.users), Name: s.maybeName(), Type: s.maybeType(), Encrypted: s.chance(0.2)})
	}
	// memberships
	for _, r := range s.rooms {
		for _, u := range s.users {
			if r.Membership(u, maxPos) == "" && s.chance(0.65) {
				s.Join(r, u)
			}
		}
		n := p.PreEvents
		for k := 0; k < n; k++ {
			s.stepKinds()["msg"](s)
		}
	}
	if p.Setup != nil {
		p.Setup(s)
	}
	s.proxy = StartProxy(s.hs, dbConnString(), s.opts(), p.Env...)
	if p.PostInit != nil {
		p.PostInit(s)
	}
	for _, d := range s.hs.devList {
		if d == s.junk {
			continue
		}
		for i := 0; i == 0 || i < p.Conns; i++ {
			c := NewClient(s, d, []string{"", "c1", "c2"}[i])
			if p.Lists != nil {
				p.Lists(s, c)
			}
			s.clients = append(s.clients, c)
		}
	}
}

func (s *Sim) maybeName() string {
	if s.chance(0.6) {
		return s.newName()
	}
	return ""
}

func (s *Sim) newName() string {
	s.nName++
	return fmt.Sprintf("%c%c room %d", 'a'+rune(s.rng.Intn(26)), 'A'+rune(s.rng.Intn(26)), s.nName)
}

func (s *Sim) maybeType() string {
	if s.chance(0.15) {
		return "m.space"
	}
	return ""
}

type RoomSpec struct {
	Creator, Name, Type string
	Encrypted           bool
	Predecessor         string
	Version             string
}

func (s *Sim) CreateRoom(sp_ RoomSpec) *Room {
	r := s.hs.NewRoom(fmt.Sprintf("!r%d-%s:hs", len(s.hs.rooms), s.nonce))
	r.RoomType = sp_.Type
	r.Version = sp_.Version
	if r.Version == "" {
		r.Version = "10"
		if s.prof.Versions != nil {
			r.Version = pick(s, s.prof.Versions)
		}
	}
	s.hs.Do(func() {
		c := J{"creator": sp_.Creator, "room_version": r.Version}
		if sp_.Type != "" {
			c["type"] = sp_.Type
		}
		if sp_.Predecessor != "" {
			c["predecessor"] = J{"room_id": sp_.Predecessor, "event_id": "$x"}
		}
		s.hs.send(r, "m.room.create", sp(""), sp_.Creator, c, "", "", "")
		s.hs.send(r, "m.room.member", sp(sp_.Creator), sp_.Creator, s.memberContent(sp_.Creator, "join"), "", "", "")
		s.hs.send(r, "m.room.power_levels", sp(""), sp_.Creator, J{"users": J{sp_.Creator: 100}}, "", "", "")
		s.hs.send(r, "m.room.join_rules", sp(""), sp_.Creator, J{"join_rule": "public"}, "", "", "")
		if sp_.Encrypted {
			s.hs.send(r, "m.room.encryption", sp(""), sp_.Creator, J{"algorithm": "m.megolm.v1.aes-sha2"}, "", "", "")
		}
		if sp_.Name != "" {
			s.hs.send(r, "m.room.name", sp(""), sp_.Creator, J{"name": sp_.Name}, "", "", "")
		}
	})
	s.rooms = append(s.rooms, r)
	return r
}

func local(user string) string {
	return strings.TrimPrefix(strings.SplitN(user, ":", 2)[0], "@")
}

func (s *Sim) memberContent(user, membership string) J {
	j := J{"membership": membership}
	if membership == "join" || membership == "invite" {
		j["displayname"] = "N " + local(user)
	}
	return j
}

func (s *Sim) member(r *Room, target, sender, membership string) *Ev {
	var e *Ev
	if cur := r.Membership(target, maxPos); (membership == "invite" && cur != "") || (membership == "join" && cur != "") || (membership == "leave" && cur == "ban") {
		// known finding: the user's own poller and the pollers of others race with each other, so a stale
		// invite can overtake the join (or the leave the invite). Keep clear of it here.
		s.unpause()
		s.Settle()
	}
	s.hs.Do(func() {
		e = s.hs.send(r, "m.room.member", sp(target), sender, s.memberContent(target, membership), "", "", "")
		if membership == "invite" {
			s.hs.setInviteState(r, target)
		}
	})
	return e
}

func (s *Sim) Join(r *Room, u string) *Ev { return s.member(r, u, u, "join") }

// ---------- random steps ----------

func (s *Sim) joinedRoomUser() (*Room, string) {
	for i := 0; i < 30; i++ {
		r := pick(s, s.rooms)
		ms := r.MembersWith("join")
		if len(ms) > 0 {
			return r, pick(s, ms)
		}
	}
	return nil, ""
}

func (s *Sim) stepKinds() map[string]func(s *Sim) {
	return map[string]func(s *Sim){
		"msg": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			n := 1 + s.rng.Intn(3)
			for i := 0; i < n; i++ {
				s.hs.Send(r, "m.room.message", nil, u, J{"body": fmt.Sprintf("m%d", s.rng.Int31()), "msgtype": "m.text"})
			}
		},
		"flood": func(s *Sim) { s.Flood() },
		"msgbatch": func(s *Sim) {
			// several rooms at once, atomically
			s.hs.Do(func() {
				n := 2 + s.rng.Intn(6)
				for i := 0; i < n; i++ {
					r, u := s.joinedRoomUser()
					if r != nil {
						s.hs.send(r, pick(s, []string{"m.room.message", "m.room.message", "m.reaction", "m.room.encrypted"}), nil, u, J{"body": fmt.Sprintf("b%d", s.rng.Int31())}, "", "", "")
					}
				}
			})
		},
		"burst": func(s *Sim) {
			// more than a connection takes in at once
			for k := 0; k < 3; k++ {
				r, u := s.joinedRoomUser()
				if r == nil {
					return
				}
				s.hs.Do(func() {
					for i, n := 0, 30+s.rng.Intn(30); i < n; i++ {
						s.hs.send(r, "m.room.message", nil, u, J{"body": fmt.Sprintf("burst%d", s.rng.Int31())}, "", "", "")
					}
				})
			}
			s.Settle()
		},
		"state": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			switch s.rng.Intn(7) {
			case 0:
				s.hs.Send(r, "m.room.topic", sp(""), u, J{"topic": fmt.Sprintf("t%d", s.rng.Int31())})
			case 1:
				s.hs.Send(r, "m.room.avatar", sp(""), u, J{"url": fmt.Sprintf("mxc://a/%d", s.rng.Intn(1000))})
			case 2:
				s.hs.Send(r, "com.custom", sp(fmt.Sprintf("k%d", s.rng.Intn(3))), u, J{"v": s.rng.Int31()})
			case 3:
				s.hs.Send(r, "m.room.canonical_alias", sp(""), u, J{"alias": fmt.Sprintf("#al%d:hs", s.rng.Intn(1000))})
			case 4:
				if _, ok := r.Cur()[[2]string{"m.room.encryption", ""}]; !ok {
					s.hs.Send(r, "m.room.encryption", sp(""), u, J{"algorithm": "m.megolm.v1.aes-sha2"})
				}
			case 5:
				s.hs.Send(r, "m.room.join_rules", sp(""), u, J{"join_rule": pick(s, []string{"public", "invite"})})
			case 6:
				s.hs.Send(r, "com.custom", sp(u), u, J{"v": s.rng.Int31()})
			}
		},
		"name": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			n := s.newName()
			if s.chance(0.15) || s.prof.Heroes && s.chance(0.7) {
				n = ""
			}
			s.hs.Send(r, "m.room.name", sp(""), u, J{"name": n})
		},
		"profile": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			c := J{"membership": "join", "displayname": fmt.Sprintf("P%d %s", s.rng.Intn(100), local(u))}
			if s.chance(0.3) {
				delete(c, "displayname")
			}
			if s.chance(0.5) {
				c["avatar_url"] = fmt.Sprintf("mxc://p/%d", s.rng.Intn(100))
			}
			s.hs.Send(r, "m.room.member", sp(u), u, c)
		},
		"crowd": func(s *Sim) {
			r := pick(s, s.rooms)
			g := fmt.Sprintf("@crowd%d:hs", s.rng.Intn(9))
			switch r.Membership(g, maxPos) {
			case "join":
				switch x := s.rng.Intn(10); {
				case x < 5:
					c := J{"membership": "join", "displayname": fmt.Sprintf("C%d %s", s.rng.Intn(100), local(g))}
					if s.chance(0.2) {
						delete(c, "displayname")
					}
					s.hs.Send(r, "m.room.member", sp(g), g, c)
				case x < 8:
					s.member(r, g, g, "leave")
				case x < 9:
					s.member(r, g, pick(s, r.MembersWith("join")), "leave")
				default:
					s.hs.Send(r, "m.room.message", nil, g, J{"body": "x", "msgtype": "m.text"})
				}
			case "invite":
				s.hs.Send(r, "m.room.member", sp(g), g, J{"membership": pick(s, []string{"join", "join", "leave"}), "displayname": "N " + local(g)})
			case "ban":
			default:
				m := "join"
				by := g
				if s.chance(0.2) {
					m, by = "invite", pick(s, r.MembersWith("join"))
				}
				s.hs.Send(r, "m.room.member", sp(g), by, J{"membership": m, "displayname": fmt.Sprintf("C%d %s", s.rng.Intn(100), local(g))})
			}
		},
		"join": func(s *Sim) {
			r, u := pick(s, s.rooms), pick(s, s.users)
			m := r.Membership(u, maxPos)
			if m == "join" || m == "ban" || len(r.MembersWith("join")) == 0 {
				return
			}
			s.Join(r, u)
		},
		"leave": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil || (s.prof.NoStay && len(r.MembersWith("join")) < 2) {
				return
			}
			s.member(r, u, u, "leave")
		},
		"kick": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			ms := r.MembersWith("join")
			t := pick(s, ms)
			if t == u {
				return
			}
			s.member(r, t, u, pick(s, []string{"leave", "leave", "ban"}))
		},
		"unban": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			for _, b := range r.MembersWith("ban") {
				s.member(r, b, u, "leave")
			}
		},
		"invite": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			t := pick(s, s.users)
			m := r.Membership(t, maxPos)
			if m == "join" || m == "ban" || (m == "invite" && s.chance(0.5)) {
				return
			}
			s.member(r, t, u, "invite")
		},
		"rejectinvite": func(s *Sim) {
			for _, r := range s.rooms {
				for _, u := range r.MembersWith("invite") {
					if s.chance(0.5) {
						s.member(r, u, u, "leave")
						return
					}
				}
			}
		},
		"revokeinvite": func(s *Sim) {
			for _, r := range s.rooms {
				js := r.MembersWith("join")
				for _, u := range r.MembersWith("invite") {
					if s.chance(0.5) && len(js) > 0 {
						s.member(r, u, js[0], "leave")
						return
					}
				}
			}
		},
		"create": func(s *Sim) {
			if len(s.rooms) > 3*s.prof.Rooms+4 {
				return
			}
			u := pick(s, s.users)
			s.CreateRoom(RoomSpec{Creator: u, Name: s.maybeName(), Type: s.maybeType(), Encrypted: s.chance(0.2)})
		},
		"spacechild": func(s *Sim) {
			var spaces []*Room
			for _, r := range s.rooms {
				if r.RoomType == "m.space" && len(r.MembersWith("join")) > 0 {
					spaces = append(spaces, r)
				}
			}
			if len(spaces) == 0 {
				return
			}
			sp_ := pick(s, spaces)
			ch := pick(s, s.rooms)
			if ch == sp_ {
				return
			}
			u := pick(s, sp_.MembersWith("join"))
			c := J{"via": []string{"hs"}}
			if s.chance(0.35) {
				c = J{}
			}
			s.hs.Send(sp_, "m.space.child", sp(ch.ID), u, c)
		},
		"unread": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			s.SetUnread(u, r, s.rng.Intn(4), s.rng.Intn(3))
		},
		"tag": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			tags := J{}
			for _, t := range []string{"m.favourite", "m.lowpriority", "u.x"} {
				if s.chance(0.4) {
					tags[t] = J{"order": s.rng.Float64()}
				}
			}
			s.SetRoomAD(u, r, "m.tag", J{"tags": tags})
		},
		"roomad": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			s.SetRoomAD(u, r, fmt.Sprintf("com.ad.%d", s.rng.Intn(3)), J{"v": s.rng.Int31(), "owner": u})
		},
		"globalad": func(s *Sim) {
			u := pick(s, s.users)
			s.SetGlobalAD(u, fmt.Sprintf("com.gad.%d", s.rng.Intn(4)), J{"v": s.rng.Int31(), "owner": u})
		},
		"direct": func(s *Sim) {
			u := pick(s, s.users)
			m := J{}
			for _, r := range s.rooms {
				if r.Membership(u, maxPos) == "join" && s.chance(0.3) {
					o := pick(s, s.users)
					l, _ := m[o].([]string)
					m[o] = append(l, r.ID)
				}
			}
			s.SetGlobalAD(u, "m.direct", m)
		},
		"typing": func(s *Sim) {
			r := pick(s, s.rooms)
			ms := r.MembersWith("join")
			if len(ms) == 0 {
				return
			}
			var t []string
			for _, m := range ms {
				if s.chance(0.5) {
					t = append(t, m)
				}
			}
			if fmt.Sprint(t) == fmt.Sprint(r.Typing) {
				return // homeservers only tell of changes
			}
			s.hs.Do(func() { r.Typing = t; r.TypePos = s.hs.bump(); s.hs.logf("typing %s %v", r.ID, t) })
		},
		"receipt": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			var vis []*Ev
			for _, e := range r.Events {
				vis = append(vis, e)
			}
			e := vis[len(vis)-1-s.rng.Intn(min(len(vis), 4))]
			private := s.chance(0.3)
			var on []Receipt
			for _, x := range r.Receipts {
				if x.UserID == u && x.EventID == e.ID && x.Private == private {
					on = append(on, x)
				}
			}
			th := ""
			if s.chance(0.25) {
				th = pick(s, []string{"main", "$thread1"})
			}
			if len(on) > 1 || (len(on) == 1 && (on[0].ThreadID == "") == (th == "")) {
				return // one event cannot carry two receipts of a user and kind in one EDU (but for an unthreaded one)
			}
			s.hs.Do(func() {
				s.hs.ts += 10
				rc := Receipt{Pos: s.hs.bump(), EventID: e.ID, UserID: u, Private: private, ThreadID: th, TS: s.hs.ts}
				if s.chance(0.25) {
					rc.TS -= int64(s.rng.Intn(5000)) // clocks differ
				}
				r.Receipts = append(r.Receipts, rc)
				s.hs.logf("receipt %+v in %s", rc, r.ID)
			})
		},
		"todevice": func(s *Sim) {
			d := pick(s, s.hs.devList)
			n := 1 + s.rng.Intn(4)
			s.hs.Do(func() {
				for i := 0; i < n; i++ {
					s.sendToDevice(d, "m.custom.msg", J{})
				}
			})
		},
		"keyreq": func(s *Sim) {
			d := pick(s, s.hs.devList)
			n := 1 + s.rng.Intn(3)
			s.hs.Do(func() {
				for i := 0; i < n; i++ {
					s.keyRequest(d)
				}
			})
			// known finding K-p: a cancellation which is stored while a response with the request is being put
			// together is dropped. Keep clear of it.
			s.unpause()
			s.Settle()
		},
		"devlist": func(s *Sim) {
			d := pick(s, s.hs.devList)
			s.hs.Do(func() {
				d.DL = append(d.DL, DLChange{Pos: s.hs.bump(), User: pick(s, s.users), Left: s.chance(0.3)})
				s.hs.logf("devlist %s %+v", d.DeviceID, d.DL[len(d.DL)-1])
			})
		},
		"otk": func(s *Sim) {
			d := pick(s, s.hs.devList)
			s.hs.Do(func() {
				d.OTK = map[string]int{"signed_curve25519": s.rng.Intn(100)}
				if s.chance(0.3) {
					d.OTK["curve25519"] = s.rng.Intn(10)
				}
				if s.chance(0.3) {
					d.Fallback = pick(s, [][]string{{}, {"signed_curve25519"}, {"curve25519"}})
				}
				d.KeysPos = s.hs.bump()
				s.hs.logf("otk %s %v %v", d.DeviceID, d.OTK, d.Fallback)
			})
		},
		"redact": func(s *Sim) {
			r, u := s.joinedRoomUser()
			if r == nil {
				return
			}
			e := pick(s, r.Events)
			if s.chance(0.5) {
				// current state is where a redaction matters most
				st := sortedState(r.Cur())
				e = pick(s, st)
			}
			switch e.Type {
			case "m.room.create", "m.room.redaction", "m.space.child", "m.room.tombstone", "m.room.encryption":
				return
			case "m.room.member":
				if e.Membership() != "join" {
					return
				}
			}
			if e.RedactedBy != nil {
				return
			}
			if cur := r.Cur(); e.StateKey != nil && cur[[2]string{e.Type, *e.StateKey}] == e {
				// known finding: the metadata is reloaded ahead of the events that came with the redaction, so
				// whoever leaves in the same batch is told of what came later in it
				s.Settle()
				s.Redact(r, e, u)
				s.Settle()
				return
			}
			s.Redact(r, e, u)
		},
		"redactother": func(s *Sim) {
			// a redaction may name an event of another room: it has no effect
			r, u := s.joinedRoomUser()
			o := pick(s, s.rooms)
			if r == nil || o == r {
				return
			}
			e := pick(s, o.Events)
			s.hs.Do(func() { s.hs.redact(r, e, u) })
		},
		"ignore": func(s *Sim) {
			u := pick(s, s.users)
			ig := J{}
			for _, o := range s.users {
				if o != u && s.chance(0.3) {
					ig[o] = J{}
				}
			}
			s.SetGlobalAD(u, "m.ignored_user_list", J{"ignored_users": ig})
			s.hs.With(func() {
				us := s.hs.users[u]
				v := IgnoreVer{Pos: us.AccountData["m.ignored_user_list"].Pos, Who: map[string]bool{}}
				for o := range ig {
					v.Who[o] = true
				}
				us.Ignores = append(us.Ignores, v)
			})
		},
		"restart":     func(s *Sim) { s.Restart() },
		"fault":       func(s *Sim) { s.ArmFault() },
		"crash":       func(s *Sim) { s.CrashSoon() },
		"rdiff":       func(s *Sim) { s.RestartDiff() },
		"fresh":       func(s *Sim) { s.FreshCheck() },
		"gap":         func(s *Sim) { s.Gap() },
		"revoke":      func(s *Sim) { s.RevokeToken() },
		"newtoken":    func(s *Sim) { s.NewToken() },
		"unused":      func(s *Sim) { s.ExpireUnused() },
		"hsdown":      func(s *Sim) { s.HomeserverDown() },
		"badtoken":    func(s *Sim) { s.BadTokens() },
		"crossuse":    func(s *Sim) { s.CrossUse() },
		"rush":        func(s *Sim) { s.Rush() },
		"fuzz":        func(s *Sim) { s.FuzzRequests() },
		"weird":       func(s *Sim) { s.Weird() },
		"junkroom":    func(s *Sim) { s.JunkRoom() },
		"badpos":      func(s *Sim) { s.badPos() },
		"dup":         func(s *Sim) { s.duplicates() },
		"cut":         func(s *Sim) { s.cutShort() },
		"lostchanged": func(s *Sim) { s.lostChanged() },
		"clean":       func(s *Sim) { s.Clean() },
		"stateburst":  func(s *Sim) { s.StateBurst() },
		"upgrade":     func(s *Sim) { s.upgradeRoom("") },
		"oldrooms":    func(s *Sim) { s.oldRooms() },
		"scope":       func(s *Sim) { s.scopeStep() },
		"oldlive":     func(s *Sim) { s.oldLive() },
		"settle":      func(s *Sim) { s.Settle() },
		"check":       func(s *Sim) { s.Quiesce() },
		"sync":        func(s *Sim) { s.SyncSome() },
		"ranges":      func(s *Sim) { s.changeRanges() },
		"sort":        func(s *Sim) { s.changeSort() },
		"filter":      func(s *Sim) { s.changeFilter() },
		"addlist":     func(s *Sim) { s.addList() },
		"dellist":     func(s *Sim) { s.delList() },
		"sub":         func(s *Sim) { s.changeSub() },
		"unsub":       func(s *Sim) { s.unsub() },
		"reqparams": func(s *Sim) {
			s.changeReqParams()
		},
		"newconn": func(s *Sim) { s.newConn() },
		"bump": func(s *Sim) {
			c := s.randClient()
			k, l := s.randList(c)
			if l == nil {
				return
			}
			nb := s.randBump()
			c.PatchList(k, s.chance(0.5), func(cfg *ListCfg) { cfg.Bump = nb }, "bump_event_types")
			s.step("client %s list %s bump -> %v", c.Name, k, nb)
			s.syncOne(c)
		},
		"lost": func(s *Sim) { s.lostResponse() },
		"pause": func(s *Sim) {
			d := pick(s, s.hs.devList)
			s.hs.Do(func() {
				// (known finding: a device polled for the first time overtakes the user's other devices)
				ok := true
				for _, o := range s.hs.devList {
					ok = ok && (o.UserID != d.UserID || o.served > 0)
				}
				if d.Paused {
					s.hs.resume(d)
				} else {
					d.Paused = d.waiting && d.gen == s.hs.gen && ok
				}
				s.hs.logf("paused %s=%v", d.DeviceID, d.Paused)
			})
		},
		"txnmsg": func(s *Sim) { s.TxnMsg() },
		"pollerr": func(s *Sim) {
			d := pick(s, s.hs.devList)
			s.hs.Do(func() { d.failNext = append(d.failNext, pick(s, []int{500, 502, 0, 429, 404})) })
		},
	}
}

func (s *Sim) Redact(r *Room, e *Ev, by string) *Ev {
	var red *Ev
	s.hs.Do(func() {
		red = s.hs.redact(r, e, by)
	})
	return red
}

func (s *Sim) sendToDevice(d *Dev, typ string, content J) {
	key := fmt.Sprintf("td-%d-%s", s.hs.nev, s.nonce)
	s.hs.nev++
	content["k"] = key
	raw := mustJSON(J{"type": typ, "sender": s.users[0], "content": content})
	d.ToDevice = append(d.ToDevice, ToDevice{Pos: s.hs.bump(), Raw: raw, Key: key})
	s.hs.logf("todevice %s %s", d.DeviceID, key)
}

// keyRequest: a request for room keys, or the cancellation of one. Lock held.
func (s *Sim) keyRequest(d *Dev) {
	open, done := map[string]int{}, map[string]bool{}
	for i, m := range d.ToDevice {
		if m.Pair == "" {
			continue
		}
		if m.Cancel {
			delete(open, m.Pair)
			done[m.Pair] = true
		} else {
			open[m.Pair] = i
			done[m.Pair] = true
		}
	}
	pair := fmt.Sprintf("%s|DEV%d|req%d", pick(s, s.users), s.rng.Intn(2), s.rng.Intn(4))
	cancel := s.chance(0.1)
	if len(open) > 0 && s.chance(0.5) {
		var ks []string
		for k := range open {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		pair, cancel = pick(s, ks), true
	} else if done[pair] {
		return
	}
	f := strings.Split(pair, "|")
	action := "request"
	if cancel {
		action = "request_cancellation"
	}
	key := fmt.Sprintf("td-%d-%s", s.hs.nev, s.nonce)
	s.hs.nev++
	raw := mustJSON(J{"type": "m.room_key_request", "sender": f[0], "content": J{"k": key, "action": action, "requesting_device_id": f[1], "request_id": f[2]}})
	m := ToDevice{Pos: s.hs.bump(), Raw: raw, Key: key, Pair: pair, Cancel: cancel}
	if i, ok := open[pair]; ok && cancel {
		want := string(mustCanon(d.ToDevice[i].Raw))
		for _, c := range s.clients {
			if c.Dev != d {
				continue
			}
			for _, x := range c.ToDev {
				if string(mustCanon(x)) == want {
					m.MustPair = true
				}
			}
		}
		s.Count("c09_cancellations", 1)
	}
	d.ToDevice = append(d.ToDevice, m)
	s.hs.logf("todevice %s %s %s %s", d.DeviceID, key, action, pair)
}

func (s *Sim) SetUnread(u string, r *Room, n, h int) {
	s.hs.Do(func() {
		s.hs.users[u].Unread[r.ID] = Unread{Pos: s.hs.bump(), N: n, H: h}
		s.hs.logf("unread %s %s n=%d h=%d", u, r.ID, n, h)
	})
}

func (s *Sim) SetRoomAD(u string, r *Room, typ string, c J) {
	s.hs.Do(func() {
		us := s.hs.users[u]
		if us.RoomAD[r.ID] == nil {
			us.RoomAD[r.ID] = map[string]Stamped{}
		}
		us.RoomAD[r.ID][typ] = s.restamp(us.RoomAD[r.ID][typ], typ, c)
		s.hs.logf("roomad %s %s %s %s", u, r.ID, typ, mustJSON(c))
	})
}

func (s *Sim) SetGlobalAD(u string, typ string, c J) {
	s.hs.Do(func() {
		s.hs.users[u].AccountData[typ] = s.restamp(s.hs.users[u].AccountData[typ], typ, c)
		s.hs.logf("globalad %s %s %s", u, typ, mustJSON(c))
	})
}

func (s *Sim) Restart() {
	s.unpause() // (requests wait for their device's first poll)
	s.proxy.Restart()
	s.Count("restarts", 1)
	for _, c := range s.clients {
		c.logf("== proxy restarted ==")
		c.tdRestart = true
		c.mayExpire = true
	}
}

func (s *Sim) unpause() {
	s.hs.Do(func() {
		for _, d := range s.hs.devList {
			s.hs.resume(d)
		}
	})
}

// Settle waits until all pollers have consumed the ground truth.
func (s *Sim) Settle() bool {
	if err := s.hs.WaitSettled(60 * time.Second); err != nil {
		s.dumpStacks()
		s.Violate([]string{"C16", "C20"}, "a poller does not get on", err.Error())
		return false
	}
	return true
}

// dumpStacks puts what the proxy is doing into the log.
func (s *Sim) dumpStacks() {
	fmt.Fprintln(s.proxy.stdin, "stacks")
	time.Sleep(time.Second)
	out := s.proxy.Output()
	if i := strings.LastIndex(out, "goroutine 1 ["); i >= 0 {
		out = out[i:]
	}
	s.hs.With(func() { s.hs.logf("the proxy's goroutines:\n%s", tail(out, 200000)) })
}

func (s *Sim) SyncSome() {
	n := 1 + s.rng.Intn(len(s.clients))
	perm := s.rng.Perm(len(s.clients))
	for _, i := range perm[:n] {
		if _, err := s.clients[i].Sync(0); err != nil && err != errExpired {
			s.clientErr(s.clients[i], err)
		}
	}
}

func (s *Sim) clientErr(c *Client, err error) {
	if s.faulty {
		s.Count("server_errors_under_faults", 1)
		return
	}
	s.Violate([]string{"C20", "C25"}, "request failed", fmt.Sprintf("client %s: %v; body %s", c.Name, err, c.LastBody))
}

// Quiesce: everything ingested, everything delivered, then the oracles.
func (s *Sim) Quiesce() bool {
	s.ClearFaults()
	s.unpause()
	for round := 0; round < 2; round++ {
		if !s.Settle() {
			return false
		}
		if d := s.prof.TxnDelay; d > 0 && d < 10*time.Second {
			time.Sleep(d + 100*time.Millisecond)
		}
		var wg sync.WaitGroup
		fail := make([]error, len(s.clients))
		for i, c := range s.clients {
			wg.Add(1)
			go func(i int, c *Client) {
				defer wg.Done()
				fail[i] = c.Drain(60)
			}(i, c)
		}
		wg.Wait()
		for i, err := range fail {
			if err != nil {
				s.clientErr(s.clients[i], err)
				return false
			}
		}
		// first requests after a restart (re)start pollers: go round again if anything moved
		s.hs.mu.Lock()
		ok, _ := s.hs.settledLocked()
		s.hs.mu.Unlock()
		if ok && round > 0 {
			break
		}
		if ok && !s.recentlyStarted() {
			break
		}
	}
	s.Count("quiescent_checks", 1)
	if len(s.viols) > 0 {
		return true
	}
	if !s.prof.NoCheck {
		errs := s.CheckViews()
		for try := 0; try < 3 && len(errs) > 0; try++ {
			// give stragglers a chance: only what persists is a violation
			time.Sleep(time.Duration(200*(try+1)) * time.Millisecond)
			s.Count("rechecks", 1)
			for _, c := range s.clients {
				if err := c.Drain(60); err != nil {
					s.clientErr(c, err)
					return false
				}
			}
			errs = s.CheckViews()
		}
		s.mu.Lock()
		for _, v := range errs {
			v.Props = s.as(v.Props)
			s.viols = append(s.viols, v)
		}
		s.mu.Unlock()
	}
	s.MarkQuiescent()
	if len(s.viols) == 0 && s.chance(s.prof.Fresh) {
		s.FreshCheck()
	}
	if s.prof.Check != nil {
		s.prof.Check(s)
	}
	return true
}

func (s *Sim) recentlyStarted() bool { return true }

// ---------- client parameter churn ----------

func (s *Sim) randClient() *Client { return pick(s, s.clients) }

func (s *Sim) randList(c *Client) (string, *CList) {
	var ks []string
	for k := range c.Lists {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return "", nil
	}
	sort.Strings(ks)
	k := pick(s, ks)
	return k, c.Lists[k]
}

func (s *Sim) randRanges() [][2]int {
	n := len(s.rooms) + 2
	switch s.rng.Intn(5) {
	case 0:
		return [][2]int{{0, s.rng.Intn(n)}}
	case 1:
		a := s.rng.Intn(n)
		return [][2]int{{a, a + s.rng.Intn(4)}}
	case 2:
		a := s.rng.Intn(3)
		b := a + 2 + s.rng.Intn(3)
		return [][2]int{{0, a}, {b, b + s.rng.Intn(3)}}
	case 3:
		return [][2]int{{0, 100}}
	default:
		return [][2]int{{0, 1 + s.rng.Intn(4)}}
	}
}

func (s *Sim) changeRanges() {
	c := s.randClient()
	k, l := s.randList(c)
	if l == nil || l.Cfg.Slow {
		return
	}
	if c.behind {
		// operations that have been waiting are about the ranges of their time
		if err := c.Drain(60); err != nil {
			s.clientErr(c, err)
			return
		}
	}
	nr := s.randRanges()
	c.PatchList(k, s.chance(0.3), func(cfg *ListCfg) { cfg.Ranges = nr }, "ranges")
	s.step("client %s list %s ranges -> %v", c.Name, k, nr)
	s.syncOne(c)
}

func (s *Sim) syncOne(c *Client) {
	if _, err := c.Sync(0); err != nil && err != errExpired {
		s.clientErr(c, err)
	}
}

func (s *Sim) randSort() []string {
	all := [][]string{{"by_recency"}, {"by_name"}, {"by_name", "by_recency"}, {"by_notification_level", "by_recency"}, {"by_notification_count", "by_recency"},
		{"by_highlight_count", "by_notification_count", "by_recency"}, {"by_notification_level", "by_name"}, {"by_highlight_count", "by_name"}}
	return pick(s, all)
}

func (s *Sim) randBump() []string {
	return pick(s, [][]string{{"m.room.message"}, {"m.room.message", "m.room.encrypted"}, {"m.reaction"}, {"m.room.topic", "m.room.encrypted"}})
}

func (s *Sim) changeSort() {
	c := s.randClient()
	k, l := s.randList(c)
	if l == nil || l.Cfg.Slow {
		return
	}
	ns := s.randSort()
	c.PatchList(k, s.chance(0.3), func(cfg *ListCfg) { cfg.Sort = ns }, "sort")
	s.step("client %s list %s sort -> %v", c.Name, k, ns)
	s.syncOne(c)
}

func (s *Sim) randFilter() J {
	f := J{}
	b := func() bool { return s.chance(0.5) }
	n := 1
	if s.chance(0.3) {
		n = 2
	}
	for i := 0; i < n; i++ {
		switch s.rng.Intn(9) {
		case 0:
			f["is_encrypted"] = b()
		case 1:
			f["is_invite"] = b()
		case 2:
			f["room_name_like"] = pick(s, []string{"room", "a", "n u", "1", "B"})
		case 3:
			f["tags"] = []string{pick(s, []string{"m.favourite", "u.x"})}
		case 4:
			f["not_tags"] = []string{pick(s, []string{"m.lowpriority", "u.x"})}
		case 5:
			f["room_types"] = pick(s, [][]any{{nil}, {"m.space"}, {"m.space", nil}})
		case 6:
			f["not_room_types"] = pick(s, [][]any{{nil}, {"m.space"}})
		case 7:
			f["is_dm"] = b()
		case 8:
			var sps []string
			for _, r := range s.rooms {
				if r.RoomType == "m.space" {
					sps = append(sps, r.ID)
				}
			}
			if len(sps) > 0 {
				f["spaces"] = []string{pick(s, sps)}
			}
		}
	}
	return f
}

func (s *Sim) changeFilter() {
	c := s.randClient()
	k, l := s.randList(c)
	if l == nil {
		return
	}
	nf := s.randFilter()
	if s.chance(0.25) {
		nf = J{}
	}
	c.PatchList(k, s.chance(0.3), func(cfg *ListCfg) { cfg.Filters = nf }, "filters")
	s.step("client %s list %s filters -> %s", c.Name, k, mustJSON(nf))
	s.syncOne(c)
}

func (s *Sim) addList() {
	c := s.randClient()
	if len(c.Lists) >= 3 {
		return
	}
	k := fmt.Sprintf("L%d", s.rng.Intn(4))
	if c.Lists[k] != nil {
		return
	}
	if _, pending := c.pendLists[k]; pending {
		return
	}
	cfg := ListCfg{Ranges: s.randRanges(), Sort: s.randSort(), RoomSubCfg: s.randSub()}
	if s.chance(0.5) {
		cfg.Filters = s.randFilter()
	}
	c.SetList(k, cfg)
	s.step("client %s new list %s %s", c.Name, k, mustJSON(cfg.J()))
	s.syncOne(c)
}

func (s *Sim) delList() {
	c := s.randClient()
	k, l := s.randList(c)
	if l == nil || len(c.Lists) < 2 {
		return
	}
	c.DeleteList(k)
	s.step("client %s delete list %s", c.Name, k)
	s.syncOne(c)
}

func (s *Sim) randSub() RoomSubCfg {
	if s.prof.Subs != nil {
		return s.prof.Subs(s)
	}
	rs := pick(s, [][][2]string{
		{{"*", "*"}},
		{{"m.room.name", ""}, {"m.room.topic", ""}},
		{{"m.room.create", ""}, {"m.room.member", "$ME"}, {"com.custom", "*"}},
		{{"m.room.join_rules", ""}, {"m.room.member", "*"}},
		{{"m.room.avatar", ""}, {"com.custom", "k1"}, {"m.room.power_levels", ""}},
	})
	return RoomSubCfg{ReqState: rs, TimelineLimit: 1 + s.rng.Intn(6)}
}

func (s *Sim) changeSub() {
	c := s.randClient()
	r := pick(s, s.rooms)
	cfg := s.randSub()
	old, had := c.Subs[r.ID]
	settled := s.settledView(c)
	c.Subscribe(r.ID, cfg)
	s.step("client %s subscribe %s %s", c.Name, r.ID, mustJSON(cfg.J()))
	if had && old.TimelineLimit == cfg.TimelineLimit && fmt.Sprint(old.ReqState) == fmt.Sprint(cfg.ReqState) {
		settled = false
	}
	s.syncResent(c, settled, []string{r.ID}, func(rid string) bool { _, ok := c.Subs[rid]; return ok })
}

// settledView: the client has everything the server sent to it, and the server knows what it asks for
func (s *Sim) settledView(c *Client) bool {
	return !c.behind && c.Pos != "" && c.InitialDone && len(c.pendLists) == 0 && len(c.pendSubs) == 0
}

// syncResent: the client has changed what it wants of these rooms, which the response has to answer
func (s *Sim) syncResent(c *Client, settled bool, rooms []string, still func(rid string) bool) {
	n := c.NResp
	var due []string
	s.hs.With(func() {
		for _, rid := range rooms {
			room, cr := s.hs.rooms[rid], c.Rooms[rid]
			if room != nil && cr != nil && cr.Contig && len(cr.InviteState) == 0 && len(room.Stays(c.Dev.UserID)) == 1 && room.Membership(c.Dev.UserID, maxPos) == "join" && c.Tracked(rid) {
				due = append(due, rid)
			}
		}
	})
	s.syncOne(c)
	if !settled || c.NResp != n+1 {
		return
	}
	for _, rid := range due {
		if still(rid) {
			s.Count("c18_resent", 1)
			if !c.LastInitial[rid] {
				s.Violate([]string{"C18", "C06"}, "changed parameters without an answer", fmt.Sprintf("client %s room %s: not sent anew", c.Name, rid))
			}
		}
	}
}

func (s *Sim) unsub() {
	c := s.randClient()
	var ks []string
	for k := range c.Subs {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return
	}
	sort.Strings(ks)
	k := pick(s, ks)
	c.Unsubscribe(k)
	s.step("client %s unsubscribe %s", c.Name, k)
	s.syncOne(c)
}

func (s *Sim) changeReqParams() {
	c := s.randClient()
	k, l := s.randList(c)
	if l == nil {
		return
	}
	ns := s.randSub()
	old, settled := l.Cfg, s.settledView(c)
	var rooms []string
	for i, rid := range l.M {
		if l.Cfg.InRange(i) && !l.Cfg.Slow {
			rooms = append(rooms, rid)
		}
	}
	if s.chance(0.5) {
		c.PatchList(k, false, func(cfg *ListCfg) { cfg.TimelineLimit = ns.TimelineLimit }, "timeline_limit")
	} else {
		c.PatchList(k, false, func(cfg *ListCfg) { cfg.ReqState = ns.ReqState }, "required_state")
	}
	s.step("client %s list %s params", c.Name, k)
	if old.TimelineLimit == l.Cfg.TimelineLimit && fmt.Sprint(old.ReqState) == fmt.Sprint(l.Cfg.ReqState) {
		settled = false
	}
	s.syncResent(c, settled, rooms, func(rid string) bool {
		for i, x := range l.M {
			if x == rid && l.Cfg.InRange(i) {
				return true
			}
		}
		return false
	})
}

func (s *Sim) newConn() {
	c := s.randClient()
	if c.behind && c.ExtOn("e2ee") {
		// (known finding: device list changes in more than one undelivered response are lost)
		if err := c.Drain(60); err != nil {
			s.clientErr(c, err)
			return
		}
	}
	c.reset()
	s.step("client %s new connection", c.Name)
	s.syncOne(c)
}

// lostResponse: the response never reaches the client, which retries the same request.
func (s *Sim) lostResponse() {
	c := s.randClient()
	if c.Pos == "" {
		return
	}
	body := c.BuildBody()
	s.step("client %s loses a response", c.Name)
	res := s.proxy.Sync(ctxBG(), c.tok(), c.Pos, 0, body)
	c.logf("-> (lost) pos=%s %s", c.Pos, body)
	c.logf("<- (lost) %d %s %v", res.Code, res.Body, res.Err)
	if res.Err != nil || res.Code != 200 {
		if _, err := c.syncBody(body, 0); err != nil && err != errExpired {
			s.clientErr(c, err)
		}
		return
	}
	s.Count("lost_responses", 1)
	pos := c.Pos
	if _, err := c.syncBody(body, 0); err != nil && err != errExpired {
		s.clientErr(c, err)
		return
	}
	if c.Pos != "" && string(res.Body) != string(c.LastResp) {
		s.Violate([]string{"C02"}, "retransmitted response differs", fmt.Sprintf("client %s pos %s: first %s then %s", c.Name, pos, res.Body, c.LastResp))
	}
}

// ---------- main loop ----------

func (s *Sim) Run(deadline time.Time) {
	s.Build()
	if s.prof.Main != nil {
		s.prof.Main(s)
		s.checkProcess()
		return
	}
	kinds := s.stepKinds()
	var names []string
	total := 0
	for k, w := range s.prof.W {
		if w > 0 {
			if kinds[k] == nil {
				panic("unknown step " + k)
			}
			names = append(names, k)
			total += w
		}
	}
	sort.Strings(names)
	choose := func() string {
		x := s.rng.Intn(total)
		for _, n := range names {
			x -= s.prof.W[n]
			if x < 0 {
				return n
			}
		}
		return names[0]
	}
	for _, c := range s.clients {
		s.syncOne(c)
	}
	// known finding: a first sync which overtakes the stream of another device turns that stream's pending
	// state events into state without a place in the timeline
	s.Settle()
	for i := 0; i < s.prof.Steps; i++ {
		if time.Now().After(deadline) || len(s.viols) > 0 {
			break
		}
		k := choose()
		s.step("#%d %s", i, k)
		s.Count("step_"+k, 1)
		if isClientStep[k] && !s.chance(s.prof.NoSettle) {
			if !s.Settle() {
				return
			}
		}
		alone := s.prof.Gaps && (k == "join" || k == "leave" || k == "restart")
		if alone && k == "restart" {
			// (the position is stored with to-device messages: what was skipped is not served again)
			s.hs.Do(func() {
				for _, d := range s.hs.devList {
					s.sendToDevice(d, "m.x", J{})
				}
			})
		}
		if alone && !s.Settle() {
			return
		}
		kinds[k](s)
		if alone && !s.Settle() {
			return
		}
	}
	if len(s.viols) == 0 {
		s.step("final check")
		s.Quiesce()
	}
	s.checkProcess()
}

// checkProcess: the proxy process must not have died or panicked.
func (s *Sim) checkProcess() {
	out := s.proxy.Output()
	if !s.proxy.Alive() {
		s.Violate([]string{"C20", "C25"}, "the proxy process died", tail(out, 4000))
	} else if i := strings.Index(out, "panic"); i >= 0 && !s.prof.PanicOK {
		s.Violate([]string{"C20", "C25"}, "the proxy panicked", tail(out[i:], 4000))
	}
	if strings.Contains(out, "DATA RACE") {
		s.Violate([]string{"C20"}, "data race", out[strings.Index(out, "WARNING: DATA RACE"):])
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var isClientStep = map[string]bool{"sync": true, "ranges": true, "sort": true, "filter": true, "addlist": true, "dellist": true, "sub": true, "unsub": true, "reqparams": true, "newconn": true, "lost": true, "bump": true, "rush": true, "badpos": true, "dup": true, "cut": true, "lostchanged": true}

func (s *Sim) restamp(old Stamped, typ string, c J) Stamped {
	st := Stamped{Pos: s.hs.bump(), Type: typ, Data: c}
	if old.Data != nil && old.Pos > 0 && s.chance(0.4) && typ != "m.ignored_user_list" {
		st.Prev, st.PrevPos = old.Data, old.Pos
	}
	return st
}
