package zzverif

// Everything at once: many connections which send, repeat, change and cancel requests while the homeserver
// keeps changing, with the race detector watching the proxy. Afterwards everybody waits for something to
// happen and has to be woken by it.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	syncv3 "github.com/matrix-org/sliding-sync"
)

type swarmClient struct {
	s      *Sim
	d      *Dev
	cid    string
	rng    *rand.Rand
	pos    string
	td     string
	log    []string
	rooms  []*Room
	joined map[string]bool // as the proxy sees it
	name   string
}

const swarmPatience = 40 * time.Second

func (c *swarmClient) logf(f string, a ...any) {
	c.log = append(c.log, time.Now().Format("05.000 ")+fmt.Sprintf(f, a...))
	if len(c.log) > 400 {
		c.log = c.log[200:]
	}
}

// list, as some client might want it
func (c *swarmClient) list() J {
	n := c.rng.Intn(8)
	l := J{"ranges": [][2]int{{0, n}}}
	if c.rng.Intn(3) == 0 {
		l["ranges"] = [][2]int{{0, n}, {n + 2, n + 2 + c.rng.Intn(4)}}
	}
	switch c.rng.Intn(3) {
	case 0:
		l["sort"] = []string{"by_recency"}
	case 1:
		l["sort"] = []string{"by_name", "by_recency"}
	}
	l["timeline_limit"] = 1 + c.rng.Intn(8)
	switch c.rng.Intn(4) {
	case 0:
		l["required_state"] = [][2]string{{"*", "*"}}
	case 1:
		l["required_state"] = [][2]string{{"m.room.member", "$LAZY"}, {"m.room.name", ""}}
	case 2:
		l["required_state"] = [][2]string{{"m.room.member", "$ME"}, {"m.space.child", "*"}}
	}
	switch c.rng.Intn(8) {
	case 0:
		l["filters"] = J{"is_dm": c.rng.Intn(2) == 0}
	case 1:
		l["filters"] = J{"is_invite": c.rng.Intn(2) == 0}
	case 2:
		l["filters"] = J{"not_room_types": []string{"m.space"}}
	case 3:
		l["filters"] = J{"room_name_like": "a"}
	case 4:
		l["slow_get_all_rooms"] = true
	}
	if c.rng.Intn(5) == 0 {
		l["bump_event_types"] = []string{"m.room.message"}
	}
	if c.rng.Intn(5) == 0 {
		l["include_old_rooms"] = J{"timeline_limit": 1, "required_state": [][2]string{{"m.room.create", ""}}}
	}
	return l
}

func (c *swarmClient) room() string { return c.rooms[c.rng.Intn(len(c.rooms))].ID }

func swarmExt(td string) J {
	e := J{}
	for _, x := range allExt {
		e[x] = J{"enabled": true}
	}
	if td != "" {
		e["to_device"] = J{"enabled": true, "since": td}
	}
	return e
}

func (c *swarmClient) body() []byte {
	j := J{}
	if c.cid != "" {
		j["conn_id"] = c.cid
	}
	if c.pos == "" {
		j["lists"] = J{"a": c.list()}
		j["extensions"] = swarmExt(c.td)
		return mustJSON(j)
	}
	switch c.rng.Intn(6) {
	case 0:
		j["lists"] = J{"a": c.list()}
	case 1:
		j["lists"] = J{"a": J{"ranges": [][2]int{{0, c.rng.Intn(8)}}}}
	case 2:
		j["room_subscriptions"] = J{c.room(): J{"timeline_limit": 1 + c.rng.Intn(5), "required_state": [][2]string{{"m.room.member", "*"}}}}
	case 3:
		j["unsubscribe_rooms"] = []string{c.room()}
	}
	if c.td != "" {
		j["extensions"] = J{"to_device": J{"enabled": true, "since": c.td}}
	}
	return mustJSON(j)
}

// do sends one request; patience is how long it may take on top of the time it asks for.
func (c *swarmClient) do(ctx context.Context, tmo int, body []byte) (res HTTPResult, gaveUp bool) {
	tok := ""
	c.s.hs.With(func() { tok = c.d.Token })
	lim, cancel := context.WithTimeout(ctx, time.Duration(tmo)*time.Millisecond+swarmPatience)
	defer cancel()
	c.logf("-> pos=%s timeout=%d %s", c.pos, tmo, body)
	res = c.s.proxy.Sync(lim, tok, c.pos, tmo, body)
	c.logf("<- %d %s %v", res.Code, tail(string(res.Body), 600), res.Err)
	if ctx.Err() != nil {
		return res, true
	}
	if lim.Err() != nil {
		c.s.swarmStuck.Do(func() {
			c.s.dumpStacks()
			c.s.Violate([]string{"C20"}, "a request does not finish", fmt.Sprintf("client %s: timeout=%d, no answer for %v more; body %s", c.name, tmo, swarmPatience, body))
		})
		return res, true
	}
	return res, false
}

// took deals with a response: true if the client may go on with it.
func (c *swarmClient) took(res HTTPResult, body []byte) (*Resp, bool) {
	switch {
	case res.Err != nil:
		c.s.Violate([]string{"C20"}, "request failed", fmt.Sprintf("client %s: %v; body %s", c.name, res.Err, body))
	case res.Code == 200:
		var r Resp
		if err := json.Unmarshal(res.Body, &r); err != nil {
			c.s.Violate([]string{"C20", "C25"}, "unparseable response", fmt.Sprintf("client %s: %v", c.name, err))
			return nil, false
		}
		c.pos = r.Pos
		if td := r.Extensions.ToDevice; td != nil && td.NextBatch != "" {
			c.td = td.NextBatch
		}
		return &r, true
	case res.Code == 400 && strings.Contains(string(res.Body), "M_UNKNOWN_POS"):
		c.pos = ""
	case res.Code == 401 && c.s.prof.Tokens:
		c.pos = ""
		time.Sleep(20 * time.Millisecond)
	default:
		c.s.Violate([]string{"C20", "C25"}, "request failed", fmt.Sprintf("client %s: HTTP %d %s; body %s", c.name, res.Code, tail(string(res.Body), 500), body))
	}
	return nil, false
}

func (c *swarmClient) run(stop *atomic.Bool) {
	for !stop.Load() && !c.s.failed() {
		body := c.body()
		tmo := []int{0, 0, 50, 300, 1000}[c.rng.Intn(5)]
		switch c.rng.Intn(10) {
		case 0: // goes away
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.rng.Intn(60))*time.Millisecond)
			res, gaveUp := c.do(ctx, tmo, body)
			cancel()
			c.s.Count("c20_cancelled", 1)
			if !gaveUp {
				c.took(res, body)
			}
		case 1: // asks twice at once
			var wg sync.WaitGroup
			tok := ""
			c.s.hs.With(func() { tok = c.d.Token })
			pos := c.pos
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), swarmPatience)
				defer cancel()
				c.s.proxy.Sync(ctx, tok, pos, tmo, body)
			}()
			res, gaveUp := c.do(context.Background(), tmo, body)
			wg.Wait()
			if !gaveUp {
				c.took(res, body)
			}
		case 2: // starts over
			if c.rng.Intn(4) == 0 {
				c.pos = ""
			}
		default:
			res, gaveUp := c.do(context.Background(), tmo, body)
			if gaveUp {
				return
			}
			c.took(res, body)
		}
		c.s.Count("c20_requests", 1)
		if c.rng.Intn(3) == 0 {
			time.Sleep(time.Duration(c.rng.Intn(30)) * time.Millisecond)
		}
	}
}

func (s *Sim) failed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.viols) > 0
}

// upToDate: a new connection which has nothing left to be told.
func (c *swarmClient) upToDate() bool {
	c.pos = ""
	c.joined = map[string]bool{}
	quiet := 0
	for i := 0; i < 200 && quiet < 2; i++ {
		j := J{}
		if c.cid != "" {
			j["conn_id"] = c.cid
		}
		if c.pos == "" {
			j["lists"] = J{"a": J{"ranges": [][2]int{{0, 100}}, "timeline_limit": 1}}
			j["extensions"] = swarmExt(c.td)
		} else if c.td != "" {
			j["extensions"] = J{"to_device": J{"enabled": true, "since": c.td}}
		}
		body := mustJSON(j)
		res, gaveUp := c.do(context.Background(), 0, body)
		if gaveUp {
			return false
		}
		r, ok := c.took(res, body)
		if c.s.failed() {
			return false
		}
		if ok {
			for rid, rr := range r.Rooms {
				if rr.Initial {
					c.joined[rid] = len(rr.InviteState) == 0
				}
			}
		}
		if ok && r.Empty() {
			quiet++
		} else {
			quiet = 0
		}
	}
	return quiet >= 2
}

// waitFor waits for a response with something in it, with long requests.
func (c *swarmClient) waitFor(what string, sent *atomic.Int64, has func(r *Resp, raw []byte) bool) {
	end := time.Now().Add(45 * time.Second)
	for !c.s.failed() {
		j := J{}
		if c.cid != "" {
			j["conn_id"] = c.cid
		}
		if c.td != "" {
			j["extensions"] = J{"to_device": J{"enabled": true, "since": c.td}}
		}
		body := mustJSON(j)
		res, gaveUp := c.do(context.Background(), 30000, body)
		if gaveUp {
			return
		}
		r, ok := c.took(res, body)
		if c.s.failed() {
			return
		}
		if !ok {
			// (a connection which did not keep up has to start over, and then has what it waited for)
			c.s.Count("c20_restarted", 1)
			return
		}
		at := sent.Load()
		if has(r, res.Body) {
			if d := time.Since(time.Unix(0, at)); at > 0 && d > 20*time.Second {
				c.s.swarmStuck.Do(c.s.dumpStacks)
				c.s.Violate([]string{"C20"}, "a waiting request was not woken", fmt.Sprintf("client %s got %s %v after it was sent", c.name, what, d))
			}
			c.s.Count("c20_woken", 1)
			return
		}
		if time.Now().After(end) {
			c.s.swarmStuck.Do(c.s.dumpStacks)
			c.s.Violate([]string{"C20"}, "a waiting request was not woken", fmt.Sprintf("client %s never got %s", c.name, what))
			return
		}
	}
}

func (s *Sim) Swarm() {
	var cs []*swarmClient
	for _, d := range s.hs.devList {
		for k := 0; k < 2; k++ {
			cs = append(cs, &swarmClient{s: s, d: d, rooms: append([]*Room{}, s.rooms...), cid: []string{"", "c1"}[k], rng: rand.New(rand.NewSource(s.rng.Int63())), name: fmt.Sprintf("%s/%d", d.DeviceID, k)})
		}
	}
	s.swarms = cs
	var wg sync.WaitGroup
	var stop atomic.Bool
	for _, c := range cs {
		wg.Add(1)
		go func(c *swarmClient) {
			defer wg.Done()
			c.run(&stop)
		}(c)
	}
	kinds := s.stepKinds()
	var names []string
	for k, w := range s.prof.SwarmW {
		for ; w > 0; w-- {
			names = append(names, k)
		}
	}
	sortStrings(names)
	for end := time.Now().Add(s.prof.SwarmTime); time.Now().Before(end) && !s.failed(); {
		k := pick(s, names)
		s.Count("step_"+k, 1)
		switch k {
		case "rotate":
			d := pick(s, s.hs.devList)
			s.hs.Do(func() {
				s.hs.revoked[d.Token] = 401
				s.addToken(d)
			})
		case "expireold":
			fmt.Fprintln(s.proxy.stdin, "expire")
		case "sendtxn":
			s.hs.Do(func() {
				if r, u := s.joinedRoomUser(); r != nil {
					for _, d := range s.hs.devList {
						if d.UserID == u {
							s.hs.send(r, "m.room.message", nil, u, J{"body": "txn"}, d.Token, fmt.Sprintf("t%d", s.rng.Int31()), "")
							break
						}
					}
				}
			})
		default:
			kinds[k](s)
		}
		if s.chance(0.5) {
			time.Sleep(time.Duration(s.rng.Intn(15)) * time.Millisecond)
		}
	}
	stop.Store(true)
	wg.Wait()
	if s.failed() || !s.Settle() {
		return
	}
	// everybody waits
	for _, c := range cs {
		wg.Add(1)
		go func(c *swarmClient) {
			defer wg.Done()
			if !c.upToDate() {
				c.pos = ""
			}
		}(c)
	}
	wg.Wait()
	for round := 0; round < 4 && !s.failed(); round++ {
		if !s.Settle() {
			return
		}
		r, u := s.joinedRoomUser()
		if r == nil {
			return
		}
		var sent atomic.Int64
		mark := fmt.Sprintf("wake-%d-%s", round, s.nonce)
		target := pick(s, s.hs.devList)
		for _, c := range cs {
			in := false
			s.hs.With(func() { in = c.joined[r.ID] && r.Membership(c.d.UserID, maxPos) == "join" })
			if c.pos == "" || (round < 3 && !in) || (round == 3 && (c.d != target || c.cid != "")) {
				continue
			}
			wg.Add(1)
			go func(c *swarmClient) {
				defer wg.Done()
				c.waitFor(mark, &sent, func(r *Resp, raw []byte) bool { return strings.Contains(string(raw), mark) })
			}(c)
		}
		time.Sleep(time.Duration(s.rng.Intn(120)) * time.Millisecond)
		s.hs.Do(func() {
			if round < 3 {
				// (not a message: somebody may ignore the sender)
				s.hs.send(r, "com.custom", sp(mark), u, J{"v": mark}, "", "", "")
			} else {
				s.sendToDevice(target, "m.x", J{"mark": mark})
			}
		})
		sent.Store(time.Now().UnixNano())
		wg.Wait()
	}
	s.Sig("swarm", s.seed)
}

func init() {
	all := map[string]int{"msg": 12, "msgbatch": 8, "state": 4, "name": 2, "profile": 3, "join": 4, "leave": 4, "kick": 1, "invite": 2, "rejectinvite": 1, "spacechild": 1,
		"unread": 4, "tag": 2, "roomad": 3, "globalad": 2, "direct": 1, "typing": 5, "receipt": 5, "todevice": 4, "devlist": 3, "otk": 2, "redact": 1, "ignore": 1, "create": 1, "sendtxn": 5}
	mk := func(name string, w map[string]int, tokens bool, env []string, opts func(o *syncv3.Opts)) {
		prof(name, func() *Profile {
			return &Profile{Users: 4, Devices: 2, Rooms: 5, As: []string{"C20"}, Tokens: tokens, Env: env, SwarmW: w, SwarmTime: 3 * time.Second,
				Main: func(s *Sim) { s.Swarm() },
				Opts: func(o *syncv3.Opts) {
					o.TestingSynchronousPubsub = false
					opts(o)
				}}
		})
	}
	mk("swarm", all, false, nil, func(o *syncv3.Opts) { o.AddPrometheusMetrics = true })
	mk("swarmsmall", weights(all, map[string]int{"rotate": 3, "expireold": 2, "sendtxn": 6}), true, []string{"VERIF_BUFFER_WAIT_MS=5"}, func(o *syncv3.Opts) {
		o.MaxPendingEventUpdates = 8
		o.MaxTransactionIDDelay = 30 * time.Millisecond
	})
}
