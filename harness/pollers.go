package zzverif

// The life of pollers and access tokens: tokens are revoked and replaced, devices go unused, the homeserver
// fails, many clients turn up at once, the proxy restarts. The homeserver watches the polls (hs.go), the
// clients what they are told.

import (
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"
)

func (c *Client) tok() string {
	if c.Token != "" {
		return c.Token
	}
	return c.Dev.Token
}

// onRefused: the proxy answered 401.
func (s *Sim) onRefused(c *Client, tok string, began time.Time, res HTTPResult) error {
	if !strings.Contains(string(res.Body), "M_UNKNOWN_TOKEN") {
		s.Violate([]string{"C17"}, "a refused token is not called unknown", fmt.Sprintf("client %s: %s", c.Name, res.Body))
	}
	ok, sib := false, false
	s.hs.With(func() {
		ok = s.hs.revoked[tok] != 0
		// (known finding: the answer to a request made with another token of the device is taken for the answer
		// to this one)
		sib = s.lastRevoke[c.Dev].After(began) || c.Dev.lastReject.After(began.Add(-2*time.Second))
		if ok {
			s.hs.told[tok] = true
		}
	})
	if !ok && !sib {
		s.Violate([]string{"C16", "C17"}, "a valid token was refused", fmt.Sprintf("client %s token %s: %s", c.Name, tok, res.Body))
		return fmt.Errorf("refused")
	}
	if !ok {
		s.Count("refused_with_a_sibling", 1)
	}
	s.Count("refused_tokens", 1)
	c.Token = ""
	c.reset()
	return errExpired
}

// pin makes the clients of a device stick to the token they have been using.
func (s *Sim) pin(d *Dev) {
	for _, c := range s.clients {
		if c.Dev == d && c.Token == "" {
			c.Token = d.Token
		}
	}
}

func (s *Sim) addToken(d *Dev) {
	s.nTok++
	d.Token = fmt.Sprintf("tok_n%d_%s_%s", s.nTok, d.DeviceID, s.nonce)
	s.hs.devs[d.Token] = d
}

// NewToken: the device gets another token, the old one stays valid.
func (s *Sim) NewToken() {
	d := pick(s, s.hs.devList)
	s.pin(d)
	s.hs.With(func() {
		s.addToken(d)
		s.hs.logf("new token %s", d.Token)
	})
	for _, c := range s.clients {
		if c.Dev == d && s.chance(0.5) {
			c.Token = ""
			if s.chance(0.5) {
				// (a client which goes on with its connection under the new token)
				s.Count("switched_token_midway", 1)
			} else {
				c.reset()
			}
		}
	}
	s.Count("new_tokens", 1)
}

// RevokeToken revokes one of the tokens the device has been polled with.
func (s *Sim) RevokeToken() {
	if !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	var toks []string
	s.hs.With(func() {
		for t, o := range s.hs.devs {
			if o == d && s.hs.revoked[t] == 0 {
				toks = append(toks, t)
			}
		}
	})
	sortStrings(toks)
	tok := pick(s, toks)
	polled := false
	s.hs.With(func() { polled = !d.dead && d.chain.live && d.chain.tok == tok })
	s.pin(d)
	for _, c := range s.clients {
		if c.Dev == d {
			c.mayExpire = true
		}
	}
	s.hs.Do(func() {
		s.hs.revoked[tok] = pick(s, []int{401, 401, 403})
		s.lastRevoke[d] = time.Now().Add(time.Hour)
		if tok == d.Token || s.chance(0.5) {
			s.addToken(d)
		}
		s.hs.logf("revoked %s (polled with: %v); now %s", tok, polled, d.Token)
	})
	s.Count("revoked_tokens", 1)
	if polled {
		s.Count("revoked_in_use", 1)
		// the poll is refused at once: from then on the token must not be good for anything
		c := NewClient(s, d, "probe")
		c.Token = tok
		deadline := time.Now().Add(20 * time.Second)
		for {
			c.Token, c.Pos = tok, ""
			var res HTTPResult
			if res = s.proxy.Sync(ctxBG(), tok, "", 0, []byte(`{"conn_id":"probe"}`)); res.Code == 401 || res.Err != nil {
				break
			}
			if time.Now().After(deadline) {
				s.Violate([]string{"C17"}, "a revoked token is still accepted", fmt.Sprintf("device %s token %s: %d %s", d.DeviceID, tok, res.Code, tail(string(res.Body), 300)))
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
		s.hs.With(func() {
			if s.hs.rejects[tok] > 0 {
				s.hs.told[tok] = true
			}
		})
		// connections made with it are gone, whatever the token
		for _, c := range s.clients {
			if c.Dev == d && c.Pos != "" && c.Token == tok {
				for _, t := range []string{tok, d.Token} {
					res := s.proxy.Sync(ctxBG(), t, c.Pos, 0, c.BuildBody())
					if res.Code == 200 {
						s.Violate([]string{"C17"}, "a connection outlives its token", fmt.Sprintf("client %s pos %s with token %s: %s", c.Name, c.Pos, t, tail(string(res.Body), 300)))
					}
					s.Count("dead_connection_probes", 1)
				}
				break
			}
		}
	}
	s.hs.With(func() { s.lastRevoke[d] = time.Now() })
}

// ExpireUnused: devices which were not used for a month are no longer polled, until they come back.
func (s *Sim) ExpireUnused() {
	if expireOld == nil || !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	up := false
	s.hs.With(func() { up = d.Active && !d.dead && d.waiting && d.gen == s.hs.gen })
	if !up {
		return
	}
	hash := func(t string) string { h := sha256.Sum256([]byte(t)); return hex.EncodeToString(h[:]) }
	set := func(d *Dev, days int) {
		var toks []string
		s.hs.With(func() {
			for t, o := range s.hs.devs {
				if o == d {
					toks = append(toks, t)
				}
			}
		})
		for _, t := range toks {
			s.db.Exec(`UPDATE syncv3_sync2_tokens SET last_seen=$1 WHERE token_hash=$2`, time.Now().Add(-time.Duration(days)*24*time.Hour), hash(t))
		}
	}
	for _, o := range s.hs.devList {
		if o == d {
			set(o, 31+s.rng.Intn(100))
		} else if s.chance(0.7) {
			// used recently enough, though maybe not with every token
			if s.chance(0.6) {
				set(o, 60)
			}
			s.db.Exec(`UPDATE syncv3_sync2_tokens SET last_seen=$1 WHERE token_hash=$2`, time.Now().Add(-time.Duration(2+s.rng.Intn(27))*24*time.Hour), hash(o.chain.tok))
		}
	}
	for _, c := range s.clients {
		if c.Dev == d {
			c.mayExpire = true
		}
	}
	n := strings.Count(s.proxy.Output(), "EXPIRE-DONE")
	was := false
	polls := map[*Dev]int{}
	s.hs.With(func() {
		was = d.Active && !d.dead
		s.hs.stopPoller(d)
		for _, o := range s.hs.devList {
			polls[o] = o.Polls
		}
	})
	fmt.Fprintln(s.proxy.stdin, "expire")
	for i := 0; strings.Count(s.proxy.Output(), "EXPIRE-DONE") == n; i++ {
		if i > 4000 || !s.proxy.Alive() {
			s.Violate([]string{"C16", "C20"}, "stopping unused pollers hangs", d.DeviceID)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	if s.chance(0.7) {
		// what the stopped poller is given now must be ignored and given to its successor
		s.hs.Do(func() {
			s.sendToDevice(d, "m.x", J{})
			s.hs.logf("for the stopped poller of %s", d.DeviceID)
		})
	}
	if was && s.chance(0.3) {
		// ... and it stops
		for i := 0; i < 3; i++ {
			s.hs.Do(func() { s.sendToDevice(d, "m.x", J{}) })
			time.Sleep(10 * time.Millisecond)
		}
		s.hs.With(func() {
			if d.Polls > polls[d] {
				s.hs.bad("an unused device is still polled", d.DeviceID)
			}
		})
	}
	// the others go on
	u := pick(s, s.users)
	s.SetGlobalAD(u, "com.x", J{"v": s.rng.Int31()})
	s.Settle()
	s.Count("unused_devices", 1)
}

// HomeserverDown: polls of a device fail until its poller gives up.
func (s *Sim) HomeserverDown() {
	if !s.Settle() {
		return
	}
	d := pick(s, s.hs.devList)
	on := false
	s.hs.Do(func() {
		on = d.Active && !d.dead && s.hs.revoked[d.chain.tok] == 0
		if on {
			d.failNext = nil
			d.failAll, d.failed = pick(s, []int{500, 502, 504}), 0
			s.sendToDevice(d, "m.x", J{})
		}
	})
	if !on {
		return
	}
	for _, c := range s.clients {
		if c.Dev == d {
			c.mayExpire = true
		}
	}
	last, lastAt := -1, time.Now()
	for {
		n, done := 0, false
		s.hs.With(func() { n, done = d.failed, d.failAll == 0 })
		if done {
			break
		}
		if n != last {
			last, lastAt = n, time.Now()
		}
		if time.Since(lastAt) > 10*time.Second {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	s.hs.With(func() {
		if d.failAll != 0 {
			s.hs.bad("a poller gave up early", fmt.Sprintf("device %s after %d failures", d.DeviceID, d.failed))
		}
		d.failAll = 0
	})
	// wait for the token to be forgotten (a request which comes just then is refused)
	var tok string
	s.hs.With(func() { tok = d.chain.tok })
	h := sha256.Sum256([]byte(tok))
	for i := 0; i < 500; i++ {
		n := 0
		if s.db.QueryRow(`SELECT count(*) FROM syncv3_sync2_tokens WHERE token_hash=$1`, hex.EncodeToString(h[:])).Scan(&n) != nil || n == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	s.Count("pollers_given_up", 1)
}

// BadTokens: tokens the homeserver does not know (or cannot judge) get nowhere.
func (s *Sim) BadTokens() {
	var wg sync.WaitGroup
	try := func(name, tok, pos string, want ...int) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(ctxBG(), 30*time.Second)
			defer cancel()
			res := s.proxy.Sync(ctx, tok, pos, 0, []byte(`{"lists":{"a":{"ranges":[[0,9]],"timeline_limit":5,"required_state":[["*","*"]]}}}`))
			ok := false
			for _, w := range want {
				ok = ok || res.Code == w
			}
			if !ok {
				s.Violate([]string{"C17", "C25"}, "a bad token is not refused properly", fmt.Sprintf("%s: %d %v %s", name, res.Code, res.Err, tail(string(res.Body), 300)))
			}
			s.Count("bad_tokens", 1)
		}()
	}
	c := pick(s, s.clients)
	pos := c.Pos
	known := c.tok()
	var dead string
	s.hs.With(func() {
		for t := range s.hs.told {
			dead = t
		}
	})
	try("unknown token", "nonsense"+s.nonce, "", 401)
	try("unknown token with a position", "nonsense"+s.nonce, pos, 401)
	try("no token", "", "", 401)
	try("no token with a position", "", pos, 401)
	try("known token with something appended", known+"x", pos, 401)
	try("known token in upper case", strings.ToUpper(known), pos, 401)
	try("prefix of a token", known[:len(known)-1], pos, 401)
	try("the hash of a token", func() string { h := sha256.Sum256([]byte(known)); return hex.EncodeToString(h[:]) }(), pos, 401)
	if dead != "" {
		try("rejected token", dead, "", 401)
		try("rejected token with a position", dead, pos, 401)
	}
	wg.Wait()
	// the homeserver cannot say
	s.hs.With(func() { s.hs.whoamiCode = pick(s, []int{500, 502, 404}) })
	try("unknown token, homeserver failing", "nonsense2"+s.nonce, "", 502, 500)
	if dead != "" {
		try("rejected token, homeserver failing", dead, pos, 502, 500)
	}
	wg.Wait()
	s.hs.With(func() { s.hs.whoamiCode = 0 })
}

// CrossUse: positions and connection ids are only good for the device (and connection) they belong to.
func (s *Sim) CrossUse() {
	if !s.Settle() {
		return
	}
	a, b := pick(s, s.clients), pick(s, s.clients)
	for i := 0; i < 20 && (a.Dev == b.Dev || a.Pos == ""); i++ {
		a, b = pick(s, s.clients), pick(s, s.clients)
	}
	if a.Dev == b.Dev || a.Pos == "" {
		return
	}
	cid := fmt.Sprintf("own%d", s.rng.Intn(1<<30))
	// a connection of a's device only
	res := s.proxy.Sync(ctxBG(), a.tok(), "", 0, mustJSON(J{"conn_id": cid, "lists": J{"a": J{"ranges": [][2]int{{0, 9}}, "timeline_limit": 2}}}))
	if res.Code != 200 {
		return // (its token may just have been revoked)
	}
	pos := posOf(res.Body)
	var btok string
	s.hs.With(func() {
		if s.hs.revoked[b.tok()] == 0 {
			btok = b.tok()
		} else {
			btok = b.Dev.Token
		}
	})
	r2 := s.proxy.Sync(ctxBG(), btok, pos, 0, mustJSON(J{"conn_id": cid}))
	if r2.Code == 200 {
		s.Violate([]string{"C17", "C02"}, "a connection of another device was used", fmt.Sprintf("%s of %s with a token of %s: %s", cid, a.Name, b.Name, tail(string(r2.Body), 500)))
	}
	// another connection id of the same device
	r3 := s.proxy.Sync(ctxBG(), a.tok(), pos, 0, mustJSON(J{"conn_id": cid + "x"}))
	if r3.Code == 200 {
		s.Violate([]string{"C17", "C02"}, "a connection which was never made was used", tail(string(r3.Body), 500))
	}
	// and the connection itself is still good
	r4 := s.proxy.Sync(ctxBG(), a.tok(), pos, 0, mustJSON(J{"conn_id": cid}))
	if r4.Code != 200 && r4.Code != 401 {
		s.Violate([]string{"C17", "C02"}, "a connection was lost to another one", fmt.Sprintf("%d %s", r4.Code, tail(string(r4.Body), 500)))
	}
	s.Count("cross_uses", 1)
}

func posOf(b []byte) string {
	s := string(b)
	i := strings.Index(s, `"pos":"`)
	if i < 0 {
		return ""
	}
	s = s[i+7:]
	return s[:strings.Index(s, `"`)]
}

// Rush: many first requests at once, some of which give up.
func (s *Sim) Rush() {
	d := pick(s, s.hs.devList)
	var toks []string
	s.hs.With(func() {
		for t, o := range s.hs.devs {
			if o == d && s.hs.revoked[t] == 0 {
				toks = append(toks, t)
			}
		}
		d.slow = time.Duration(s.rng.Intn(10)) * time.Millisecond
	})
	sortStrings(toks)
	var wg sync.WaitGroup
	n := 2 + s.rng.Intn(6)
	for i := 0; i < n; i++ {
		tok := pick(s, toks)
		impatient := s.chance(0.2)
		wait := time.Duration(s.rng.Intn(8)) * time.Millisecond
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(ctxBG(), 60*time.Second)
			if impatient {
				cancel()
				ctx, cancel = context.WithTimeout(ctxBG(), wait)
			}
			defer cancel()
			res := s.proxy.Sync(ctx, tok, "", 0, mustJSON(J{"conn_id": fmt.Sprintf("rush%d", i), "lists": J{"a": J{"ranges": [][2]int{{0, 9}}, "timeline_limit": 2}}}))
			sib := false
			s.hs.With(func() { sib = res.Code == 401 && time.Since(d.lastReject) < 5*time.Second })
			if !impatient && res.Code != 200 && !sib {
				s.Violate([]string{"C16", "C20"}, "a first request failed", fmt.Sprintf("device %s token %s: %d %v %s", d.DeviceID, tok, res.Code, res.Err, res.Body))
			}
			s.Count("rushed_requests", 1)
		}(i)
	}
	wg.Wait()
	s.hs.With(func() { d.slow = 0 })
}

// leakedTokens looks for access tokens in the database.
func (s *Sim) leakedTokens() {
	rows, err := s.db.Query(`SELECT tablename FROM pg_tables WHERE schemaname='public'`)
	if err != nil {
		return
	}
	var tables []string
	for rows.Next() {
		var n string
		rows.Scan(&n)
		tables = append(tables, n)
	}
	rows.Close()
	var toks []string
	s.hs.With(func() {
		for t := range s.hs.devs {
			toks = append(toks, t)
		}
	})
	n := 0
	for _, tb := range tables {
		rows, err := s.db.Query(`SELECT t::text FROM "` + tb + `" t`)
		if err != nil {
			continue
		}
		for rows.Next() {
			var row sql.NullString
			rows.Scan(&row)
			n++
			for _, t := range toks {
				for _, enc := range []string{t, hex.EncodeToString([]byte(t)), strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(t)), "=")} {
					if strings.Contains(row.String, enc) {
						s.Violate([]string{"C17"}, "an access token is stored in the clear", fmt.Sprintf("table %s: %s", tb, tail(row.String, 300)))
					}
				}
			}
		}
		rows.Close()
	}
	s.Count("rows_searched_for_tokens", n)
}

var _ = http.StatusOK

func (s *Sim) watchPollers() {
	s.hs.With(func() {
		s.hs.CheckChain = true
		s.hs.OnBad = func(kind, detail string) { s.Violate([]string{"C16"}, kind, detail) }
	})
}

func init() {
	w := map[string]int{"msg": 6, "state": 2, "profile": 1, "join": 1, "leave": 1, "globalad": 1, "roomad": 1, "todevice": 3, "receipt": 1, "typing": 4, "sync": 8, "check": 3, "settle": 2, "newconn": 2, "sub": 1,
		"revoke": 4, "newtoken": 3, "unused": 2, "badtoken": 1, "crossuse": 2, "rush": 4, "restart": 2, "pollerr": 3, "fresh": 1}
	mk := func(devices, conns int, extra string) func() *Profile {
		return func() *Profile {
			ww := map[string]int{}
			for k, v := range w {
				ww[k] = v
			}
			if extra != "" {
				ww[extra] = 2
			}
			return &Profile{Users: 2, Devices: devices, Conns: conns, Rooms: 2, Steps: 50, W: ww, Tokens: true, NoExpire: true, As: []string{"C16", "C17"},
				Env:      []string{"VERIF_FAST_POLL_BACKOFF=1"},
				PostInit: func(s *Sim) { s.watchPollers() },
				Check:    func(s *Sim) { s.leakedTokens() },
				Lists: func(s *Sim, c *Client) {
					c.SetList("a", ListCfg{Ranges: [][2]int{{0, 9}}, RoomSubCfg: s.randSub()})
					for _, e := range []string{"account_data", "receipts", "typing", "to_device", "e2ee"} {
						if e == "to_device" && c.ConnID != "" {
							continue
						}
						c.SetExt(e, J{"enabled": true})
					}
				}}
		}
	}
	prof("pollers", mk(1, 2, ""))
	prof("pollers2", mk(2, 1, ""))
	prof("pollersdown", mk(1, 1, "hsdown"))
}
