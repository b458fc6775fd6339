package zzverif

// Hostile connection behaviour end to end: lost, duplicated and cut short requests, made up positions.

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"
)

// badPos: positions which were never issued are refused, and do no harm.
func (s *Sim) badPos() {
	c := s.randClient()
	if c.Pos == "" {
		return
	}
	pos := pick(s, []string{"999999", "-3", c.Pos + "000", "abc", "1.5", "99999999999999999999999"})
	body := c.BuildBody()
	if s.chance(0.5) {
		body = mustJSON(J{"conn_id": c.ConnID, "lists": J{"a": J{"ranges": [][2]int{{0, 1}}}}})
	}
	s.step("client %s makes up position %s", c.Name, pos)
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	res := s.proxy.Sync(ctx, c.tok(), pos, 0, body)
	c.logf("-> (made up) pos=%s %s", pos, body)
	c.logf("<- (made up) %d %s %v", res.Code, res.Body, res.Err)
	s.Count("c02_madeup", 1)
	s.Sig("madeup", pos, res.Code)
	if res.Err != nil || res.Code != 400 {
		s.Violate([]string{"C02"}, "a made up position was accepted", fmt.Sprintf("client %s pos %s: %d %s %v", c.Name, pos, res.Code, tail(string(res.Body), 500), res.Err))
	}
	if !strings.ContainsAny(pos, "abc.") && len(pos) < 15 && !strings.Contains(string(res.Body), "M_UNKNOWN_POS") {
		s.Violate([]string{"C02"}, "a made up position was not refused as such", fmt.Sprintf("client %s pos %s: %d %s", c.Name, pos, res.Code, tail(string(res.Body), 500)))
	}
	// another connection name: nothing is known under it
	if s.chance(0.4) {
		res := s.proxy.Sync(ctx, c.tok(), c.Pos, 0, mustJSON(J{"conn_id": "nosuch"}))
		c.logf("<- (no such connection) %d %s %v", res.Code, tail(string(res.Body), 300), res.Err)
		if res.Err != nil || res.Code != 400 || !strings.Contains(string(res.Body), "M_UNKNOWN_POS") {
			s.Violate([]string{"C02", "C17"}, "a position was accepted for a connection that does not exist", fmt.Sprintf("client %s: %d %s", c.Name, res.Code, tail(string(res.Body), 500)))
		}
	}
}

// duplicates: the same request several times at once.
func (s *Sim) duplicates() {
	c := s.randClient()
	if c.Pos == "" {
		return
	}
	body := c.BuildBody()
	n := 2 + s.rng.Intn(3)
	tmo := pick(s, []int{0, 0, 300})
	delay := time.Duration(s.rng.Intn(60)) * time.Millisecond
	s.step("client %s sends one request %d times", c.Name, n)
	res := make([]HTTPResult, n)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			defer cancel()
			time.Sleep(time.Duration(i) * delay)
			res[i] = s.proxy.Sync(ctx, c.tok(), c.Pos, tmo, body)
		}(i)
	}
	wg.Wait()
	s.Count("c02_duplicates", n)
	for i, r := range res {
		c.logf("<- (duplicate %d) %d %s %v", i, r.Code, r.Body, r.Err)
		if r.Err == nil && r.Code == 400 && strings.Contains(string(r.Body), "M_UNKNOWN_POS") && c.mayExpire {
			return
		}
		if r.Err != nil || r.Code != 200 {
			s.clientErr(c, fmt.Errorf("duplicate request: %d %s %v", r.Code, tail(string(r.Body), 500), r.Err))
			return
		}
		if string(r.Body) != string(res[0].Body) {
			s.Violate([]string{"C02"}, "duplicates of a request got different responses", fmt.Sprintf("client %s pos %s: %s vs %s", c.Name, c.Pos, res[0].Body, r.Body))
			return
		}
	}
	pos := c.Pos
	if _, err := c.syncBody(body, 0); err != nil && err != errExpired {
		s.clientErr(c, err)
		return
	}
	if c.Pos != "" && string(res[0].Body) != string(c.LastResp) {
		s.Violate([]string{"C02"}, "retransmitted response differs", fmt.Sprintf("client %s pos %s: first %s then %s", c.Name, pos, res[0].Body, c.LastResp))
	}
}

// cutShort: the client goes away while its request is being answered, and repeats it later.
func (s *Sim) cutShort() {
	c := s.randClient()
	if c.Pos == "" {
		return
	}
	body := c.BuildBody()
	s.step("client %s cancels a request", c.Name)
	n := 1 + s.rng.Intn(2)
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.rng.Intn(120))*time.Millisecond)
		res := s.proxy.Sync(ctx, c.tok(), c.Pos, 1500, body)
		cancel()
		c.logf("<- (cut short) %d %s %v", res.Code, res.Body, res.Err)
	}
	s.Count("c02_cut", n)
	if s.chance(0.4) {
		c.behind = true
		return // (whatever is sent next)
	}
	if _, err := c.syncBody(body, 0); err != nil && err != errExpired {
		s.clientErr(c, err)
	}
}

// lostChanged: the response gets lost and the next request says something else: it gets the lost response
// first, and runs behind from then on.
func (s *Sim) lostChanged() {
	c := s.randClient()
	if c.Pos == "" || !c.ExtOn("account_data") {
		return
	}
	body := c.BuildBody()
	s.step("client %s loses a response and changes its request", c.Name)
	res := s.proxy.Sync(ctxBG(), c.tok(), c.Pos, 0, body)
	c.logf("-> (lost) pos=%s %s", c.Pos, body)
	c.logf("<- (lost) %d %s %v", res.Code, res.Body, res.Err)
	if res.Err != nil || res.Code != 200 {
		if !strings.Contains(string(res.Body), "M_UNKNOWN_POS") || !c.mayExpire {
			s.clientErr(c, fmt.Errorf("%d %s %v", res.Code, tail(string(res.Body), 500), res.Err))
		}
		return
	}
	// a change which changes nothing
	if c.pendExt["account_data"] == nil {
		c.pendExt["account_data"] = J{"enabled": true}
	} else {
		c.pendExt["typing"] = J{"enabled": true}
	}
	c.behind = true
	body2 := c.BuildBody()
	pos := c.Pos
	s.Count("c02_lostchanged", 1)
	if _, err := c.syncBody(body2, 0); err != nil {
		if err != errExpired {
			s.clientErr(c, err)
		}
		return
	}
	if string(body) != string(body2) && string(res.Body) != string(c.LastResp) {
		s.Violate([]string{"C02"}, "the response lost is not the next one", fmt.Sprintf("client %s pos %s: first %s then %s", c.Name, pos, res.Body, c.LastResp))
	}
}

func init() {
	prof("conns", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 60, NoSettle: 0.5, As: []string{"C02"}, NoExpire: true, DrainEmpty: 5,
			W: weights(wMsg, map[string]int{"join": 3, "leave": 2, "invite": 1, "sync": 10, "check": 2, "ranges": 2, "sub": 2, "unsub": 1, "newconn": 1,
				"unread": 2, "roomad": 2, "globalad": 2, "todevice": 3, "devlist": 2, "receipt": 2,
				"lost": 5, "badpos": 4, "dup": 6, "cut": 6, "lostchanged": 6}),
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
}
