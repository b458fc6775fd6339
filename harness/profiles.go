package zzverif

func prof(name string, mk func() *Profile) {
	engines[name] = func(w *Worker, n string, seed int64) {
		p := mk()
		if p.Fresh == 0 {
			p.Fresh = 0.25
		}
		runSim(w, n, seed, p)
	}
}

var allExt = []string{"account_data", "to_device", "e2ee", "typing", "receipts"}

func enableAll(c *Client) {
	for _, e := range allExt {
		c.SetExt(e, J{"enabled": true})
	}
}

func weights(ms ...map[string]int) map[string]int {
	out := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			out[k] += v
		}
	}
	return out
}

var (
	wMsg     = map[string]int{"msg": 10, "msgbatch": 5, "state": 5, "name": 3, "profile": 2}
	wMember  = map[string]int{"join": 5, "leave": 4, "kick": 2, "unban": 1, "invite": 3, "rejectinvite": 1, "revokeinvite": 1, "create": 2}
	wSync    = map[string]int{"sync": 12, "check": 4}
	wList    = map[string]int{"ranges": 5, "sort": 2, "filter": 3, "addlist": 2, "dellist": 1}
	wSub     = map[string]int{"sub": 4, "unsub": 2, "reqparams": 2}
	wExt     = map[string]int{"unread": 4, "tag": 3, "roomad": 3, "globalad": 3, "typing": 3, "receipt": 4, "todevice": 4, "devlist": 3, "otk": 2}
	wConn    = map[string]int{"newconn": 1, "lost": 2}
	wRestart = map[string]int{"restart": 1}
)

func randListCfg(s *Sim, c *Client) {
	cfg := ListCfg{Ranges: s.randRanges(), Sort: s.randSort(), RoomSubCfg: s.randSub()}
	if s.chance(0.4) {
		cfg.Sort = nil
	}
	if s.chance(0.3) {
		cfg.Filters = s.randFilter()
	}
	c.SetList("a", cfg)
	if s.chance(0.3) {
		c.SetList("b", ListCfg{Ranges: s.randRanges(), Sort: s.randSort(), RoomSubCfg: s.randSub()})
	}
}

func init() {
	prof("mix", func() *Profile {
		return &Profile{Users: 4, Rooms: 6, Steps: 60, NoSettle: 0.3,
			W:     weights(wMsg, wMember, wSync, wList, wSub, wExt, wConn, map[string]int{"spacechild": 2, "direct": 1}),
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
	prof("timeline", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 60, NoSettle: 0.6,
			W: weights(wMsg, wMember, map[string]int{"sync": 20, "check": 3, "ranges": 4, "sub": 4, "unsub": 3, "lost": 2, "newconn": 1, "burst": 1}),
			Lists: func(s *Sim, c *Client) {
				c.SetList("a", ListCfg{Ranges: s.randRanges(), RoomSubCfg: s.randSub()})
			}}
	})
	prof("restart", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 50, NoSettle: 0.3,
			W: weights(wMsg, wMember, wSync, wExt, wRestart, map[string]int{"ranges": 2, "sub": 1, "spacechild": 2, "rdiff": 2, "direct": 2}), As: []string{"C11"},
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
	// focused histories: few rooms, single small deltas (the pollers are let settle in between), several of
	// them between two requests of a client
	focus := func(name string, users, rooms int, w map[string]int, extra func(p *Profile)) {
		prof(name, func() *Profile {
			p := &Profile{Users: users, Rooms: rooms, Steps: 70, NoSettle: 0.2,
				W:     weights(w, map[string]int{"sync": 6, "check": 3, "settle": 18, "msg": 3, "join": 1, "leave": 1, "newconn": 1, "lost": 1, "sub": 1, "ranges": 1}),
				Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
			if extra != nil {
				extra(p)
			}
			return p
		})
	}
	focus("receipts", 3, 2, map[string]int{"receipt": 30, "msg": 5, "fresh": 5, "restart": 1}, nil)
	focus("typing", 3, 2, map[string]int{"typing": 30, "msg": 5}, nil)
	focus("acct", 2, 4, map[string]int{"globalad": 8, "direct": 5, "fresh": 4, "roomad": 15, "tag": 8, "ranges": 3, "filter": 2, "unsub": 1}, nil)
	focus("unread", 3, 4, map[string]int{"unread": 25, "msg": 8, "invite": 5, "rejectinvite": 1, "sort": 3, "name": 2, "fresh": 3, "restart": 1}, nil)
	focus("invites", 3, 3, map[string]int{"invite": 14, "rejectinvite": 3, "name": 6, "state": 3, "join": 5, "leave": 3, "kick": 2, "fresh": 4, "restart": 3, "unread": 2, "settle": 4}, func(p *Profile) { p.NoSettle = 0.5 })
	focus("e2ee", 2, 2, map[string]int{"todevice": 15, "keyreq": 18, "devlist": 12, "otk": 8, "lost": 4, "restart": 1}, func(p *Profile) { p.Devices = 2 })
	focus("details", 4, 3, map[string]int{"profile": 12, "direct": 4, "fresh": 3, "name": 4, "state": 6, "join": 4, "leave": 4, "kick": 2, "invite": 4, "rejectinvite": 2, "restart": 1, "sub": 2}, nil)
	focus("crowd", 3, 2, map[string]int{"crowd": 40, "profile": 5, "name": 3, "join": 3, "invite": 2, "restart": 1, "sub": 2}, func(p *Profile) {
		p.W["leave"] = 0
		p.Heroes, p.Fresh, p.Steps = true, -1, 110
		p.Subs = func(s *Sim) RoomSubCfg {
			return RoomSubCfg{ReqState: [][2]string{{"m.room.member", "*"}}, TimelineLimit: 1 + s.rng.Intn(3), Heroes: true}
		}
	})
	prof("bump", func() *Profile {
		return &Profile{Users: 2, Rooms: 4, Steps: 70, NoSettle: 0.2,
			W: map[string]int{"sync": 6, "check": 8, "settle": 5, "msg": 8, "msgbatch": 12, "state": 8, "sort": 4, "reqparams": 2, "ranges": 2, "bump": 1, "newconn": 1, "join": 1, "leave": 1},
			Lists: func(s *Sim, c *Client) {
				c.SetList("a", ListCfg{Ranges: s.randRanges(), Sort: s.randSort(), RoomSubCfg: s.randSub(), Bump: s.randBump()})
				if s.chance(0.3) {
					c.SetList("b", ListCfg{Ranges: s.randRanges(), Sort: []string{"by_recency"}, RoomSubCfg: s.randSub(), Bump: s.randBump()})
				}
			}}
	})

	prof("redact", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 70, NoSettle: 0.3, Fresh: 0.4, As: []string{"C22"}, Versions: []string{"6", "8", "9", "10", "11"},
			W: map[string]int{"redact": 20, "redactother": 4, "msg": 8, "state": 8, "name": 5, "profile": 4, "join": 3, "leave": 2, "invite": 1, "create": 1, "spacechild": 5,
				"sync": 10, "check": 6, "settle": 6, "sub": 3, "unsub": 2, "ranges": 2, "filter": 2, "newconn": 3, "restart": 1, "lost": 1, "fresh": 2},
			Lists: func(s *Sim, c *Client) {
				randListCfg(s, c)
				var sps []string
				for _, r := range s.rooms {
					if r.RoomType == "m.space" {
						sps = append(sps, r.ID)
					}
				}
				if len(sps) > 0 {
					c.SetList("sp", ListCfg{Ranges: [][2]int{{0, 20}}, RoomSubCfg: s.randSub(), Filters: J{"spaces": []string{pick(s, sps)}}})
				}
			}}
	})
	prof("ignore", func() *Profile {
		return &Profile{Users: 4, Rooms: 3, Steps: 70, NoSettle: 0.4, Fresh: 0.3, Ignores: true, NoOrder: true, As: []string{"C22"},
			W: map[string]int{"ignore": 8, "msg": 20, "msgbatch": 5, "state": 4, "name": 2, "profile": 2, "join": 3, "leave": 2, "sync": 14, "check": 5, "settle": 4,
				"sub": 3, "unsub": 2, "ranges": 3, "newconn": 3, "restart": 1, "lost": 1, "fresh": 2, "globalad": 2},
			Subs: func(s *Sim) RoomSubCfg {
				if s.chance(0.5) {
					return lazySubs(s)
				}
				return RoomSubCfg{ReqState: [][2]string{{"*", "*"}}, TimelineLimit: 1 + s.rng.Intn(5)}
			},
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})

	prof("lazy", func() *Profile {
		return &Profile{Users: 5, Rooms: 3, Steps: 80, NoSettle: 0.4, Fresh: 0.3, As: []string{"C21"},
			Subs: lazySubs,
			W: map[string]int{"msg": 16, "msgbatch": 8, "profile": 12, "state": 3, "typing": 10, "unread": 4, "join": 3, "leave": 3, "kick": 1, "invite": 1, "sync": 14, "check": 4, "settle": 4,
				"sub": 5, "unsub": 4, "ranges": 8, "reqparams": 2, "newconn": 2, "restart": 1, "lost": 1, "sort": 2},
			Lists: func(s *Sim, c *Client) {
				c.SetList("a", ListCfg{Ranges: [][2]int{{0, s.rng.Intn(2)}}, RoomSubCfg: s.randSub()})
				enableAll(c)
			}}
	})

	prof("overlap", func() *Profile {
		return &Profile{Users: 3, Devices: 2, Rooms: 3, Steps: 80, NoSettle: 0.5, As: []string{"C07"}, Fresh: 0.6,
			W: weights(wMsg, wMember, map[string]int{"pause": 14, "sync": 8, "check": 5, "restart": 1, "pollerr": 3, "ranges": 2, "sub": 2, "newconn": 1, "spacechild": 2,
				"roomad": 2, "globalad": 2, "unread": 3, "tag": 2, "todevice": 2, "devlist": 2}),
			Setup: func(s *Sim) {
				s.hs.OverlapBack = func(d *Dev, r *Room) int { return (int(s.hs.pos) * 7 % 11) % 5 }
			},
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
}

// lazySubs: members on demand, with and without extra ones.
func lazySubs(s *Sim) RoomSubCfg {
	lz := [2]string{"m.room.member", "$LAZY"}
	rs := [][2]string{lz, {"m.room.name", ""}}
	switch s.rng.Intn(5) {
	case 0:
		rs = append(rs, [2]string{"m.room.member", "$ME"})
	case 1:
		rs = append(rs, [2]string{"m.room.member", pick(s, s.users)})
	case 2:
		rs = [][2]string{lz}
	case 3:
		if s.chance(0.3) {
			rs = [][2]string{{"m.room.member", "*"}, {"m.room.topic", ""}}
		}
	}
	return RoomSubCfg{ReqState: rs, TimelineLimit: 1 + s.rng.Intn(3)}
}
