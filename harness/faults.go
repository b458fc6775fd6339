package zzverif

// Database write faults: every write statement of the proxy counts up a sequence; those in a chosen window
// fail (at the statement, or only when its transaction commits).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"time"
)

const faultSQL = `
CREATE SEQUENCE IF NOT EXISTS vf_seq;
CREATE SEQUENCE IF NOT EXISTS vf_cseq;
CREATE SEQUENCE IF NOT EXISTS vf_hits;
CREATE TABLE IF NOT EXISTS vf_cfg(id int primary key, lo bigint, hi bigint, clo bigint, chi bigint);
INSERT INTO vf_cfg VALUES (1,0,0,0,0) ON CONFLICT (id) DO UPDATE SET lo=0,hi=0,clo=0,chi=0;
CREATE OR REPLACE FUNCTION vf_fault() RETURNS trigger AS $$
DECLARE n bigint; a bigint; b bigint;
BEGIN
  n := nextval('vf_seq');
  SELECT lo, hi INTO a, b FROM vf_cfg WHERE id=1;
  IF n BETWEEN a AND b THEN
    PERFORM nextval('vf_hits');
    RAISE EXCEPTION 'injected write fault % on %', n, TG_TABLE_NAME;
  END IF;
  RETURN NULL;
END $$ LANGUAGE plpgsql;
CREATE OR REPLACE FUNCTION vf_cfault() RETURNS trigger AS $$
DECLARE n bigint; a bigint; b bigint;
BEGIN
  n := nextval('vf_cseq');
  SELECT clo, chi INTO a, b FROM vf_cfg WHERE id=1;
  IF n BETWEEN a AND b THEN
    PERFORM nextval('vf_hits');
    RAISE EXCEPTION 'injected commit fault % on %', n, TG_TABLE_NAME;
  END IF;
  RETURN NULL;
END $$ LANGUAGE plpgsql;
`

func (s *Sim) exec(q string, a ...any) {
	if _, err := s.db.Exec(q, a...); err != nil {
		panic(fmt.Sprintf("harness query failed: %v: %s", err, q))
	}
}

// InstallFaults is called once the proxy has created its tables.
func (s *Sim) InstallFaults() {
	s.exec(faultSQL)
	rows, err := s.db.Query(`SELECT tablename FROM pg_tables WHERE schemaname='public' AND tablename LIKE 'syncv3\_%'`)
	if err != nil {
		panic(err)
	}
	var ts []string
	for rows.Next() {
		var n string
		rows.Scan(&n)
		ts = append(ts, n)
	}
	rows.Close()
	for _, t := range ts {
		s.exec("DROP TRIGGER IF EXISTS vf_t ON " + t)
		s.exec("DROP TRIGGER IF EXISTS vf_c ON " + t)
		s.exec("CREATE TRIGGER vf_t BEFORE INSERT OR UPDATE OR DELETE ON " + t + " FOR EACH STATEMENT EXECUTE FUNCTION vf_fault()")
		s.exec("CREATE CONSTRAINT TRIGGER vf_c AFTER INSERT OR UPDATE OR DELETE ON " + t + " DEFERRABLE INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION vf_cfault()")
	}
	s.data["faults"] = true
	s.hs.TDReplayOK = true
}

func (s *Sim) RemoveFaults() {
	if s.data["faults"] != true {
		return
	}
	s.ClearFaults()
	rows, err := s.db.Query(`SELECT tgname, tgrelid::regclass::text FROM pg_trigger WHERE tgname IN ('vf_t','vf_c')`)
	if err != nil {
		return
	}
	var q []string
	for rows.Next() {
		var n, t string
		rows.Scan(&n, &t)
		q = append(q, "DROP TRIGGER IF EXISTS "+n+" ON "+t)
	}
	rows.Close()
	for _, x := range q {
		s.db.Exec(x)
	}
}

// ArmFault lets a run of writes fail, soon.
func (s *Sim) ArmFault() {
	after, n := s.rng.Intn(25), 1+s.rng.Intn(3)
	if s.chance(0.2) {
		n = 12
	}
	if s.chance(0.65) {
		s.exec(`UPDATE vf_cfg SET lo=(SELECT last_value FROM vf_seq)+1+$1, hi=(SELECT last_value FROM vf_seq)+$1+$2, clo=0, chi=0`, after, n)
	} else {
		s.exec(`UPDATE vf_cfg SET clo=(SELECT last_value FROM vf_cseq)+1+$1, chi=(SELECT last_value FROM vf_cseq)+$1+$2, lo=0, hi=0`, after, n)
	}
	s.faulty = true
	s.Count("faults_armed", 1)
}

// ClearFaults: the database recovers.
func (s *Sim) ClearFaults() {
	if !s.faulty {
		return
	}
	s.exec(`UPDATE vf_cfg SET lo=0,hi=0,clo=0,chi=0`)
	var n int64
	var called bool
	s.db.QueryRow(`SELECT last_value, is_called FROM vf_hits`).Scan(&n, &called)
	if called {
		if last, _ := s.data["hits"].(int64); n > last {
			s.Count("faults_hit", int(n-last))
			s.Sig("faults", n-last)
		}
		s.data["hits"] = n
	}
	s.faulty = false
}

// CrashSoon kills the proxy a random moment after something was sent to it.
func (s *Sim) CrashSoon() {
	for i := 0; i < 1+s.rng.Intn(3); i++ {
		k := pick(s, []string{"msg", "msgbatch", "state", "todevice", "globalad", "roomad", "devlist", "otk"})
		s.stepKinds()[k](s)
	}
	time.Sleep(time.Duration(s.rng.Intn(12000)) * time.Microsecond)
	s.Restart()
	s.Count("crashes", 1)
}

// badRooms adds rooms nothing can be made of to responses: they are skipped, whatever else fails.
func (s *Sim) badRooms(d *Dev, since int64, resp J) {
	h := fnv.New64a()
	fmt.Fprint(h, s.seed, d.DeviceID, since)
	if since == 0 || h.Sum64()%5 < 2 {
		return
	}
	rooms, _ := resp["rooms"].(J)
	if rooms == nil {
		return
	}
	join, _ := rooms["join"].(J)
	if join == nil {
		return
	}
	for i := uint64(0); i <= h.Sum64()%3; i++ {
		mem := json.RawMessage(fmt.Sprintf(`{"event_id":"$bm%d-%d-%s","type":"m.room.member","state_key":%q,"sender":%q,"content":{"membership":"join"},"origin_server_ts":5}`, since, i, d.DeviceID, d.UserID, d.UserID))
		join[fmt.Sprintf("!bad%d-%d-%s:hs", since, i, s.nonce)] = J{"state": J{"events": []json.RawMessage{mem}}}
		s.Count("bad_rooms", 1)
	}
}

func init() {
	faultW := weights(wMsg, wMember, map[string]int{"sync": 8, "check": 4, "tag": 2, "roomad": 3, "globalad": 4, "todevice": 5, "devlist": 4, "otk": 3, "ranges": 2, "sub": 2, "newconn": 1})
	prof("faults", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 60, NoSettle: 0.5, As: []string{"C08"},
			W:        weights(faultW, map[string]int{"fault": 14}),
			PostInit: func(s *Sim) { s.InstallFaults() },
			Lists:    func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
	prof("faultsbad", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 60, NoSettle: 0.5, As: []string{"C08", "C25"}, Env: []string{"SYNCV3_DEBUG=0"},
			W:        weights(faultW, map[string]int{"fault": 20}),
			Setup:    func(s *Sim) { s.hs.Mangle = s.badRooms },
			PostInit: func(s *Sim) { s.InstallFaults() },
			Lists:    func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
	prof("crash", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 45, NoSettle: 0.5, As: []string{"C08"},
			W:     weights(faultW, map[string]int{"crash": 6, "restart": 1}),
			Lists: func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
	prof("crashfault", func() *Profile {
		return &Profile{Users: 3, Rooms: 4, Steps: 45, NoSettle: 0.5, As: []string{"C08"},
			W:        weights(faultW, map[string]int{"crash": 3, "fault": 10}),
			PostInit: func(s *Sim) { s.InstallFaults() },
			Lists:    func(s *Sim, c *Client) { randListCfg(s, c); enableAll(c) }}
	})
}
