package zzverif

// Component engine: the list window machinery (SetRoom -> CalculateListOps) against a model client.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

func init() {
	engines["ops"] = func(w *Worker, name string, seed int64) {
		counts, sigs := map[string]int{}, map[uint64]bool{}
		var viols []Violation
		var trace string
		rng := rand.New(rand.NewSource(seed))
		for i := 0; i < 300 && len(viols) == 0; i++ {
			o := &opsSim{rng: rand.New(rand.NewSource(rng.Int63())), counts: counts, sigs: sigs}
			o.run()
			viols = o.viols
			trace = strings.Join(o.log, "\n")
			if len(w.rep.Samples) < 2 && i == 0 {
				w.rep.Samples = append(w.rep.Samples, "ops: "+strings.Join(o.log[:min(6, len(o.log))], "; "))
			}
		}
		w.add(name, seed, counts, sigs, viols, nil, func() string { return trace })
	}
}

type opsRoom struct {
	id     string
	ts     uint64
	name   string
	n, h   int
	invite bool
	left   bool
	enc    bool
	tag    bool
}

type opsSim struct {
	rng    *rand.Rand
	counts map[string]int
	sigs   map[uint64]bool
	viols  []Violation
	log    []string
}

func (o *opsSim) bad(props []string, kind, f string, a ...any) {
	o.viols = append(o.viols, Violation{props, kind, fmt.Sprintf(f, a...)})
}

func (r *opsRoom) meta(keys []string) sync3.RoomConnMetadata {
	md := internal.NewRoomMetadata(r.id)
	md.LastMessageTimestamp = r.ts
	md.NameEvent = r.name
	md.Encrypted = r.enc
	urd := caches.NewUserRoomData()
	urd.NotificationCount = r.n
	urd.HighlightCount = r.h
	urd.IsInvite = r.invite
	urd.HasLeft = r.left
	if r.tag {
		urd.Tags["t"] = 0.5
	}
	ts := map[string]uint64{}
	for _, k := range keys {
		ts[k] = r.ts
	}
	return sync3.RoomConnMetadata{RoomMetadata: *md, UserRoomData: urd, LastInterestedEventTimestamps: ts}
}

func (r *opsRoom) view() *RoomView {
	v := &RoomView{ID: r.id, Name: r.name, TS: int64(r.ts), Notif: r.n, Highlight: r.h, Invite: r.invite, Encrypted: r.enc, Tags: map[string]bool{}, Spaces: map[string]bool{}}
	if r.tag {
		v.Tags["t"] = true
	}
	return v
}

func (o *opsSim) ranges(n int) sync3.SliceRanges {
	k := 1 + o.rng.Intn(3)
	var out sync3.SliceRanges
	lo := o.rng.Intn(3)
	for i := 0; i < k; i++ {
		hi := lo + o.rng.Intn(1+n/2)
		out = append(out, [2]int64{int64(lo), int64(hi)})
		lo = hi + 1 + o.rng.Intn(4)
	}
	if o.rng.Intn(6) == 0 {
		out[len(out)-1][1] = 100
	}
	return out
}

func (o *opsSim) run() {
	ctx := context.Background()
	rng := o.rng
	n := rng.Intn(14)
	sorts := [][]string{{"by_recency"}, {"by_name"}, {"by_name", "by_recency"}, {"by_notification_level", "by_recency"}, {"by_notification_count", "by_recency"}, {"by_highlight_count", "by_name"}}
	type lst struct {
		key string
		req sync3.RequestList
		f   J
		m   map[int]string
		in  func(int) bool
	}
	lists := sync3.NewInternalRequestLists()
	var ls []*lst
	var keys []string
	for i := 0; i < 1+rng.Intn(2); i++ {
		l := &lst{key: fmt.Sprintf("l%d", i), m: map[int]string{}}
		l.req.Sort = sorts[rng.Intn(len(sorts))]
		l.req.Ranges = o.ranges(n)
		if rng.Intn(2) == 0 {
			b := rng.Intn(2) == 0
			switch rng.Intn(3) {
			case 0:
				l.req.Filters = &sync3.RequestFilters{IsEncrypted: &b}
				l.f = J{"is_encrypted": b}
			case 1:
				l.req.Filters = &sync3.RequestFilters{IsInvite: &b}
				l.f = J{"is_invite": b}
			case 2:
				l.req.Filters = &sync3.RequestFilters{Tags: []string{"t"}}
				l.f = J{"tags": []string{"t"}}
			}
		}
		l.in = func(i int) bool { _, ok := l.req.Ranges.Inside(int64(i)); return ok }
		ls = append(ls, l)
		keys = append(keys, l.key)
	}
	now := uint64(1000)
	rooms := map[string]*opsRoom{}
	var order []string
	newRoom := func() *opsRoom {
		now++
		r := &opsRoom{id: fmt.Sprintf("!%d", len(order)), ts: now, name: fmt.Sprintf("%c%d", 'a'+rng.Intn(5), rng.Intn(4)), enc: rng.Intn(2) == 0}
		rooms[r.id] = r
		order = append(order, r.id)
		return r
	}
	for i := 0; i < n; i++ {
		r := newRoom()
		lists.SetRoom(r.meta(keys))
	}
	for _, l := range ls {
		fl, _ := lists.AssignList(ctx, l.key, l.req.Filters, l.req.Sort, sync3.DoNotOverwrite)
		for i, rid := range fl.RoomIDs() {
			if l.in(i) {
				l.m[i] = rid
			}
		}
		o.log = append(o.log, fmt.Sprintf("list %s ranges %v sort %v filter %v: %v", l.key, l.req.Ranges, l.req.Sort, l.f, fl.RoomIDs()))
	}
	for step := 0; step < 25 && len(o.viols) == 0; step++ {
		var r *opsRoom
		if len(order) == 0 || rng.Intn(8) == 0 {
			r = newRoom()
		} else {
			r = rooms[order[rng.Intn(len(order))]]
			switch rng.Intn(9) {
			case 0, 1:
				now++
				r.ts = now
			case 2:
				r.n = rng.Intn(3)
			case 3:
				r.h = rng.Intn(3)
			case 4:
				r.name = fmt.Sprintf("%c%d", 'a'+rng.Intn(5), rng.Intn(4))
			case 5:
				r.left = !r.left
			case 6:
				r.enc = !r.enc
			case 7:
				r.tag = !r.tag
			case 8:
				r.invite = !r.invite
			}
		}
		delta := lists.SetRoom(r.meta(keys))
		byKey := map[string]sync3.ListOp{}
		for _, d := range delta.Lists {
			byKey[d.ListKey] = d.Op
		}
		for _, l := range ls {
			fl := lists.Get(l.key)
			before := fl.RoomIDs()
			oldWin := map[string]bool{}
			for _, rid := range l.m {
				oldWin[rid] = true
			}
			var subs []string
			var ops []Op
			if op, ok := byKey[l.key]; ok {
				var rops []sync3.ResponseOp
				func() {
					defer func() {
						if e := recover(); e != nil {
							o.bad([]string{"C03", "C20"}, "panic while calculating list operations", "%v: op %d room %s list %s ranges %v before %v", e, op, r.id, l.key, l.req.Ranges, before)
						}
					}()
					rops, subs = sync3.CalculateListOps(ctx, &l.req, fl, r.id, op)
				}()
				b, _ := json.Marshal(rops)
				_ = json.Unmarshal(b, &ops)
				o.counts["ops_updates"]++
				o.counts["ops_emitted"] += len(ops)
				o.log = append(o.log, fmt.Sprintf("%s op %d room %s: %v -> %v: %s subs %v", l.key, op, r.id, before, fl.RoomIDs(), b, subs))
			}
			if len(o.viols) > 0 {
				return
			}
			pre := fmtWin(l.m)
			badOp := ""
			applyListOps(l.m, l.in, ops, func(f string, a ...any) { badOp = fmt.Sprintf(f, a...) })
			after := fl.RoomIDs()
			for i := range l.m {
				if i >= len(after) && l.in(i) {
					o.bad([]string{"C03"}, "stale entry past the end of the list", "index %d ops %s", i, mustJSON(ops))
				}
			}
			desc := fmt.Sprintf("list %s ranges %v: room %s op %d: %v -> %v ops %s; window %s -> %s", l.key, l.req.Ranges, r.id, byKey[l.key], before, after, mustJSON(ops), pre, fmtWin(l.m))
			if badOp != "" {
				o.bad([]string{"C03"}, "bad list operation", "%s: %s", badOp, desc)
				return
			}
			for i, rid := range after {
				if l.in(i) && l.m[i] != rid {
					o.bad([]string{"C03"}, "windows differ from the list", "index %d: %s", i, desc)
					return
				}
			}
			for i, rid := range l.m {
				if !l.in(i) {
					o.bad([]string{"C03"}, "entry outside of the ranges", "index %d: %s", i, desc)
					return
				}
				if !oldWin[rid] {
					ok := false
					for _, s := range subs {
						ok = ok || s == rid
					}
					if !ok {
						o.bad([]string{"C03", "C18"}, "room enters the window without its data", "room %s: subs %v %s", rid, subs, desc)
						return
					}
				}
			}
			// the list itself is the right set in the right order
			var exp []string
			key := map[string]string{}
			for _, id := range order {
				x := rooms[id]
				v := x.view()
				key[id] = v.key(l.req.Sort)
				if !x.left && v.include(l.f) == 1 {
					exp = append(exp, id)
				}
			}
			got := append([]string{}, after...)
			sort.Strings(got)
			sort.Strings(exp)
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				o.bad([]string{"C04", "C03"}, "wrong rooms in the list", "expected %v: %s", exp, desc)
				return
			}
			for i := 1; i < len(after); i++ {
				if key[after[i-1]] > key[after[i]] {
					o.bad([]string{"C04"}, "wrong order", "sort %v index %d: %s", l.req.Sort, i, desc)
					return
				}
			}
			o.sig(len(after), len(before), l.req.Ranges, byKey[l.key], len(ops))
		}
	}
}

func (o *opsSim) sig(parts ...any) {
	s := &Sim{sigs: o.sigs}
	s.Sig(parts...)
}
