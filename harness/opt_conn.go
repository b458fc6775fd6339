package zzverif

// Component engine: one connection's position handling (sync3.Conn) against a specification of
// at-most-once processing and exact retransmission, with a handler that may fail, panic or block.

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

func init() {
	engines["conn"] = func(w *Worker, name string, seed int64) {
		sync3.SpamProtectionInterval = time.Millisecond
		counts, sigs := map[string]int{}, map[uint64]bool{}
		var viols []Violation
		var trace string
		rng := rand.New(rand.NewSource(seed))
		for i := 0; i < 200 && len(viols) == 0; i++ {
			o := &connSim{rng: rand.New(rand.NewSource(rng.Int63())), counts: counts, sigs: sigs}
			o.run()
			viols = o.viols
			trace = strings.Join(o.log, "\n")
			if len(w.rep.Samples) < 2 && i == 0 {
				w.rep.Samples = append(w.rep.Samples, "conn: "+strings.Join(o.log[:min(8, len(o.log))], "; "))
			}
		}
		w.add(name, seed, counts, sigs, viols, nil, func() string { return trace })
	}
}

type connSim struct {
	rng    *rand.Rand
	counts map[string]int
	sigs   map[uint64]bool
	viols  []Violation
	log    []string

	mu     sync.Mutex
	conn   *sync3.Conn
	inside int
	calls  int
	serial int    // of the next answer
	mode   string // what the handler does next
	cancel bool   // a context was cancelled while the handler waited
	enter  chan struct{}
	tmo    int // the timeout the handler was last given
	order  []string

	// the specification's state
	known    []int64 // positions the client has been told
	ans      []*connAns
	acked    int64 // newest position the client came back with
	lastPos  int64
	lastBody string
	hasLast  bool
}

// the handler
func (o *connSim) OnIncomingRequest(ctx context.Context, cid sync3.ConnID, req *sync3.Request, initial bool, start time.Time) (*sync3.Response, error) {
	o.mu.Lock()
	o.inside++
	if o.inside > 1 {
		o.bad("two requests of one connection are processed at once", "")
	}
	o.calls++
	o.serial++
	n, mode := o.serial, o.mode
	o.tmo = req.TimeoutMSecs()
	o.order = append(o.order, connBody(req))
	enter := o.enter
	o.mu.Unlock()
	defer func() {
		o.mu.Lock()
		o.inside--
		o.mu.Unlock()
	}()
	switch mode {
	case "fail":
		return nil, fmt.Errorf("on purpose")
	case "herr":
		return nil, &internal.HandlerError{StatusCode: 418, Err: fmt.Errorf("on purpose"), ErrCode: "M_VERIF"}
	case "panic":
		panic("on purpose")
	case "block":
		select {
		case enter <- struct{}{}:
		default:
		}
		select {
		case <-ctx.Done():
			o.mu.Lock()
			o.cancel = true
			o.mu.Unlock()
		case <-time.After(20 * time.Second):
		}
	case "slow":
		time.Sleep(time.Duration(n%3) * time.Millisecond)
	}
	return &sync3.Response{Lists: map[string]sync3.ResponseList{"n": {Count: n}}, Rooms: map[string]sync3.Room{fmt.Sprintf("!r%d:x", n): {Name: fmt.Sprint("room", n)}}}, nil
}
func (o *connSim) OnUpdate(ctx context.Context, u caches.Update) {}
func (o *connSim) PublishEventsUpTo(roomID string, nid int64)    {}
func (o *connSim) Destroy()                                      {}
func (o *connSim) Alive() bool                                   { return true }
func (o *connSim) SetCancelCallback(cancel context.CancelFunc)   {}

func (o *connSim) bad(kind, f string, a ...any) {
	o.viols = append(o.viols, Violation{[]string{"C02"}, kind, fmt.Sprintf(f, a...) + "\n" + strings.Join(o.log[max(0, len(o.log)-25):], "\n")})
}

func connBody(r *sync3.Request) string {
	x := *r
	x.TxnID = ""
	b, _ := json.Marshal(x)
	return string(b)
}

func (o *connSim) req(pos int64, body int, txn string) *sync3.Request {
	r := &sync3.Request{TxnID: txn}
	switch body {
	case 0:
	case 1:
		r.Lists = map[string]sync3.RequestList{"a": {Ranges: sync3.SliceRanges{{0, 5}}}}
	case 2:
		r.Lists = map[string]sync3.RequestList{"a": {Ranges: sync3.SliceRanges{{0, 6}}}}
	case 3:
		r.RoomSubscriptions = map[string]sync3.RoomSubscription{"!a:x": {TimelineLimit: 4}}
	default:
		r.UnsubscribeRooms = []string{fmt.Sprintf("!u%d:x", body)}
	}
	r.SetPos(pos)
	r.SetTimeoutMSecs(5000)
	return r
}

type connRes struct {
	pos  int64
	body string
	txn  string
	err  *internal.HandlerError
}

func (o *connSim) do(ctx context.Context, r *sync3.Request) connRes {
	resp, herr := o.conn.OnIncomingRequest(ctx, r, time.Now())
	if herr != nil {
		return connRes{err: herr}
	}
	if resp == nil {
		return connRes{}
	}
	x := *resp
	x.TxnID = ""
	b, _ := json.Marshal(x)
	p, _ := strconv.ParseInt(resp.Pos, 10, 64)
	return connRes{pos: p, body: string(b), txn: resp.TxnID}
}

type connAns struct {
	pos  int64 // 0: not told yet
	body string
	txn  string
}

func (o *connSim) index(pos int64) int {
	for i, a := range o.ans {
		if pos > 0 && a.pos == pos {
			return i
		}
	}
	return -1
}

// waiting: how many answers the client at pos has not been given
func (o *connSim) waiting(pos int64) int { return len(o.ans) - 1 - o.index(pos) }

func (o *connSim) newest() int64 {
	n := int64(0)
	for _, a := range o.ans {
		if a.pos > n {
			n = a.pos
		}
	}
	return n
}

// accept checks a response to a request made at pos; made are the transactions processed for it, in order
func (o *connSim) accept(pos int64, res connRes, made ...string) {
	if res.pos == 0 {
		o.bad("no response", "request at %d", pos)
		return
	}
	for _, t := range made {
		o.ans = append(o.ans, &connAns{txn: t})
	}
	i := o.index(pos) + 1 // the oldest answer the client does not have
	if i >= len(o.ans) {
		o.bad("a response nobody produced", "request at %d: got %d", pos, res.pos)
		return
	}
	a := o.ans[i]
	if a.pos == 0 {
		if n := o.newest(); res.pos <= n {
			o.bad("positions do not increase", "request at %d: new response has %d after %d", pos, res.pos, n)
			return
		}
		for _, x := range o.ans {
			if x.pos > 0 && connPayload(x.body) == connPayload(res.body) {
				o.bad("one response under two positions", "%d and %d: %s", x.pos, res.pos, res.body)
			}
		}
		a.pos, a.body = res.pos, res.body
	}
	if a.pos != res.pos {
		o.bad("responses skipped or repeated", "request at %d answered with %d, the next one is %d", pos, res.pos, a.pos)
		return
	}
	if a.body != res.body {
		o.bad("a position was answered with different data", "position %d: first %s then %s", res.pos, a.body, res.body)
	}
	if a.txn != res.txn {
		o.bad("wrong txn_id echoed", "position %d was produced for txn %q, carries %q", res.pos, a.txn, res.txn)
	}
	o.known = append(o.known, res.pos)
}

func connPayload(b string) string {
	var r sync3.Response
	json.Unmarshal([]byte(b), &r)
	return fmt.Sprint(r.Lists["n"].Count)
}

func (o *connSim) step(i int) {
	cur := int64(0)
	if len(o.known) > 0 {
		cur = o.known[len(o.known)-1]
	}
	if cur == 0 {
		o.initial()
		return
	}
	pick := o.rng.Intn(100)
	body := o.rng.Intn(3)
	if o.rng.Intn(5) == 0 {
		body = 3 + o.rng.Intn(3)
	}
	pos := cur
	o.mode = ""
	switch {
	case pick < 15: // never issued
		pos = o.newest() + 1000 + int64(o.rng.Intn(5))
		if o.rng.Intn(4) == 0 {
			pos = -1 - int64(o.rng.Intn(3))
		}
		before := o.calls
		r := o.do(context.Background(), o.req(pos, body, "t"))
		o.logf("unknown pos %d -> %+v", pos, r)
		o.counts["c02_unknown"]++
		if r.err == nil || r.err.ErrCode != "M_UNKNOWN_POS" {
			o.bad("a position that was never issued was accepted", "pos %d: %+v", pos, r)
		}
		if o.calls != before {
			o.bad("a request at an unknown position was processed", "pos %d", pos)
		}
		return
	case pick < 25: // far behind
		if len(o.known) > 2 {
			pos = o.known[o.rng.Intn(len(o.known)-1)]
		}
		if pos < o.acked && pos != o.lastPos {
			before := o.calls
			r := o.do(context.Background(), o.req(pos, body, "t"))
			o.logf("old pos %d (acked %d) -> %+v", pos, o.acked, r)
			o.counts["c02_old"]++
			if r.err == nil {
				o.bad("a position already left behind was accepted", "pos %d, at %d: %+v", pos, o.acked, r)
			} else if r.err.ErrCode != "M_UNKNOWN_POS" || o.calls != before {
				o.bad("a position already left behind was not refused", "pos %d: %+v", pos, r)
			}
			return
		}
		pos = cur
	case pick < 50 && o.hasLast && o.lastPos > 0 && o.lastPos >= o.acked: // retry
		pos = o.lastPos
		if o.rng.Intn(3) > 0 {
			// the response just received got lost: the client repeats its last request
			before := o.calls
			r := o.do(context.Background(), o.again(pos, "retry"))
			o.logf("retry pos %d -> %d", pos, r.pos)
			o.counts["c02_retries"]++
			if r.err != nil {
				o.bad("a retry was refused", "pos %d: %v", pos, r.err.Err)
				return
			}
			if o.calls != before {
				o.bad("a retried request was processed again", "pos %d", pos)
			}
			o.accept(pos, r)
			return
		}
	case pick < 60:
		o.mode = []string{"fail", "herr", "panic"}[o.rng.Intn(3)]
	case pick < 70:
		o.concurrent(cur, body)
		return
	}
	if pos < o.acked {
		return // (clients do not go back)
	}
	if pos > o.acked {
		o.acked = pos
	}
	txn := fmt.Sprintf("txn%d", i)
	rq := o.req(pos, body, txn)
	key := connBody(rq)
	buffered := o.waiting(pos) > 0
	same := o.hasLast && o.lastBody == key
	must := !(same && buffered)
	before := o.calls
	r := o.do(context.Background(), rq)
	o.logf("pos %d body %d mode %q -> pos %d err %v (calls %d, same %v, buffered %v)", pos, body, o.mode, r.pos, r.err != nil, o.calls-before, same, buffered)
	o.sig(o.mode, same, o.waiting(pos), pos == o.lastPos, len(o.ans) > 3)
	o.counts["c02_requests"]++
	if must && o.calls-before != 1 {
		o.bad("a request was not processed exactly once", "pos %d body %d: %d times", pos, body, o.calls-before)
		return
	}
	if !must && o.calls != before {
		o.bad("a request without news was processed while answers were waiting", "pos %d", pos)
		return
	}
	if must && buffered && o.tmo > 1000 {
		o.bad("a request waits although answers are waiting", "timeout %d ms", o.tmo)
	}
	if must && o.mode != "" {
		o.counts["c02_failures"]++
		switch {
		case r.err == nil:
			o.bad("a failed request was answered", "pos %d mode %s: %+v", pos, o.mode, r)
		case o.mode == "herr" && (r.err.StatusCode != 418 || r.err.ErrCode != "M_VERIF"):
			o.bad("the handler's error was replaced", "%+v", r.err)
		case o.mode != "herr" && r.err.StatusCode != 500:
			o.bad("wrong status for an internal error", "%+v", r.err)
		}
		return
	}
	if r.err != nil {
		o.bad("a valid request was refused", "pos %d: %d %s %v", pos, r.err.StatusCode, r.err.ErrCode, r.err.Err)
		return
	}
	if must {
		o.accept(pos, r, txn)
		o.hasLast, o.lastPos, o.lastBody = true, pos, key
	} else {
		o.accept(pos, r)
	}
}

func (o *connSim) again(pos int64, txn string) *sync3.Request {
	var r sync3.Request
	json.Unmarshal([]byte(o.lastBody), &r)
	r.TxnID = txn
	r.SetPos(pos)
	r.SetTimeoutMSecs(5000)
	return &r
}

func (o *connSim) initial() {
	rq := o.req(0, 1, "first")
	o.mode = ""
	if o.rng.Intn(3) == 0 {
		o.mode = "fail"
		if r := o.do(context.Background(), rq); r.err == nil {
			o.bad("a failed first request was answered", "%+v", r)
		}
		o.mode = ""
		rq = o.req(0, 1, "first")
	}
	before := o.calls
	key := connBody(rq)
	r := o.do(context.Background(), rq)
	o.logf("first request -> %d", r.pos)
	if r.err != nil || o.calls-before != 1 {
		o.bad("the first request was not processed once", "%+v", r)
		return
	}
	o.accept(0, r, "first")
	o.hasLast, o.lastPos, o.lastBody = true, 0, key
}

// concurrent: several requests at one position at once; whatever is being processed is cut short
func (o *connSim) concurrent(pos int64, body int) {
	if pos < o.acked || o.waiting(pos) > 0 {
		return
	}
	o.acked = pos
	distinct := o.rng.Intn(2) == 0
	o.mode = "block"
	o.cancel = false
	o.enter = make(chan struct{}, 1)
	before := o.calls
	o.order = nil
	n := 2 + o.rng.Intn(3)
	res := make([]connRes, n)
	keys := make([]string, n)
	var wg sync.WaitGroup
	start := time.Now()
	run := func(i int) {
		b := 100
		if distinct {
			b += i
		}
		rq := o.req(pos, b, fmt.Sprintf("c%d", i))
		keys[i] = connBody(rq)
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = o.do(context.Background(), rq)
		}()
	}
	if o.hasLast && o.lastBody == connBody(o.req(pos, 100, "")) {
		return
	}
	run(0)
	select {
	case <-o.enter:
	case <-time.After(10 * time.Second):
		o.mu.Lock()
		o.bad("a request is not processed", "pos %d", pos)
		o.mu.Unlock()
		return
	}
	o.mu.Lock()
	o.mode = "slow"
	o.mu.Unlock()
	for i := 1; i < n; i++ {
		run(i)
	}
	wg.Wait()
	took := time.Since(start)
	o.logf("concurrent x%d distinct=%v at %d -> %v calls %d in %v", n, distinct, pos, res, o.calls-before, took > 15*time.Second)
	o.counts["c02_concurrent"]++
	o.sig("conc", n, distinct)
	if !o.cancel || took > 15*time.Second {
		o.bad("a newer request does not interrupt the one being processed", "took %v", took)
		return
	}
	wantCalls := 1
	if distinct {
		wantCalls = n
	}
	if o.calls-before != wantCalls {
		o.bad("concurrent requests were not processed exactly once each", "%d requests (distinct %v) processed %d times", n, distinct, o.calls-before)
		return
	}
	for i, r := range res {
		if r.err != nil || r.pos == 0 {
			o.bad("a concurrent request failed", "%d: %+v", i, r)
			return
		}
		if r.pos != res[0].pos || r.body != res[0].body {
			o.bad("concurrent requests at one position got different answers", "%+v vs %+v", res[0], r)
			return
		}
	}
	// which request produced which of the answers depends on the schedule
	var made []string
	for _, k := range o.order {
		for j := 0; j < n; j++ {
			if keys[j] == k {
				made = append(made, fmt.Sprintf("c%d", j))
				break
			}
		}
	}
	o.accept(pos, res[0], made...)
	o.lastPos, o.lastBody = pos, o.order[len(o.order)-1]
	o.mode = ""
}

func (o *connSim) sig(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	o.sigs[h.Sum64()] = true
}

func (o *connSim) logf(f string, a ...any) { o.log = append(o.log, fmt.Sprintf(f, a...)) }

func (o *connSim) run() {
	o.conn = sync3.NewConn(sync3.ConnID{UserID: "@a:x", DeviceID: "D", CID: "c"}, o)
	n := 10 + o.rng.Intn(40)
	for i := 0; i < n && len(o.viols) == 0; i++ {
		o.step(i)
	}
}
