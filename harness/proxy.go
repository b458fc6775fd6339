package zzverif

import (
	"bufio"
	"bytes"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"sync"
	"time"

	_ "github.com/lib/pq"
	syncv3 "github.com/matrix-org/sliding-sync"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/pressly/goose/v3"
	"github.com/rs/zerolog"
)

const verifSecret = "verif-secret"

func quietLogs() {
	if os.Getenv("VERIF_LOGS") == "" {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		if os.Getenv("VERIF_PROXYLOG") != "" {
			zerolog.SetGlobalLevel(zerolog.ErrorLevel)
		}
	}
	goose.SetLogger(goose.NopLogger())
}

// set by an optional file
var setPollSleep func(func(time.Duration))

func fastTimers() {
	sync3.SpamProtectionInterval = time.Millisecond
	if setPollSleep != nil {
		setPollSleep(func(d time.Duration) { time.Sleep(5 * time.Millisecond) })
	}
}

var expireOld func(h any)

// Proxy is the system under test: a process of its own (this binary in proxy mode) which runs the real
// server on a unix socket, so that it can be killed at any point.
type Proxy struct {
	hs    *HS
	pq    string
	opts  syncv3.Opts
	dir   string
	sock  string
	cmd   *exec.Cmd
	stdin io.WriteCloser
	cl    *http.Client
	mu    sync.Mutex
	out   bytes.Buffer
	done  chan struct{}
	alive bool
	env   []string
	n     int
}

type proxyCfg struct {
	HS, DB, Sock string
	Opts         syncv3.Opts
}

func defaultOpts() syncv3.Opts {
	return syncv3.Opts{
		TestingSynchronousPubsub: true,
		MaxPendingEventUpdates:   2000,
		MaxTransactionIDDelay:    0,
		DBMaxConns:               16,
		DBConnMaxIdleTime:        time.Hour,
		HTTPTimeout:              60 * time.Second,
		HTTPLongTimeout:          60 * time.Second,
	}
}

// proxyMain is the child process.
func proxyMain() {
	quietLogs()
	fastTimers()
	var cfg proxyCfg
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_PROXY_CFG")), &cfg); err != nil {
		panic(err)
	}
	if os.Getenv("VERIF_FAST_POLL_BACKOFF") != "" {
		if setPollSleep != nil {
			setPollSleep(func(d time.Duration) { time.Sleep(50 * time.Microsecond) })
		}
	}
	if os.Getenv("VERIF_SLOW_POLL_BACKOFF") != "" {
		if setPollSleep != nil {
			setPollSleep(func(d time.Duration) { time.Sleep(50 * time.Millisecond) })
		}
	}
	if ms, _ := strconv.Atoi(os.Getenv("VERIF_BUFFER_WAIT_MS")); ms > 0 && setBufferWait != nil {
		setBufferWait(time.Duration(ms) * time.Millisecond)
	}
	h2, h3 := syncv3.Setup(cfg.HS, cfg.DB, verifSecret, cfg.Opts)
	go h2.StartV2Pollers()
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			switch sc.Text() {
			case "stacks":
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			case "expire":
				if expireOld != nil {
					expireOld(h2)
				}
				fmt.Fprintln(os.Stderr, "EXPIRE-DONE")
			}
		}
		os.Exit(0)
	}()
	syncv3.RunSyncV3Server(h3, cfg.Sock, cfg.HS, "", "")
}

func StartProxy(hs *HS, pq string, opts syncv3.Opts, env ...string) *Proxy {
	dir, err := os.MkdirTemp("", "vpx")
	if err != nil {
		panic(err)
	}
	p := &Proxy{hs: hs, pq: pq, opts: opts, dir: dir, env: env}
	p.start()
	return p
}

func (p *Proxy) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 4<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

// Output is what the proxy processes printed so far.
func (p *Proxy) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *Proxy) Alive() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.alive
}

func (p *Proxy) start() {
	p.n++
	p.sock = fmt.Sprintf("%s/s%d", p.dir, p.n)
	cfg := mustJSON(proxyCfg{HS: p.hs.URL(), DB: p.pq, Sock: p.sock, Opts: p.opts})
	cmd := exec.Command(os.Args[0], "-test.run", "TestVerif$", "-test.timeout", "0")
	cmd.Env = append(append(os.Environ(), "VERIF_MODE=proxy", "VERIF_PROXY_CFG="+string(cfg)), p.env...)
	stdin, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stdout, cmd.Stderr = p, p
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	p.mu.Lock()
	p.cmd, p.stdin, p.done, p.alive = cmd, stdin, done, true
	p.mu.Unlock()
	go func() {
		cmd.Wait()
		p.mu.Lock()
		if p.cmd == cmd {
			p.alive = false
		}
		p.mu.Unlock()
		close(done)
	}()
	sock := p.sock
	p.cl = &http.Client{Transport: &http.Transport{
		DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "unix", sock)
		},
		MaxIdleConnsPerHost: 64,
	}}
	for i := 0; i < 6000; i++ {
		if c, err := net.Dial("unix", sock); err == nil {
			c.Close()
			return
		}
		if !p.Alive() {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Kill ends the proxy process as a crash would.
func (p *Proxy) Kill() {
	p.cmd.Process.Kill()
	<-p.done
	p.hs.NewGeneration()
	p.cl.CloseIdleConnections()
}

// Stop kills the process and removes its files.
func (p *Proxy) Stop() {
	p.Kill()
	os.RemoveAll(p.dir)
}

func (p *Proxy) Restart() {
	p.Kill()
	p.start()
}

type HTTPResult struct {
	Code int
	Body []byte
	Err  error
}

// Sync does one sliding sync HTTP request.
func (p *Proxy) Sync(ctx context.Context, token, pos string, timeoutMS int, body []byte) HTTPResult {
	u := "http://proxy/_matrix/client/unstable/org.matrix.msc3575/sync?timeout=" + fmt.Sprint(timeoutMS)
	if pos != "" {
		u += "&pos=" + pos
	}
	req, err := http.NewRequestWithContext(ctx, "POST", u, bytes.NewReader(body))
	if err != nil {
		return HTTPResult{Err: err}
	}
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	res, err := p.cl.Do(req)
	if err != nil {
		return HTTPResult{Err: err}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return HTTPResult{Code: res.StatusCode, Body: b, Err: err}
}

// ---------- database helpers ----------

func dbConnString() string {
	s := os.Getenv("VERIF_DB")
	if s == "" {
		panic("VERIF_DB is not set")
	}
	return s
}

func openDB() *sql.DB {
	db, err := sql.Open("postgres", dbConnString())
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(4)
	return db
}

// wipeDB empties all proxy tables but keeps the schema.
func wipeDB(db *sql.DB) {
	for i := 0; ; i++ {
		rows, err := db.Query(`SELECT tablename FROM pg_tables WHERE schemaname='public' AND tablename LIKE 'syncv3%'`)
		if err != nil {
			panic(err)
		}
		q := ""
		for rows.Next() {
			var n string
			rows.Scan(&n)
			if q != "" {
				q += ","
			}
			q += n
		}
		rows.Close()
		if q == "" {
			return
		}
		_, err = db.Exec("TRUNCATE " + q)
		if err == nil {
			return
		}
		if i > 20 {
			panic(err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
