package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

// Report is what a worker process writes.
type Report struct {
	Engine       string            `json:"engine"`
	Scenarios    int               `json:"scenarios"`
	Counts       map[string]int    `json:"counts"`
	Sigs         []string          `json:"sigs"`
	Inconclusive []string          `json:"inconclusive"`
	Violations   []ReportViolation `json:"violations"`
	Other        []ReportViolation `json:"other"` // violations of properties that are not being checked
	Samples      []string          `json:"samples"`
	Findings     []Finding         `json:"findings"`
	WallS        float64           `json:"wall_s"`
}

// Finding is a known finding that was reproduced.
type Finding struct {
	ID     string `json:"id"`
	Detail string `json:"detail"`
}

type ReportViolation struct {
	Violation
	Seed    int64  `json:"seed"`
	Profile string `json:"profile"`
	Replay  string `json:"replay"`
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

type Worker struct {
	rep   *Report
	prop  string
	sigs  map[uint64]bool
	dir   string
	start time.Time
	end   time.Time
}

// Engines register themselves here: name -> one scenario with the given seed.
var engines = map[string]func(w *Worker, name string, seed int64){}

func (w *Worker) add(name string, seed int64, counts map[string]int, sigs map[uint64]bool, viols []Violation, incon []string, log func() string) {
	w.rep.Scenarios++
	for k, v := range counts {
		w.rep.Counts[k] += v
	}
	for k := range sigs {
		w.sigs[k] = true
	}
	for _, x := range incon {
		w.rep.Inconclusive = append(w.rep.Inconclusive, fmt.Sprintf("%s seed %d: %s", name, seed, x))
	}
	dumped := ""
	for _, v := range viols {
		rv := ReportViolation{Violation: v, Seed: seed, Profile: name}
		mine := w.prop == ""
		for _, p := range v.Props {
			if p == w.prop {
				mine = true
			}
		}
		if dumped == "" && (mine || os.Getenv("VERIF_DUMP") != "") {
			dumped = filepath.Join(w.dir, fmt.Sprintf("%s-%d.log", strings.ReplaceAll(name, "/", "_"), seed))
			txt := fmt.Sprintf("profile %s seed %d\n", name, seed)
			for _, y := range viols {
				txt += fmt.Sprintf("VIOLATION %v %s: %s\n", y.Props, y.Kind, y.Detail)
			}
			os.WriteFile(dumped, []byte(txt+"\n"+log()), 0o644)
		}
		rv.Replay = dumped
		if len(rv.Detail) > 6000 {
			rv.Detail = rv.Detail[:6000] + "..."
		}
		if mine {
			w.rep.Violations = append(w.rep.Violations, rv)
		} else if len(w.rep.Other) < 20 {
			w.rep.Other = append(w.rep.Other, rv)
		}
	}
}

func TestVerif(t *testing.T) {
	if os.Getenv("VERIF_MODE") == "proxy" {
		proxyMain()
		return
	}
	quietLogs()
	name := os.Getenv("VERIF_ENGINE")
	if name == "" {
		t.Skip("no VERIF_ENGINE")
	}
	w := &Worker{rep: &Report{Engine: name, Counts: map[string]int{}}, prop: os.Getenv("VERIF_PROP"), sigs: map[uint64]bool{}, dir: os.Getenv("VERIF_OUTDIR"), start: time.Now()}
	if w.dir == "" {
		w.dir = os.TempDir()
	}
	budget := envInt("VERIF_BUDGET_S", 20)
	maxN := envInt("VERIF_MAX", 1<<30)
	base := int64(envInt("VERIF_SEED", 1))
	off, stride := int64(envInt("VERIF_WORKER", 0)), int64(envInt("VERIF_WORKERS", 1))
	w.end = w.start.Add(time.Duration(budget) * time.Second)
	names := strings.Split(name, ",")
	for i := 0; i < maxN && (i < envInt("VERIF_MIN", 1) || time.Now().Before(w.end)); i++ {
		seed := base*1000000 + off + int64(i)*stride
		if fixed := os.Getenv("VERIF_ONESEED"); fixed != "" {
			seed, _ = strconv.ParseInt(fixed, 10, 64)
			i = maxN
		}
		n := names[int(off+int64(i))%len(names)]
		if os.Getenv("VERIF_ONESEED") != "" {
			n = names[0]
		}
		f := engines[n]
		if f == nil {
			w.rep.Inconclusive = append(w.rep.Inconclusive, "engine "+n+" is not available")
			continue
		}
		f(w, n, seed)
		if len(w.rep.Violations) > 0 {
			break
		}
	}
	for k := range w.sigs {
		w.rep.Sigs = append(w.rep.Sigs, strconv.FormatUint(k, 16))
	}
	sort.Strings(w.rep.Sigs)
	w.rep.WallS = time.Since(w.start).Seconds()
	b, _ := json.Marshal(w.rep)
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(b))
	}
}

// runSim runs one simulation scenario.
func runSim(w *Worker, name string, seed int64, prof *Profile) {
	fastTimers()
	db := openDB()
	defer db.Close()
	wipeDB(db)
	s := NewSim(prof, seed, db, "")
	func() {
		defer func() {
			if r := recover(); r != nil {
				// a panic here is the harness's own (the proxy recovers or dies on its own goroutines)
				s.Inconclusive("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		defer s.Close()
		s.Run(time.Now().Add(120 * time.Second))
	}()
	if len(w.rep.Samples) < 3 {
		w.rep.Samples = append(w.rep.Samples, fmt.Sprintf("%s seed=%d: %s", name, seed, strings.Join(s.steps[:min(len(s.steps), 12)], "; ")))
	}
	w.add(name, seed, s.counts, s.sigs, s.viols, s.incon, s.dump)
}

func (s *Sim) dump() string {
	var b strings.Builder
	b.WriteString("== ground truth ==\n")
	for _, l := range s.hs.oplog {
		b.WriteString(l + "\n")
	}
	for _, c := range append(append([]*Client{}, s.clients...), s.extra...) {
		b.WriteString("== client " + c.Name + " user " + c.Dev.UserID + " ==\n")
		for _, l := range c.Log {
			if len(l) > 20000 {
				l = l[:20000]
			}
			b.WriteString(l + "\n")
		}
	}
	for _, c := range s.swarms {
		b.WriteString("== client " + c.name + " user " + c.d.UserID + " ==\n" + strings.Join(c.log, "\n") + "\n")
	}
	if os.Getenv("VERIF_PROXYLOG") != "" {
		b.WriteString("== proxy ==\n" + s.proxy.Output())
	}
	return b.String()
}
