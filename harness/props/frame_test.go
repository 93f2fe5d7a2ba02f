package props

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
)

// A lane is one generator with its oracle; a property may have several.
type lane struct {
	id, name string
	quick    int // cases in the quick tier (over all shards)
	thorough int // cases in the thorough tier
	rule     string
	gen      func(*rapid.T) any
	run      func(*Env, any)
	decode   func([]byte) (any, error)
}

var lanes []*lane

// reg registers a lane. Every random choice is in the case: run is a function of it alone
// (up to goroutine scheduling).
func reg[T any](id, name string, quick, thorough int, rule string, gen func(*rapid.T) T, run func(*Env, T)) {
	lanes = append(lanes, &lane{
		id: id, name: name, quick: quick, thorough: thorough, rule: rule,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(e *Env, c any) { run(e, c.(T)) },
		decode: func(b []byte) (any, error) {
			var c T
			err := json.Unmarshal(b, &c)
			return c, err
		},
	})
}

// Viol is a violation found by an oracle.
type Viol struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Env is what a lane's run function gets.
type Env struct {
	T  *testing.T
	mu sync.Mutex

	viol   *Viol
	labels map[string]bool
	nt     bool
}

// Fail records a violation (the first one counts). Kind must not depend on the case.
func (e *Env) Fail(kind, format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.viol == nil {
		d := fmt.Sprintf(format, a...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		e.viol = &Viol{kind, d}
	}
}

func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.viol != nil
}

// Label counts a kind of case.
func (e *Env) Label(l string) {
	e.mu.Lock()
	e.labels[l] = true
	e.mu.Unlock()
}

// NonTrivial marks the case as exercising the property, by the lane's stated rule.
func (e *Env) NonTrivial() {
	e.mu.Lock()
	e.nt = true
	e.mu.Unlock()
}

type caseFile struct {
	Property string          `json:"property"`
	Lane     string          `json:"lane"`
	Kind     string          `json:"kind,omitempty"`
	Detail   string          `json:"detail,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type laneStat struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
}

type result struct {
	Property    string               `json:"property"`
	Evaluations int                  `json:"evaluations"`
	Hashes      []string             `json:"hashes"`
	Lanes       map[string]*laneStat `json:"lanes"`
	Samples     []caseFile           `json:"samples"`
	Regress     int                  `json:"regress"`
	Shrinks     int                  `json:"shrink_executions"`
	Violation   *caseFile            `json:"violation"`
	Error       string               `json:"error,omitempty"`
	Complete    bool                 `json:"complete"`
	TimedOut    bool                 `json:"stopped_at_time_limit"`
}

type runner struct {
	id     string
	outDir string
	res    *result
	seen   map[string]bool
	best   *caseFile
	bestN  int
	last   *os.File
}

var (
	caseStart  atomic.Int64 // wall ns, 0: none running
	caseSerial atomic.Int64
	crashKind  atomic.Value
)

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var tcpxFrame = regexp.MustCompile(`github\.com/fwhezfwhez/tcpx\.`)

// stacks returns the goroutines that have a tcpx frame, by id, with their state.
func stacks() map[string][2]string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string][2]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !tcpxFrame.MatchString(g) {
			continue
		}
		nl := strings.IndexByte(g, '\n')
		if nl < 0 {
			continue
		}
		head := g[:nl]
		a, b := strings.IndexByte(head, '['), strings.IndexByte(head, ']')
		if a < 0 || b < a {
			continue
		}
		out[head[:a]] = [2]string{head[a+1 : b], g}
	}
	return out
}

const hangAfter = 15 * time.Second

// watchdog turns a case that does not come to rest into a verdict: a goroutine of
// tcpx that stays blocked on a lock, or that burns CPU without end, is a violation;
// anything else is an error of the check.
func (r *runner) watchdog() {
	var serial int64
	var cpu0 time.Duration
	var t0 time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		s := caseSerial.Load()
		if caseStart.Load() == 0 {
			serial = 0
			continue
		}
		if s != serial {
			serial, cpu0, t0 = s, cpuNow(), time.Now()
			continue
		}
		if time.Since(t0) < hangAfter {
			continue
		}
		d1 := stacks()
		c1 := cpuNow()
		time.Sleep(2 * time.Second)
		d2 := stacks()
		if caseSerial.Load() != serial || caseStart.Load() == 0 {
			continue
		}
		isLock := func(st string) bool {
			return strings.Contains(st, "Mutex") || strings.Contains(st, "semacquire") || strings.HasPrefix(st, "sync.")
		}
		isRun := func(st string) bool {
			return strings.HasPrefix(st, "running") || strings.HasPrefix(st, "runnable") || strings.HasPrefix(st, "syscall")
		}
		// a channel that no case made (one of the package): the time of the case stands
		// still as long as a goroutine waits for it, and everybody else is at rest
		isChan := func(st, g string) bool {
			if !strings.Contains(st, "synctest bubble") || strings.Contains(st, "durable") {
				return false
			}
			if !strings.HasPrefix(st, "chan ") && !strings.HasPrefix(st, "select") {
				return false
			}
			l := strings.SplitN(g, "\n", 3)
			return len(l) > 1 && tcpxFrame.MatchString("\n"+l[1])
		}
		var locked, running, chanWait string
		for g, a := range d1 {
			b, ok := d2[g]
			if !ok {
				continue
			}
			if isLock(a[0]) && isLock(b[0]) && !strings.Contains(a[0], "Cond") && !strings.Contains(a[0], "WaitGroup") {
				locked = b[1]
			}
			if isChan(a[0], a[1]) && isChan(b[0], b[1]) {
				chanWait = b[1]
			}
			if isRun(a[0]) && isRun(b[0]) {
				running = b[1]
			}
		}
		if locked != "" {
			r.die("stuck", "a goroutine of the library stays blocked on a lock:\n"+locked)
		}
		if chanWait != "" && running == "" {
			r.die("stuck", "a goroutine of the library stays blocked on a channel:\n"+chanWait)
		}
		if running != "" && cpuNow()-cpu0 > 10*time.Second && cpuNow()-c1 > time.Second/2 {
			r.die("spinning", "a goroutine of the library runs without end:\n"+running)
		}
		if time.Since(t0) > 3*time.Minute {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(filepath.Join(r.outDir, "hang.txt"), buf, 0o644)
			r.res.Error = "a case did not come to rest, with no goroutine of the library stuck on a lock or spinning"
			r.write()
			os.Exit(4)
		}
	}
}

func (r *runner) die(kind, detail string) {
	b, _ := os.ReadFile(filepath.Join(r.outDir, "last.json"))
	var cf caseFile
	json.Unmarshal(b, &cf)
	if len(detail) > 6000 {
		detail = detail[:6000]
	}
	cf.Kind, cf.Detail = kind, detail
	r.res.Violation = &cf
	r.write()
	os.Exit(3)
}

func (r *runner) write() {
	b, err := json.Marshal(r.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	tmp := filepath.Join(r.outDir, "result.json.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	os.Rename(tmp, filepath.Join(r.outDir, "result.json"))
}

// exec runs one case; the case is on disk before it starts, so that a crash of the
// process can be attributed to it.
func (r *runner) exec(t *testing.T, l *lane, c any, count bool) *Viol {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("harness: case not serialisable: %v", err))
	}
	// run what a replay would run
	c, err = l.decode(raw)
	if err != nil {
		panic(fmt.Sprintf("harness: case not decodable: %v", err))
	}
	cf := caseFile{Property: r.id, Lane: l.name, Case: raw}
	b, _ := json.Marshal(cf)
	r.last.Truncate(0)
	r.last.WriteAt(b, 0)

	env := &Env{T: t, labels: map[string]bool{}}
	caseSerial.Add(1)
	caseStart.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if m, ok := p.(string); ok && strings.HasPrefix(m, "harness:") {
					r.res.Error = m
					r.write()
					os.Exit(5)
				}
				env.Fail("panic", "panic in a call of the library: %v\n%s", p, st)
			}
		}()
		l.run(env, c)
	}()
	caseStart.Store(0)

	if count {
		st := r.res.Lanes[l.name]
		st.Evaluations++
		r.res.Evaluations++
		ls := make([]string, 0, len(env.labels))
		for k := range env.labels {
			ls = append(ls, k)
		}
		sort.Strings(ls)
		for _, k := range ls {
			st.Labels[k]++
		}
		if env.nt {
			st.NonTrivial++
			h := sha256.Sum256([]byte(l.name + "\x00" + string(raw)))
			k := hex.EncodeToString(h[:10])
			if !r.seen[k] {
				r.seen[k] = true
				r.res.Hashes = append(r.res.Hashes, k)
				n := 0
				for _, s := range r.res.Samples {
					if s.Lane == l.name {
						n++
					}
				}
				if n < 2 && len(raw) < 3000 && (len(raw) > 40 || r.res.Evaluations > 20) {
					r.res.Samples = append(r.res.Samples, cf)
				}
			}
		}
	} else {
		r.res.Shrinks++
	}
	if env.viol != nil {
		cf.Kind, cf.Detail = env.viol.Kind, env.viol.Detail
		if r.best == nil || len(raw) <= r.bestN {
			r.best, r.bestN = &cf, len(raw)
		}
	}
	return env.viol
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func quiet() {
	tcpx.SetLogMode(tcpx.RELEASE)
	log.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOUD") == "" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
}

// failTB keeps rapid's output and outcome away from the test result.
type failTB struct {
	rapid.TB
	name   string
	failed bool
	log    strings.Builder
}

type stopCheck struct{}

func (f *failTB) Helper()                   {}
func (f *failTB) Name() string              { return f.name }
func (f *failTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *failTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *failTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *failTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *failTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(stopCheck{}) }
func (f *failTB) Fatal(a ...any)            { f.Error(a...); panic(stopCheck{}) }
func (f *failTB) FailNow()                  { f.failed = true; panic(stopCheck{}) }
func (f *failTB) Fail()                     { f.failed = true }
func (f *failTB) Failed() bool              { return f.failed }
func (f *failTB) Skipf(s string, a ...any)  { panic(stopCheck{}) }
func (f *failTB) Skip(a ...any)             { panic(stopCheck{}) }
func (f *failTB) SkipNow()                  { panic(stopCheck{}) }

// TestProperty is the entry point of the check process; see /verif/check.py.
func TestProperty(t *testing.T) {
	id := os.Getenv("VERIF_PROPERTY")
	if id == "" {
		t.Skip("run through /verif/check.py")
	}
	outDir := os.Getenv("VERIF_OUT")
	tier := os.Getenv("VERIF_TIER")
	seed := uint64(envInt("VERIF_SEED", 1))
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	limit := time.Duration(envInt("VERIF_LIMIT_S", 300)) * time.Second
	only := os.Getenv("VERIF_LANE")
	quiet()
	debug.SetGCPercent(200)

	r := &runner{id: id, outDir: outDir, seen: map[string]bool{},
		res: &result{Property: id, Lanes: map[string]*laneStat{}}}
	var err error
	if r.last, err = os.Create(filepath.Join(outDir, "last.json")); err != nil {
		t.Fatal(err)
	}
	byName := map[string]*lane{}
	var mine []*lane
	for _, l := range lanes {
		if l.id == id && (only == "" || l.name == only) {
			mine = append(mine, l)
			byName[l.name] = l
			r.res.Lanes[l.name] = &laneStat{Rule: l.rule, Labels: map[string]int{}}
		}
	}
	if len(mine) == 0 {
		r.res.Error = "no such property"
		r.write()
		os.Exit(5)
	}
	go r.watchdog()

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var cf caseFile
		if err := json.Unmarshal(b, &cf); err != nil {
			t.Fatal(err)
		}
		l := byName[cf.Lane]
		if l == nil {
			r.res.Error = "no such lane: " + cf.Lane
			r.write()
			os.Exit(5)
		}
		c, err := l.decode(cf.Case)
		if err != nil {
			r.res.Error = err.Error()
			r.write()
			os.Exit(5)
		}
		n := envInt("VERIF_REPEAT", 10)
		for i := 0; i < n; i++ {
			if v := r.exec(t, l, c, true); v != nil {
				break
			}
		}
		r.finish()
		return
	}

	start := time.Now()
	// past failures first
	if dir := os.Getenv("VERIF_REGRESS"); dir != "" && shard == 0 {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(fs)
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			var cf caseFile
			if json.Unmarshal(b, &cf) != nil || byName[cf.Lane] == nil {
				continue
			}
			l := byName[cf.Lane]
			c, err := l.decode(cf.Case)
			if err != nil {
				continue
			}
			r.res.Regress++
			for i := 0; i < 3; i++ {
				if r.exec(t, l, c, true) != nil {
					r.finish()
					return
				}
			}
		}
	}

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	// rounds: every lane gets its share early, so that a time limit starves none
	const rounds = 8
	for round := 0; round < rounds; round++ {
		for li, l := range mine {
			total := l.quick
			if tier == "thorough" {
				total = l.thorough
			}
			if f := envInt("VERIF_SCALE_PCT", 100); f != 100 {
				total = total * f / 100
			}
			per := (total + shards - 1) / shards
			lo, hi := per*round/rounds, per*(round+1)/rounds
			if hi <= lo {
				continue
			}
			s := splitmix(seed*1000003 + uint64(shard)*7919 + uint64(round)*104729 + uint64(li)*15485863)
			flag.Set("rapid.seed", strconv.FormatUint(s|1, 10))
			flag.Set("rapid.checks", strconv.Itoa(hi-lo))
			tb := &failTB{name: l.name}
			failing := false
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(stopCheck); !ok {
							panic(p)
						}
					}
				}()
				rapid.Check(tb, func(rt *rapid.T) {
					if time.Since(start) > limit && !failing {
						r.res.TimedOut = true
						return
					}
					c := l.gen(rt)
					v := r.exec(t, l, c, !failing)
					if v != nil {
						failing = true
						rt.Fatalf("%s", v.Kind)
					}
				})
			}()
			if r.best != nil {
				r.finish()
				return
			}
			if tb.failed {
				r.res.Error = "generator: " + tb.log.String()
				r.write()
				os.Exit(5)
			}
		}
	}
	r.finish()
}

func (r *runner) finish() {
	r.res.Violation = r.best
	r.res.Complete = true
	r.write()
	os.Exit(0)
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
