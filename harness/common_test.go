// Package verifmon is the monitoring harness: it drives the real code of
// /repo under generated workloads and observes it from outside (exported API
// only). It is compiled into /repo by a build overlay; see DESIGN.md.
package verifmon

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// ---------------------------------------------------------------- result --

type violation struct {
	Sig    string `json:"sig"`    // stable class of the violation
	Detail string `json:"detail"` // the witness
	Batch  string `json:"batch"`
	Case   int    `json:"case"`
}

type result struct {
	Property    string           `json:"property"`
	Evaluations int64            `json:"evaluations"`
	Keys        []string         `json:"keys"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Rule        string           `json:"rule"`
	Violations  []violation      `json:"violations"`
	Done        bool             `json:"done"`
}

// Mon collects what one shard of a check observed.
type Mon struct {
	t        *testing.T
	id       string
	mu       sync.Mutex
	res      result
	keys     map[uint64]struct{}
	seed     int64
	shard    int
	shards   int
	scale    float64
	only     string
	onlyCase int
	perSig   map[string]int
	failures int
	start    time.Time
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Start opens the monitor of a property. rule says how cases are made and
// what makes one non-trivial.
func Start(t *testing.T, id, rule string) *Mon {
	m := &Mon{
		t: t, id: id, seed: int64(envInt("VERIF_SEED", 1)),
		shard: envInt("VERIF_SHARD", 0), shards: envInt("VERIF_SHARDS", 1),
		scale: 1, keys: map[uint64]struct{}{}, perSig: map[string]int{}, onlyCase: -1,
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
		m.scale = v
	}
	if v := os.Getenv("VERIF_ONLY"); v != "" {
		parts := strings.SplitN(v, ":", 2)
		m.only = parts[0]
		if len(parts) == 2 {
			m.onlyCase, _ = strconv.Atoi(parts[1])
		}
	}
	m.res = result{Property: id, Rule: rule, Counters: map[string]int64{}}
	SeedRandom(m.seed*1000003 + int64(m.shard))
	m.start = time.Now()
	return m
}

// Finish writes the shard's result file.
func (m *Mon) Finish() {
	m.write(true)
}

func (m *Mon) write(done bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.res.Done = done
	m.res.Keys = m.res.Keys[:0]
	for k := range m.keys {
		m.res.Keys = append(m.res.Keys, strconv.FormatUint(k, 36))
	}
	sort.Strings(m.res.Keys)
	b, err := json.Marshal(m.res)
	if err != nil {
		m.t.Fatal(err)
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out+".new", b, 0o600); err != nil {
			m.t.Fatal(err)
		}
		if err := os.Rename(out+".new", out); err != nil {
			m.t.Fatal(err)
		}
	} else {
		m.res.Keys = nil
		b, _ := json.MarshalIndent(m.res, "", " ")
		fmt.Println(string(b))
		fmt.Println("distinct", len(m.keys))
	}
}

// N scales a number of cases with the tier.
func (m *Mon) N(base int) int {
	n := int(math.Round(float64(base) * m.scale))
	if n < 1 {
		n = 1
	}
	return n
}

// Case is one generated case: its own PRNG, its place in the run.
type Case struct {
	*rand.Rand
	m     *Mon
	batch string
	I     int
}

func mix(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() >> 1)
}

// Each runs n cases of a batch, split over the shards. Every case draws from
// a PRNG determined by seed, property, batch and index. A panic in a case is a
// violation (code under test must not panic on the inputs we give it).
func (m *Mon) Each(batch string, n int, fn func(c *Case)) {
	if m.only != "" && m.only != batch {
		return
	}
	for i := 0; i < n; i++ {
		if m.onlyCase >= 0 && i != m.onlyCase {
			continue
		}
		// a tree this broken needs no further cases (none is listed as known)
		m.mu.Lock()
		bad := m.failures
		m.mu.Unlock()
		if bad >= 40 || bad > 0 && m.scale <= 1 && time.Since(m.start) > 150*time.Second {
			return
		}
		if m.onlyCase < 0 && m.shards > 1 && int(uint64(mix(batch, i))%uint64(m.shards)) != m.shard {
			continue
		}
		s := mix(m.seed, "/", m.id, "/", batch, "/", i)
		c := &Case{Rand: rand.New(rand.NewSource(s)), m: m, batch: batch, I: i}
		SeedRandom(s)
		m.mu.Lock()
		m.res.Evaluations++
		m.mu.Unlock()
		c.Guard("case", func() { fn(c) })
		// what was found is kept even if a later case does not end
		m.mu.Lock()
		found := m.failures > bad
		m.mu.Unlock()
		if found && os.Getenv("VERIF_OUT") != "" {
			m.write(false)
		}
	}
}

// Key records that this case is non-trivial, under a key that makes it
// distinct from the others.
func (c *Case) Key(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.batch, "|")
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	c.m.mu.Lock()
	c.m.keys[h.Sum64()] = struct{}{}
	c.m.mu.Unlock()
}

// Cnt counts observed events.
func (c *Case) Cnt(name string, n int) {
	c.m.mu.Lock()
	c.m.res.Counters[name] += int64(n)
	c.m.mu.Unlock()
}

// Max keeps the largest observed value.
func (c *Case) Max(name string, n int) {
	c.m.mu.Lock()
	if v := c.m.res.Counters[name]; int64(n) > v {
		c.m.res.Counters[name] = int64(n)
	}
	c.m.mu.Unlock()
}

// Sample keeps a few cases written out.
func (c *Case) Sample(format string, args ...any) {
	c.m.mu.Lock()
	if len(c.m.res.Samples) < 3 {
		c.m.res.Samples = append(c.m.res.Samples, c.batch+": "+fmt.Sprintf(format, args...))
	}
	c.m.mu.Unlock()
}

// Fail records a violation.
func (c *Case) Fail(sig, format string, args ...any) {
	c.m.mu.Lock()
	c.m.perSig[sig]++
	c.m.failures++
	if c.m.perSig[sig] <= 3 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 4000 {
			d = d[:4000]
		}
		c.m.res.Violations = append(c.m.res.Violations, violation{Sig: sig, Detail: d, Batch: c.batch, Case: c.I})
	}
	c.m.mu.Unlock()
}

// Check records a violation unless ok.
func (c *Case) Check(ok bool, sig, format string, args ...any) bool {
	c.m.mu.Lock()
	c.m.res.Counters["oracle evaluations"]++
	c.m.mu.Unlock()
	if !ok {
		c.Fail(sig, format, args...)
	}
	return ok
}

// Guard turns a panic into a violation.
func (c *Case) Guard(what string, fn func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, "testing.(*T).FailNow") || fmt.Sprint(r) == "harness" {
				panic(r)
			}
			panicked = true
			if len(st) > 3000 {
				st = st[:3000]
			}
			c.Fail("panic in "+what, "panic: %v\n%s", r, st)
		}
	}()
	fn()
	return false
}

// Within runs fn and reports a hang if it has not returned after a wall-clock
// watchdog that is orders of magnitude beyond its cost. The dump of the
// goroutines is the witness; the shard ends there, because the stuck
// goroutine may hold locks or a CPU.
func (c *Case) Within(d time.Duration, what string, fn func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard(what, fn)
	}()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
	case <-tm.C:
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.Fail("hang in "+what, "%s did not return within %v of real time\n%s", what, d, buf)
		c.m.write(true)
		os.Exit(0)
	}
}

// ---------------------------------------------------------------- random --

type seededReader struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (s *seededReader) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Read(p)
}

var seeded = &seededReader{r: rand.New(rand.NewSource(1))}

// SeedRandom makes the code's randomness reproducible.
func SeedRandom(seed int64) {
	seeded.mu.Lock()
	seeded.r = rand.New(rand.NewSource(seed))
	seeded.mu.Unlock()
}

func init() {
	crand.Reader = seeded
}

// ------------------------------------------------------------ generators --

const twoPi = 2 * math.Pi

var specialPhases = []float64{
	0, math.Copysign(0, -1), math.Pi, -math.Pi, twoPi, -twoPi, math.Pi / 2, 3 * math.Pi / 2, -math.Pi / 2,
	4 * math.Pi, 7 * math.Pi, -7 * math.Pi, 1e-300, -1e-300, 5e-324, -5e-324, 1e-17, -1e-17, 1e-12, -1e-12,
	math.Nextafter(twoPi, 0), math.Nextafter(twoPi, 10), math.Nextafter(math.Pi, 0), math.Nextafter(math.Pi, 10),
	math.Nextafter(0, -1), 100, -100, 1e6, -1e6, 1e9, 1e15, -1e15, 1e18,
}

// Phase draws a phase: special values, the circle, several turns, or huge.
func (c *Case) Phase() float64 {
	switch c.Intn(10) {
	case 0, 1:
		return specialPhases[c.Intn(len(specialPhases))]
	case 2, 3:
		return (c.Float64() - 0.5) * 200
	case 4:
		return float64(c.Intn(33)-16) * math.Pi / 4
	case 5:
		return (c.Float64()*2 - 1) * math.Pow(10, float64(c.Intn(12)))
	default:
		return c.Float64() * twoPi
	}
}

// Circle draws a phase in [0, 2π).
func (c *Case) Circle() float64 {
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(c.Intn(8)) * math.Pi / 4
	case 2:
		return math.Nextafter(twoPi, 0)
	default:
		return c.Float64() * twoPi
	}
}

// Unit draws from [0,1] with edge values.
func (c *Case) Unit() float64 {
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return float64(c.Intn(11)) / 10
	default:
		return c.Float64()
	}
}

// Range draws an int in [lo,hi].
func (c *Case) Range(lo, hi int) int { return lo + c.Intn(hi-lo+1) }

// PickF picks one of the values.
func (c *Case) PickF(v ...float64) float64 { return v[c.Intn(len(v))] }

// PickI picks one of the values.
func (c *Case) PickI(v ...int) int { return v[c.Intn(len(v))] }

// PickD picks one of the values.
func (c *Case) PickD(v ...time.Duration) time.Duration { return v[c.Intn(len(v))] }

// ------------------------------------------------------------ references --

func angDist(a, b float64) float64 {
	d := math.Abs(math.Remainder(a-b, twoPi))
	if d > math.Pi {
		d = twoPi - d
	}
	return d
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func inUnit(x float64) bool { return x >= 0 && x <= 1 }

func refCoherence(ph []float64) float64 {
	if len(ph) == 0 {
		return 0
	}
	var s, k float64
	for _, p := range ph {
		s += math.Sin(p)
		k += math.Cos(p)
	}
	return math.Hypot(s, k) / float64(len(ph))
}

func repoStacks(dump string) []string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "carlisia/bio-adapt/") && !strings.Contains(g, "verifmon.TestProp(") {
			out = append(out, g)
		}
	}
	return out
}

func allStacks() string {
	buf := make([]byte, 1<<21)
	return string(buf[:runtime.Stack(buf, true)])
}

var _ = filepath.Join

// hasHarness tells whether a goroutine's stack passes through the harness.
func hasHarness(g string) bool {
	for _, line := range strings.Split(g, "\n") {
		if strings.HasPrefix(line, "created by ") {
			continue
		}
		if strings.Contains(line, "/verifmon.") || strings.Contains(line, "zz_verif_") {
			return true
		}
	}
	return false
}

// exitNow ends the shard at once: a leaked goroutine of a bubble would keep it
// from ever ending. The results have been written.
func exitNow() { os.Exit(0) }

// checkLeft: no goroutine of the code under test is left; leaked ones would
// keep the bubble from ending, so the shard ends here.
func checkLeft(c *Case, hist string) {
	k, w := 0, ""
	for _, s := range repoStacks(allStacks()) {
		if !hasHarness(s) {
			k++
			w = s
		}
	}
	if !c.Check(k == 0, "goroutine left", "%s: %d goroutines still run:\n%s", hist, k, w) {
		c.m.write(true)
		exitNow()
	}
}
