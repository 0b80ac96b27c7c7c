package verifmon

import (
	"context"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

var c40Goals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var c40Patterns = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse, pattern.Unset}

// arrivals of tasks at a workload that is never on the beat
type arrival struct {
	at   time.Duration
	size int
}

// how well a pattern suits a goal, best first, as documented
var suits = map[goal.Type][][]pattern.Type{
	goal.MinimizeAPICalls:   {{pattern.HighFrequency, pattern.Burst}, {pattern.Mixed}, {pattern.Steady}, {pattern.Sparse}},
	goal.DistributeLoad:     {{pattern.HighFrequency, pattern.Steady}, {pattern.Mixed}, {pattern.Burst}, {pattern.Sparse}},
	goal.ReachConsensus:     {{pattern.Steady}, {pattern.HighFrequency}, {pattern.Mixed}, {pattern.Burst, pattern.Sparse}},
	goal.MinimizeLatency:    {{pattern.HighFrequency}, {pattern.Steady}, {pattern.Mixed}, {pattern.Burst}, {pattern.Sparse}},
	goal.SaveEnergy:         {{pattern.Sparse}, {pattern.Burst}, {pattern.Steady}, {pattern.Mixed}, {pattern.HighFrequency}},
	goal.MaintainRhythm:     {{pattern.Steady}, {pattern.HighFrequency}, {pattern.Mixed}, {pattern.Burst}, {pattern.Sparse}},
	goal.RecoverFromFailure: {{pattern.Mixed}, {pattern.HighFrequency}, {pattern.Burst}, {pattern.Steady}, {pattern.Sparse}},
	goal.AdaptToTraffic:     {{pattern.Burst}, {pattern.Mixed}, {pattern.HighFrequency}, {pattern.Steady}, {pattern.Sparse}},
}

// C40: workloads make requests in their pattern, simulations pursue what they
// are asked for, and the advice about patterns is consistent.
func TestProp(t *testing.T) {
	m := Start(t, "C40", "workloads of every pattern and goal observed every 5 ms for minutes of virtual time (arrivals, gaps, sizes, activity shown); simulations of every goal, scale and target coherence observed for up to a minute; the advice for every goal, size and pattern; non-trivial when requests arrived or a simulation pursued its target; distinct by pattern, goal and what was observed")
	defer m.Finish()

	m.Each("requests", m.N(240), func(c *Case) {
		p := c40Patterns[c.I%len(c40Patterns)]
		g := c40Goals[c.Intn(8)]
		synctest.Test(t, func(*testing.T) {
			a := agent.New("w")
			a.SetPhase(3)
			w := simulation.NewWorkloadWithEmerge("w", c.Intn(20), a, nil, p, g)
			ctx, cancel := context.WithCancel(context.Background())
			defer func() { cancel(); time.Sleep(time.Minute) }()
			w.Start(ctx, simulation.NewBatchManager())
			span := time.Duration(c.Range(120, 300)) * time.Second
			if p == pattern.HighFrequency {
				span /= 6
			}
			start := time.Now()
			time.Sleep(2 * time.Millisecond)
			var arr []arrival
			held, activeOff, wrong := 0, 0, ""
			for time.Since(start) < span {
				s := w.Snapshot()
				now := time.Since(start)
				if s.PendingTasks > held {
					arr = append(arr, arrival{now, s.PendingTasks - held})
				} else if s.PendingTasks < held {
					c.Fail("tasks vanish", "%v: %d, then %d", p, held, s.PendingTasks)
					return
				}
				held = s.PendingTasks
				last := time.Duration(-time.Hour)
				if len(arr) > 0 {
					last = arr[len(arr)-1].at
				}
				want := "steady"
				switch p {
				case pattern.HighFrequency:
					want = "active"
				case pattern.Sparse:
					want = map[bool]string{true: "active", false: "quiet"}[held > 0]
				case pattern.Mixed:
					switch q := now - last; {
					case q < 195*time.Millisecond:
						want = "active"
					case q > 1010*time.Millisecond:
						want = "quiet"
					case q < 210*time.Millisecond || q > 995*time.Millisecond:
						want = s.ActivityLevel
					}
				case pattern.Burst:
					// within a burst requests keep coming; the end of one shows
					// at the next tick
					want = s.ActivityLevel
					if now-last < 95*time.Millisecond {
						want = "burst"
					} else if now-last > 105*time.Millisecond {
						want = "quiet"
					}
				}
				if s.ActivityLevel != want || s.InBurstMode != (s.ActivityLevel == "burst") {
					activeOff++
					wrong = fmt.Sprintf("%s (burst %v) instead of %s, %v after the last of %d requests", s.ActivityLevel, s.InBurstMode, want, now-last, held)
				}
				time.Sleep(5 * time.Millisecond)
			}
			c.Check(activeOff == 0, "activity shown", "%v: %s", p, wrong)
			c.Cnt("requests", held)
			rate := float64(held) / span.Seconds()
			lo, hi := 99, 0
			gmin, gmax := time.Hour, time.Duration(0)
			for i, x := range arr {
				lo, hi = min(lo, x.size), max(hi, x.size)
				if i > 0 {
					gap := x.at - arr[i-1].at
					gmin, gmax = min(gmin, gap), max(gmax, gap)
				}
			}
			what := fmt.Sprintf("%v for %v: %d requests (%.2f per second) in groups of %d to %d, gaps %v to %v", p, span, held, rate, lo, hi, gmin, gmax)
			if !c.Check(len(arr) > 0, "no requests", "%s", what) {
				return
			}
			const eps = 6 * time.Millisecond // the interval of observation
			switch p {
			case pattern.HighFrequency:
				c.Check(rate > 10, "rate", "%s", what)
				c.Check(lo == 2 && hi == 4, "group size", "%s", what)
				c.Check(gmax <= 100*time.Millisecond+eps && gmin >= 50*time.Millisecond-eps && gmax-gmin <= 2*eps, "gaps", "%s", what)
			case pattern.Steady, pattern.Unset:
				c.Check(lo == 1 && hi == 1 && gmin >= 500*time.Millisecond-eps && gmax <= 500*time.Millisecond+eps, "not steady", "%s", what)
				d := held - int(span/(500*time.Millisecond))
				c.Check(d >= -1 && d <= 1, "rate", "%s", what)
			case pattern.Sparse:
				c.Check(rate < 1 && lo == 1 && hi == 1 && gmin > time.Second, "not sparse", "%s", what)
				c.Check(len(arr) < 12 || gmax-gmin > time.Second, "regular", "%s", what)
			case pattern.Mixed:
				c.Check(rate > 0.8 && rate < 5, "rate", "%s", what)
				c.Check(lo == 1 && hi >= 2 && hi <= 3 && gmin >= 200*time.Millisecond-eps && gmax-gmin > 200*time.Millisecond, "not mixed", "%s", what)
			case pattern.Burst:
				c.Check(lo >= 3 && hi <= 7 && hi > 4, "group size", "%s", what)
				bursts, begin := 0, arr[0].at
				quiet := begin
				for i := 1; i <= len(arr); i++ {
					if i < len(arr) && arr[i].at-arr[i-1].at <= 105*time.Millisecond {
						continue
					}
					bursts++
					d := arr[i-1].at - begin
					if i < len(arr) {
						c.Check(d >= 400*time.Millisecond-eps && d <= 2100*time.Millisecond, "burst length", "%s: a burst of %v", what, d)
						begin = arr[i].at
						quiet += begin - arr[i-1].at
					}
				}
				c.Check(bursts >= 5 && gmax >= 300*time.Millisecond, "no bursts", "%s: %d bursts", what, bursts)
				c.Check(quiet > span/10 && quiet < span*2/3, "no quiet periods", "%s: quiet for %v", what, quiet)
				c.Cnt("bursts", bursts)
			}
			c.Key(p, g, held)
			c.Sample("%s", what)
		})
	})

	m.Each("pursuit", m.N(120), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := c40Goals[c.I%8]
			sc := []scale.Size{scale.Tiny, scale.Small, scale.Medium}[c.Intn(3)]
			tc := c.PickF(0.2, 0.2, 0.6, 0.75, sc.DefaultTargetCoherence())
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: c40Patterns[c.Intn(6)], TargetCoherence: tc})
			if !c.Check(err == nil, "construction", "%v", err) {
				return
			}
			n := sc.DefaultAgentCount()
			ctx, cancel := context.WithCancel(context.Background())
			defer func() { cancel(); time.Sleep(time.Minute) }()
			go func() { _ = sim.Start(ctx) }()
			time.Sleep(30 * time.Second)
			s := sim.Snapshot()
			if tc >= 0.5 {
				for k := 0; k < 12 && s.Coherence < tc-0.1; k++ {
					time.Sleep(5 * time.Second)
					s = sim.Snapshot()
				}
				c.Check(s.Coherence >= tc-0.1, "target not pursued", "%v, %d agents: coherence %v for %v", g, n, s.Coherence, tc)
			} else {
				for k := 0; k < 12 && s.Coherence > 0.75; k++ {
					time.Sleep(5 * time.Second)
					s = sim.Snapshot()
				}
				c.Check(s.Coherence <= 0.75, "target not pursued", "%v, %d agents: coherence %v for %v", g, n, s.Coherence, tc)
			}
			c.Check(s.TargetCoherence == tc && len(s.Agents) == n, "simulation", "target %v of %v, %d agents of %d", s.TargetCoherence, tc, len(s.Agents), n)
			// the kinds of workloads of the goal, evenly
			kinds, icons, ids := map[string]int{}, map[string]string{}, map[string]bool{}
			for _, a := range s.Agents {
				kinds[a.Type]++
				ids[a.ID] = true
				ic, seen := icons[a.Type]
				c.Check(a.Type != "" && a.Icon != "" && (!seen || ic == a.Icon), "kind of workload", "%+v", a)
				icons[a.Type] = a.Icon
			}
			lo, hi := n, 0
			for _, k := range kinds {
				lo, hi = min(lo, k), max(hi, k)
			}
			c.Check(len(ids) == n && len(kinds) == 8 && hi-lo <= 1, "kinds of workloads", "%v: %d workloads with %d names: %v", g, n, len(ids), kinds)
			c.Key("pursuit", g, n, tc)
			c.Cnt("simulations", 1)
			c.Sample("%v, %d agents, target %.2f: %.3f", g, n, tc, s.Coherence)
		})
	})

	m.Each("advice", m.N(4000), func(c *Case) {
		g := c40Goals[c.I%8]
		n := c.PickI(1, 2, 20, 49, 50, 51, 200, 999, 1000, 1001, 2000, c.Range(1, 3000))
		rank := map[string]int{"poor": 0, "fair": 1, "good": 2, "excellent": 3, "optimal": 4}
		all := append(append([]pattern.Type{}, c40Patterns...), pattern.Type(c.Range(-3, 40)))
		for _, p := range all {
			x := pattern.GetCoherenceModifier(int(g), n, p)
			q := pattern.GetQualifier(int(g), n, p)
			r, known := rank[q]
			c.Check(x >= 0.5 && x <= 1.5, "modifier range", "%v, %d, %v: %v", g, n, p, x)
			c.Check(known, "qualifier", "%q", q)
			c.Check(pattern.IsRecommended(int(g), n, p) == (r >= 3), "recommendation", "%v, %d, %v: recommended %v but %s", g, n, p, pattern.IsRecommended(int(g), n, p), q)
			n2, p2 := c.Range(51, 999), all[c.Intn(len(all))]
			x2 := pattern.GetCoherenceModifier(int(g), n2, p2)
			if r2 := rank[pattern.GetQualifier(int(g), n2, p2)]; x2 <= x {
				c.Check(r2 <= r, "qualifiers not in order", "%v: %v at %d is %v (%s), %v at %d is %v (%s)", g, p, n, x, q, p2, n2, x2, pattern.GetQualifier(int(g), n2, p2))
			}
			// size: many agents make high frequency harder, few make sparse poorer
			x3 := pattern.GetCoherenceModifier(int(g), n2, p)
			switch {
			case p == pattern.HighFrequency && n >= 1000 || p == pattern.Sparse && n <= 50:
				c.Check(x < x3, "size", "%v, %v: %v at %d, %v at %d", g, p, x, n, x3, n2)
			default:
				c.Check(x == x3, "size", "%v, %v: %v at %d, %v at %d", g, p, x, n, x3, n2)
			}
		}
		mid := c.Range(51, 999)
		best := pattern.BestPatternForGoal(int(g))
		first := false
		for k, class := range suits[g] {
			for _, p := range class {
				x := pattern.GetCoherenceModifier(int(g), mid, p)
				q := pattern.GetQualifier(int(g), mid, p)
				if k == 0 {
					c.Check(q == "optimal", "best pattern", "%v: %v is %s", g, p, q)
					first = first || p == best
				} else {
					for _, o := range suits[g][k-1] {
						y := pattern.GetCoherenceModifier(int(g), mid, o)
						c.Check(y > x, "order of patterns", "%v: %v is %v, %v is %v", g, o, y, p, x)
					}
				}
				if k == len(suits[g])-1 {
					c.Check(q == "poor", "worst pattern", "%v: %v is %s", g, p, q)
				}
			}
		}
		c.Check(first, "best pattern", "%v: %v", g, best)
		c.Key("advice", g, n)
	})

	m.Each("names", 1, func(c *Case) {
		keys, names := map[string]bool{}, map[string]bool{}
		for _, p := range c40Patterns {
			c.Check(p.Description() != "" && !names[p.String()] && p.String() != "Unknown", "pattern name", "%q %q", p.String(), p.Description())
			names[p.String()] = true
			k := p.ShortKey()
			c.Check((p == pattern.Unset) == (k == "") && !keys[k], "pattern key", "%v: %q", p, k)
			keys[k] = true
		}
		c.Check(pattern.Type(99).String() == "Unknown" && pattern.Type(-1).ShortKey() == "", "unknown pattern", "%v", pattern.Type(99))
		c.Key("names")
	})
}
