package verifmon

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"slices"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

// C04: a continuous run keeps the swarm synchronized whatever happens to it.
func TestProp(t *testing.T) {
	m := Start(t, "C04", "continuous runs in virtual time with histories of 1 to 8 disruptions (random fraction of agents, all agents to one phase, opposite clusters, even spread, gradual drift, repeated blows), default, preset and custom recovery settings, swarms of 5 to 200 agents; an observer measures the coherence of the agents every 100 ms; non-trivial when a disruption pushed the coherence below what the settings accept and it came back; distinct by configuration and disruption")
	defer m.Finish()
	goals := []goal.Type{goal.DistributeLoad, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	m.Each("history", m.N(500), func(c *Case) {
		n := c.PickI(5, 9, 10, 19, 20, 50, 99, 101, 150)
		lim := swarm.GetCoherenceLimits(n)
		g := pickGoalState(c, n, 0.5, math.Min(0.95, lim.Recommended))
		var opts []swarm.Option
		rc := swarm.DefaultRecoveryConfig(g.Coherence)
		kind := c.Intn(3)
		if kind == 1 {
			// presets are made for goals up to this
			g.Coherence = math.Min(g.Coherence, 0.85)
			rc = swarm.DefaultRecoveryConfig(g.Coherence)
			opts = append(opts, swarm.WithGoalConfig(swarm.For(goals[c.Intn(len(goals))]).WithSize(n)))
		}
		if kind == 2 {
			rc = swarm.RecoveryConfig{
				MinimumViableCoherence: c.PickF(0.1, 0.3, 0.5), TargetMarginRatio: c.PickF(0.8, 0.9, 0.95, 0.98),
				SmallDropRatio: c.PickF(0.03, 0.1), LargeDropRatio: c.PickF(0.1, 0.3), StuckThreshold: c.PickI(1, 10, 30),
				CheckInterval: c.PickD(10*time.Millisecond, 50*time.Millisecond, 100*time.Millisecond, time.Second),
			}
			opts = append(opts, swarm.WithRecoveryConfig(rc))
		}
		accept := math.Max(g.Coherence*rc.TargetMarginRatio, rc.MinimumViableCoherence)
		virtual(t, func() {
			s, err := swarm.New(n, g, opts...)
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			c.arrange(s, g.Phase, c.Intn(len(arrangements)))
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error, 1)
			go func() { done <- s.RunContinuous(ctx) }()
			ended := false
			coh := func() float64 { return refCoherence(swarmPhases(s)) }
			// settle waits for an accepted coherence that holds
			settle := func(what string) bool {
				t0 := time.Now()
				held := 0
				for time.Since(t0) < 2*time.Minute {
					time.Sleep(100*time.Millisecond + 1)
					select {
					case err := <-done:
						c.Fail("continuous run ended", "%s: the run ended by itself with %v", what, err)
						ended = true
						return false
					default:
					}
					if coh() >= accept-1e-9 {
						held++
					} else {
						held = 0
					}
					if held >= 30 {
						rec := time.Since(t0) - 3*time.Second
						c.Max("max virtual ms to recover", int(rec/time.Millisecond))
						c.Cnt("recoveries", 1)
						if rec > 10*time.Second {
							c.Cnt("recoveries slower than 10 s", 1)
						}
						return c.Check(true, "", "")
					}
				}
				return c.Check(false, "no recovery", "%d agents, goal %+v, recovery settings %+v: 2 min of virtual time after %s the coherence is %v, %v is needed", n, g, rc, what, coh(), accept)
			}
			ok := settle("the start")
			for k := range c.Range(1, 8) {
				if !ok || ended {
					break
				}
				before := coh()
				ags := sortedAgents(s)
				how := c.Intn(8)
				what := ""
				switch how {
				case 0, 1:
					p := c.PickF(0.1, 0.25, 0.5, 0.9, 1)
					what = fmt.Sprintf("disrupting %v of the agents", p)
					s.DisruptAgents(p)
				case 2, 3, 4:
					a := []int{2, 3, 7}[how-2]
					what = arrangements[a]
					c.arrange(s, g.Phase, a)
				case 5:
					what = "a gradual drift"
					for range c.Range(5, 40) {
						for i, a := range ags {
							a.SetPhase(a.Phase() + 0.02*float64(i)/float64(n)*twoPi)
						}
						time.Sleep(c.PickD(10*time.Millisecond, 50*time.Millisecond))
					}
				case 6:
					what = "repeated blows"
					for range c.Range(3, 12) {
						s.DisruptAgents(0.5)
						time.Sleep(c.PickD(70*time.Millisecond, 300*time.Millisecond, 900*time.Millisecond))
					}
				case 7:
					// scrambled for longer than a synchronization may last: every
					// attempt gives up, the run must go on trying
					what = "a long outage"
					end := time.Now().Add(c.PickD(30*time.Second, 3*time.Minute))
					for time.Now().Before(end) {
						for i, a := range ags {
							a.SetPhase(twoPi * float64(i) / float64(n))
						}
						time.Sleep(9 * time.Millisecond)
					}
				}
				low := coh()
				ok = settle(what)
				if low < accept && ok {
					c.Key(n, g, kind, k, how, math.Float64bits(low))
					c.Cnt("recoveries from below the accepted coherence", 1)
				}
				c.Sample("%d agents, goal %.3f: %s brought %.3f to %.3f, then back to %.3f", n, g.Coherence, what, before, low, coh())
				// and what the swarm reports follows
				x := snapshotStates(s)
				time.Sleep(2500 * time.Millisecond)
				if ok && slices.Equal(x, snapshotStates(s)) {
					c.Cnt("idle observations", 1)
					c.Check(near(s.CurrentCoherence(), coh(), 1e-9), "stale coherence", "idle for a while with a coherence of %v, the swarm reports %v", coh(), s.CurrentCoherence())
					if math.Abs(coh()-g.Coherence) > 1e-9 {
						c.Check(s.IsConverged() == (coh() >= g.Coherence), "stale convergence", "coherence %v, goal %v, converged %v", coh(), g.Coherence, s.IsConverged())
					}
				}
			}
			if ended {
				return
			}
			cancel()
			t0 := time.Now()
			select {
			case err := <-done:
				c.Check(errors.Is(err, context.Canceled), "wrong error", "canceled, returned %v", err)
			case <-time.After(time.Minute):
				c.Fail("not canceled", "the continuous run still runs a minute after it was canceled")
				c.m.write(true)
				os.Exit(0)
			}
			c.Check(time.Since(t0) <= time.Second, "late after cancellation", "%v", time.Since(t0))
		})
	})

	// a swarm that is fine is left alone
	m.Each("idle", m.N(200), func(c *Case) {
		n := c.PickI(10, 20, 50, 120)
		g := pickGoalState(c, n, 0.5, 0.85)
		virtual(t, func() {
			s, err := swarm.New(n, g)
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			for _, a := range sortedAgents(s) {
				a.SetPhase(g.Phase)
				a.SetFrequency(g.Frequency)
			}
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			defer cancel()
			done := make(chan error, 1)
			go func() { done <- s.RunContinuous(ctx) }()
			time.Sleep(60*time.Second + 1)
			a := snapshotStates(s)
			time.Sleep(20 * time.Second)
			b := snapshotStates(s)
			for i := range a {
				if a[i] != b[i] {
					c.Fail("needless adjustment", "%d agents, goal %+v: agents that are synchronized were changed: %+v to %+v", n, g, a[i], b[i])
					break
				}
			}
			c.Check(refCoherence(swarmPhases(s)) >= g.Coherence, "synchronized swarm lost", "coherence %v", refCoherence(swarmPhases(s)))
			<-done
			c.Key("idle", n, g)
		})
	})

	// default settings are ordered by how demanding the goal is, and valid
	m.Each("settings", m.N(3000), func(c *Case) {
		a, b := c.Unit(), c.Unit()
		if a > b {
			a, b = b, a
		}
		x, y := swarm.DefaultRecoveryConfig(a), swarm.DefaultRecoveryConfig(b)
		for _, r := range []swarm.RecoveryConfig{x, y} {
			c.Check(r.CheckInterval > 0 && r.StuckThreshold > 0 && inUnit(r.MinimumViableCoherence) && r.TargetMarginRatio > 0 && r.TargetMarginRatio <= 1 && r.SmallDropRatio > 0 && r.SmallDropRatio < r.LargeDropRatio && r.LargeDropRatio < 1, "invalid settings", "%+v", r)
		}
		c.Check(x.MinimumViableCoherence <= y.MinimumViableCoherence && x.TargetMarginRatio <= y.TargetMarginRatio && x.SmallDropRatio >= y.SmallDropRatio && x.LargeDropRatio >= y.LargeDropRatio, "looser for a higher goal", "goal %v: %+v, goal %v: %+v", a, x, b, y)
		if a != b {
			c.Key(a, b)
		}
	})
}

func snapshotStates(s *swarm.Swarm) []core.State {
	var out []core.State
	for _, a := range sortedAgents(s) {
		out = append(out, core.State{Phase: a.Phase(), Frequency: a.Frequency(), Coherence: a.Energy()})
	}
	return out
}
