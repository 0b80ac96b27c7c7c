package verifmon

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
)

// obs is what the observer saw of one run.
type obs struct {
	err        error
	took       time.Duration
	samples    int
	convergedT time.Duration // since the monitor's start; -1 when not converged at the last sample
	last       float64
}

// watch runs the swarm and, around every update instant, compares what the
// swarm reports with the phases of its agents.
func (c *Case) watch(s *swarm.Swarm, interval time.Duration, goalCoh float64, limit time.Duration, born time.Time, meddle func(k int)) obs {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	done := make(chan error, 1)
	start := time.Now()
	go func() { done <- s.Run(ctx) }()
	o := obs{convergedT: -1}
	for k := 1; ; k++ {
		// just before the update
		time.Sleep(time.Until(start.Add(time.Duration(k)*interval - 2)))
		if meddle != nil {
			meddle(k)
		}
		before := refCoherence(swarmPhases(s))
		time.Sleep(4)
		ended := false
		select {
		case o.err = <-done:
			o.took = time.Since(start) - 2
			ended = true
		default:
		}
		if ended && o.err != nil && context.Cause(ctx) != nil {
			return o
		}
		o.samples++
		cur := s.CurrentCoherence()
		c.Check(near(cur, before, 1e-9), "recorded coherence", "update %d: the swarm reports a coherence of %v, its agents measured %v", k, cur, before)
		o.last = cur
		conv := s.IsConverged()
		if math.Abs(before-goalCoh) > 1e-9 {
			c.Check(conv == (before >= goalCoh), "converged flag", "update %d: converged %v with a coherence of %v for a goal of %v", k, conv, before, goalCoh)
		}
		if conv {
			if o.convergedT < 0 {
				o.convergedT = start.Add(time.Duration(k) * interval).Sub(born)
			}
			c.Check(near(float64(s.ConvergenceTime()), float64(o.convergedT), 1e6), "convergence time", "the swarm converged %v after it was built but reports %v", o.convergedT, s.ConvergenceTime())
		} else {
			o.convergedT = -1
			c.Check(s.ConvergenceTime() == 0, "convergence time", "not converged, but a convergence time of %v", s.ConvergenceTime())
		}
		if ended {
			return o
		}
	}
}

// achieved judges a run that reported success.
func (c *Case) achieved(s *swarm.Swarm, cfg *swarm.Config, g core.State, target float64, what string) {
	n := len(s.Agents())
	ph := swarmPhases(s)
	coh := refCoherence(ph)
	tol := runTolerance(cfg, n, target)
	c.Check(coh >= target-tol-1e-9, "success below target", "%s: success at a coherence of %v for a target of %v (tolerance %v)", what, coh, target, tol)
	var f float64
	for _, a := range sortedAgents(s) {
		f += float64(a.Frequency())
	}
	f /= float64(n)
	dc := math.Abs(coh - target)
	if target >= 0.4 {
		dc = math.Max(0, target-coh)
	}
	dist := 0.4*angDist(refMean(ph), g.Phase)/math.Pi + 0.3*math.Min(1, math.Abs(f-float64(g.Frequency))/float64(g.Frequency)) + 0.3*dc
	c.Check(dist < cfg.Convergence.PatternDistanceThreshold+1e-6, "success far from goal", "%s: success with a mean phase of %v, a mean frequency of %v and a coherence of %v: distance %v, threshold %v", what, refMean(ph), time.Duration(f), coh, dist, cfg.Convergence.PatternDistanceThreshold)
	if target >= cfg.Thresholds.HighCoherence {
		pc := refPhaseConvergence(ph, g.Phase)
		c.Check(pc >= cfg.Convergence.PhaseConvergenceGoal-1e-9, "success off phase", "%s: success with a phase convergence of %v, goal %v", what, pc, cfg.Convergence.PhaseConvergenceGoal)
	}
}

// C02: success means the goal was reached, and what is reported is what is.
func TestProp(t *testing.T) {
	m := Start(t, "C02", "runs of swarms of 1 to 150 agents with default, preset and random goal configurations, goals over the whole range of coherence, phase and frequency, hostile starts and phases meddled with during the run; an observer compares reported coherence, converged flag and convergence time with the agents' phases around every update, and judges every success; non-trivial when the run took at least two updates; distinct by configuration and outcome")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic, goal.Type(99)}
	m.Each("run", m.N(3000), func(c *Case) {
		n := c.PickI(1, 2, 3, 4, 5, 9, 10, 11, 20, 30, 49, 50, 51, 75, 99, 100, 101, 150)
		g := pickGoalState(c, n, 0, 1)
		if c.Intn(6) == 0 {
			g.Coherence = c.PickF(0, 0.2, 0.3, 0.399, 0.4, 0.401, 0.9, 0.92, 0.99, 1)
		}
		var cfg *swarm.Config
		var opts []swarm.Option
		kind := c.Intn(4)
		if kind == 0 {
			cfg = refDefault()
		} else {
			cfg = swarm.For(goals[c.Intn(len(goals))])
			for range c.Intn(3) {
				cfg = cfg.TuneFor(trait.Target(c.Intn(6)))
			}
			if c.Intn(3) == 0 {
				cfg = cfg.WithSize(n)
			}
			if kind == 3 {
				cfg.Convergence.ToleranceSmall = c.PickF(0, 0.01, 0.05, 0.2)
				cfg.Convergence.ToleranceMedium = c.PickF(0, 0.01, 0.05, 0.2)
				cfg.Convergence.ToleranceLarge = c.PickF(0, 0.01, 0.05, 0.2)
				cfg.Convergence.PatternDistanceThreshold = c.PickF(0.02, 0.1, 0.3, 1)
				cfg.Convergence.PhaseConvergenceGoal = c.PickF(0, 0.5, 0.9, 0.97)
				cfg.Thresholds.HighCoherence = c.PickF(cfg.Thresholds.ModerateCoherence, cfg.Thresholds.VeryHighCoherence)
			}
			cp := *cfg
			opts = append(opts, swarm.WithGoalConfig(&cp))
		}
		virtual(t, func() {
			born := time.Now()
			s, err := swarm.New(n, g, opts...)
			if err != nil {
				c.Fail("construction", "%d agents, goal %+v: %v", n, g, err)
				return
			}
			target := math.Min(g.Coherence, swarm.GetCoherenceLimits(n).Practical)
			arr := c.Intn(len(arrangements))
			c.arrange(s, g.Phase, arr)
			if c.Intn(2) == 0 {
				time.Sleep(time.Duration(c.Intn(5000)) * time.Millisecond)
			}
			var meddle func(int)
			if c.Intn(3) == 0 {
				until := c.Range(1, 40)
				ags := sortedAgents(s)
				meddle = func(k int) {
					if k < until && c.Intn(3) == 0 {
						for range c.Range(1, 3) {
							ags[c.Intn(n)].SetPhase(c.Circle())
						}
					}
				}
			}
			rounds := c.Range(1, 3)
			for r := range rounds {
				o := c.watch(s, cfg.Strategy.UpdateInterval, target, c.PickD(time.Second, time.Minute, time.Hour), born, meddle)
				what := fmt.Sprintf("%d agents, goal %+v, start %s, run %d ended after %v", n, g, arrangements[arr], r+1, o.took)
				if o.err == nil {
					c.achieved(s, cfg, g, target, what)
					c.Cnt("successes", 1)
				} else {
					c.Cnt("other ends", 1)
				}
				c.Cnt("updates observed", o.samples)
				if o.samples >= 2 {
					c.Key(n, g, arr, kind, r, o.err == nil, o.samples)
				}
				c.Sample("%s: %v", what, o.err)
				if r+1 < rounds {
					s.DisruptAgents(c.Unit())
					c.Check(!s.IsConverged() && s.CurrentCoherence() == 0, "stale convergence", "after a disruption the swarm still reports convergence %v, coherence %v", s.IsConverged(), s.CurrentCoherence())
					born = time.Now()
				}
			}
		})
	})

	m.Each("client", m.N(200), func(c *Case) {
		virtual(t, func() {
			gt := goals[c.Intn(8)]
			sc := c.PickI(int(scale.Tiny), int(scale.Small))
			b := client.New().WithGoal(gt).WithScale(scale.Size(sc))
			target := scale.Size(sc).DefaultTargetCoherence()
			if c.Intn(2) == 0 {
				target = 0.3 + 0.6*c.Float64()
				b = b.WithTargetCoherence(target)
			}
			cl, err := b.Build()
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			target = math.Min(target, swarm.GetCoherenceLimits(cl.Size()).Practical)
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			defer cancel()
			err = cl.Start(ctx)
			coh := refCoherence(swarmPhases(cl.Swarm()))
			c.Check(near(cl.Coherence(), coh, 1e-9), "client coherence", "client reports %v, agents measure %v", cl.Coherence(), coh)
			if err == nil {
				c.achieved(cl.Swarm(), cl.Config(), core.State{Phase: 0, Frequency: time.Second, Coherence: target}, target, fmt.Sprintf("client for %v, %d agents", gt, cl.Size()))
				c.Check(cl.IsConverged() == (coh >= target) || math.Abs(coh-target) < 1e-9, "client converged flag", "converged %v with coherence %v for %v", cl.IsConverged(), coh, target)
				c.Cnt("successes", 1)
				c.Key(gt, sc, target)
			}
			// disturb, then the reported coherence follows
			for range 3 {
				cl.Swarm().DisruptAgents(c.Unit())
				c.Check(near(cl.Coherence(), refCoherence(swarmPhases(cl.Swarm())), 1e-9), "client coherence", "client reports %v", cl.Coherence())
			}
		})
	})

	// swarms built from an explicit configuration keep the requested coherence
	m.Each("fromconfig", m.N(300), func(c *Case) {
		n := c.PickI(2, 5, 10, 20, 50, 99, 101, 130)
		g := pickGoalState(c, n, 0.3, 1)
		virtual(t, func() {
			s, err := swarm.NewSwarmFromConfig(n, g, swarm.AutoScaleConfig(n))
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			c.arrange(s, g.Phase, c.Intn(len(arrangements)))
			err, _ = runVirtual(s, time.Hour)
			if err == nil {
				target := math.Min(g.Coherence, swarm.GetCoherenceLimits(n).Theoretical)
				c.achieved(s, refDefault(), g, target, fmt.Sprintf("%d agents from configuration, goal %+v", n, g))
				c.Cnt("successes", 1)
				c.Key(n, g)
			}
		})
	})
}
