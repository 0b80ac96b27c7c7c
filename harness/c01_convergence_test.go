package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
)

const attempts = 5

// converges makes fresh attempts of one configuration; the swarm's dynamics
// are random, so a configuration counts as broken only when every attempt
// fails. First attempts also feed the whole-run rate.
func (c *Case) converges(t *testing.T, what string, mk func() (*swarm.Swarm, core.State, float64)) {
	var last string
	for k := range attempts {
		ok := false
		virtual(t, func() {
			s, g, tol := mk()
			err, took := runVirtual(s, time.Hour)
			coh := refCoherence(swarmPhases(s))
			ok = err == nil && coh >= g.Coherence-tol-1e-9
			last = fmt.Sprintf("after %v of virtual time: coherence %.4f for a target of %.4f, error %v", took, coh, g.Coherence, err)
			if ok {
				c.Max("max virtual ms to converge", int(took/time.Millisecond))
				if c.batch == "default" || c.batch == "client" {
					c.Cnt("runs with default settings", 1)
					if took > 15*time.Second {
						c.Cnt("runs with default settings slower than 15 s", 1)
					}
				}
				c.Key(what)
				c.Sample("%s: %s", what, last)
			}
		})
		if k == 0 {
			c.Cnt("first attempts", 1)
			if !ok {
				c.Cnt("first attempts that did not converge", 1)
			}
		}
		if ok {
			c.Check(true, "", "")
			return
		}
		c.Cnt("failed attempts", 1)
	}
	c.Check(false, "no convergence", "%s: none of %d runs converged; the last one: %s", what, attempts, last)
}

// C01: a run whose target is within the recommended limits converges.
func TestProp(t *testing.T) {
	m := Start(t, "C01", "swarms of 1 to 300 (thorough 2000) agents with random goals within the recommended coherence limit, phases and frequencies of the goal from several ranges, hostile initial arrangements, and clients of every goal and scale, each run in virtual time until it returns; non-trivial when the run converged from a start that was not already at the goal; distinct by configuration")
	defer m.Finish()

	m.Each("default", m.N(10000), func(c *Case) {
		n := c.PickI(1, 2, 3, 4, 5, 7, 9, 10, 13, 19, 20, 35, 49, 50, 75, 99, 100, 101, 120)
		if c.Intn(25) == 0 {
			n = 300
		}
		lim := swarm.GetCoherenceLimits(n)
		g := pickGoalState(c, n, 0.5, math.Min(lim.Recommended, 0.95))
		kind := c.Intn(len(arrangements))
		c.converges(t, fmt.Sprintf("%d agents, goal %+v, start %s", n, g, arrangements[kind]), func() (*swarm.Swarm, core.State, float64) {
			s, err := swarm.New(n, g)
			if err != nil {
				c.Fail("construction", "%v", err)
				panic("harness")
			}
			c.arrange(s, g.Phase, kind)
			return s, g, runTolerance(refDefault(), n, g.Coherence)
		})
	})

	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	m.Each("client", m.N(3000), func(c *Case) {
		g := goals[c.I%8]
		sc := []scale.Size{scale.Tiny, scale.Small, scale.Tiny, scale.Small, scale.Medium}[(c.I/8)%5]
		st := core.State{Coherence: sc.DefaultTargetCoherence()}
		kind := c.Intn(len(arrangements))
		c.converges(t, fmt.Sprintf("client for %v at %v scale, start %s (case %d)", g, sc, arrangements[kind], c.I), func() (*swarm.Swarm, core.State, float64) {
			cl, err := client.New().WithGoal(g).WithScale(sc).Build()
			if err != nil {
				c.Fail("construction", "%v", err)
				panic("harness")
			}
			c.arrange(cl.Swarm(), 0, kind)
			return cl.Swarm(), st, runTolerance(cl.Config(), cl.Size(), st.Coherence)
		})
	})

	// the large scales, in their default form
	m.Each("large", m.N(80), func(c *Case) {
		sc := scale.Large
		if c.I%4 == 3 {
			sc = scale.Huge
		}
		st := core.State{Coherence: sc.DefaultTargetCoherence()}
		c.converges(t, fmt.Sprintf("client at %v scale (case %d)", sc, c.I), func() (*swarm.Swarm, core.State, float64) {
			cl, err := client.MinimizeAPICalls(sc)
			if err != nil {
				c.Fail("construction", "%v", err)
				panic("harness")
			}
			return cl.Swarm(), st, runTolerance(cl.Config(), cl.Size(), st.Coherence)
		})
	})

	traits := []trait.Target{trait.Stability, trait.Speed, trait.Efficiency, trait.Throughput, trait.Resilience, trait.Precision}
	m.Each("traits", m.N(3000), func(c *Case) {
		g := goals[c.I%8]
		tr := traits[(c.I/8)%6]
		if g == goal.ReachConsensus { // too strict for a guarantee beyond its own preset
			g = goal.MaintainRhythm
		}
		if tr == trait.Precision && g == goal.MinimizeAPICalls {
			tr = trait.Stability
		}
		n := c.PickI(15, 40, 60)
		st := core.State{Phase: c.PickF(0, math.Pi, c.Float64()*twoPi), Frequency: c.PickD(100*time.Millisecond, 250*time.Millisecond, time.Second), Coherence: 0.6 + 0.25*c.Float64()}
		c.converges(t, fmt.Sprintf("%d agents tuned for %v and %v, goal %+v", n, g, tr, st), func() (*swarm.Swarm, core.State, float64) {
			cfg := swarm.For(g).TuneFor(tr).WithSize(n)
			s, err := swarm.New(n, st, swarm.WithGoalConfig(cfg))
			if err != nil {
				c.Fail("construction", "%v", err)
				panic("harness")
			}
			return s, st, runTolerance(cfg, n, st.Coherence)
		})
	})

	// the same swarm can be disrupted and run again, any number of times
	m.Each("rerun", m.N(900), func(c *Case) {
		n := c.PickI(10, 20, 50, 120)
		lim := swarm.GetCoherenceLimits(n)
		g := pickGoalState(c, n, 0.6, lim.Recommended)
		virtual(t, func() {
			s, err := swarm.New(n, g)
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			rounds := c.Range(2, 5)
			for r := range rounds {
				what := fmt.Sprintf("%d agents, goal %+v, run %d", n, g, r+1)
				ok := false
				for k := range attempts {
					s.DisruptAgents(c.PickF(1, 0.5, 1))
					err, _ = runVirtual(s, time.Hour)
					coh := refCoherence(swarmPhases(s))
					ok = err == nil && coh >= g.Coherence-runTolerance(refDefault(), n, g.Coherence)-1e-9
					if k == 0 {
						c.Cnt("first attempts", 1)
						if !ok {
							c.Cnt("first attempts that did not converge", 1)
						}
					}
					if ok {
						break
					}
				}
				c.Check(ok, "no convergence after disruption", "%s: none of %d attempts converged", what, attempts)
				c.Key(what)
			}
		})
	})
}
