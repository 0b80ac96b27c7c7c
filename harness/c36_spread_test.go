package verifmon

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

// C36: a swarm asked for little coherence keeps its agents apart.

// spreads runs a swarm up to five times until it succeeds, and watches it
// between the updates.
func (c *Case) spreads(t *testing.T, what string, defaults bool, mk func() (*swarm.Swarm, core.State, time.Duration)) {
	virtual(t, func() {
		s, g, interval := mk()
		if s == nil {
			return
		}
		before := swarmPhases(s)
		start := refCoherence(before)
		var err error
		var took time.Duration
		apart := start <= g.Coherence // has been at the target
		tick := 0
		for range 5 {
			done := make(chan struct{})
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			t0 := time.Now()
			go func() { err = s.Run(ctx); close(done) }()
			time.Sleep(interval / 2)
		loop:
			for {
				select {
				case <-done:
					break loop
				default:
				}
				ph := swarmPhases(s)
				coh := refCoherence(ph)
				c.Cnt("samples", 1)
				if coh <= g.Coherence {
					apart = true
				}
				if !apart {
					c.Cnt("updates above the target", 1)
					c.Check(coh <= start+0.05, "brought together", "%s: coherence %.3f after %d updates, %.3f before", what, coh, tick, start)
					// every agent takes part in every update
					if tick == 1 {
						still := 0
						for i := range ph {
							if angDist(ph[i], before[i]) < 1e-12 {
								still++
							}
						}
						c.Check(still == 0, "agents left out", "%s: %d of %d agents were not moved", what, still, len(ph))
					}
					// spreading takes a good third of the coherence in 12 updates
					if tick == 40 {
						c.Check(coh < 0.85*start, "not spreading", "%s: coherence %.3f after %d updates, %.3f before", what, coh, tick, start)
					}
					c.Check(tick < 200, "not spread", "%s: coherence %.3f is still above the target after %d updates", what, coh, tick)
				}
				time.Sleep(interval)
				tick++
			}
			took = time.Since(t0)
			cancel()
			if err == nil {
				break
			}
			c.Cnt("runs that did not succeed", 1)
		}
		c.Max("max updates", tick)
		coh := refCoherence(swarmPhases(s))
		if !c.Check(err == nil, "no success", "%s: none of 5 runs succeeded; the last one: %v, coherence %.3f", what, err, coh) {
			return
		}
		if defaults {
			c.Check(coh <= g.Coherence+0.34, "success while synchronized", "%s: coherence %.3f at success", what, coh)
		}
		c.Check(coh < start-0.05 || start < 0.5, "no effect", "%s: coherence went from %.3f to %.3f", what, start, coh)
		c.Key(what, c.I)
		c.Cnt("swarms spread", 1)
		c.Sample("%s: coherence %.2f to %.2f in %v", what, start, coh, took)
	})
}

// difficult gives a third of the swarms agents that would not adjust by
// themselves: none of them is left out.
func (c *Case) difficult(s *swarm.Swarm) {
	if c.Intn(3) > 0 {
		return
	}
	kind := c.Intn(4)
	for _, a := range sortedAgents(s) {
		if kind == 0 || kind == 3 {
			a.SetInfluence(c.PickF(0, 0.5, 1, c.Float64()))
		}
		if kind == 1 || kind == 3 {
			a.SetStubbornness(c.PickF(0, 1, c.Float64()))
		}
		if kind == 2 || kind == 3 {
			a.SetEnergy(c.PickF(0, 0.5, 100, 100*c.Float64()))
		}
	}
	c.Cnt("swarms of difficult agents", 1)
}

func TestProp(t *testing.T) {
	m := Start(t, "C36", "synchronized swarms of 20 to 300 agents with goals of 0.2 to 0.395, anywhere on the circle, with default settings, the presets for spreading and through the client, observed between all updates of their runs; non-trivial when the run spread the agents and succeeded; distinct by configuration")
	defer m.Finish()
	m.Each("swarm", m.N(2500), func(c *Case) {
		n := c.PickI(20, 20, 25, 35, 50, 50, 80, 100, 120, 200, 300)
		g := pickGoalState(c, n, 0.2, 0.395)
		gt := []goal.Type{-1, goal.DistributeLoad, goal.RecoverFromFailure}[c.Intn(3)]
		pre := "default settings"
		if gt >= 0 {
			pre = gt.String()
			// as the client does; the presets are content sooner when there is no
			// frequency to reach
			g.Frequency = time.Second
		}
		spread := c.PickF(0, 0, 0.01, 0.3)
		off := c.PickF(0, 0, math.Pi/3, math.Pi, c.Float64()*twoPi)
		what := fmt.Sprintf("%d agents, %s, goal %+v, start within %.2f of %.3f", n, pre, g, spread, g.Phase+off)
		c.spreads(t, what, gt < 0, func() (*swarm.Swarm, core.State, time.Duration) {
			var opts []swarm.Option
			iv := refDefault().Strategy.UpdateInterval
			if gt >= 0 {
				cfg := swarm.For(gt).WithSize(n)
				iv = cfg.Strategy.UpdateInterval
				opts = append(opts, swarm.WithGoalConfig(cfg))
			}
			s, err := swarm.New(n, g, opts...)
			if err != nil {
				c.Fail("construction", "%v", err)
				return nil, g, 0
			}
			for _, a := range sortedAgents(s) {
				a.SetPhase(g.Phase + off + (c.Float64()*2-1)*spread)
			}
			c.difficult(s)
			return s, g, iv
		})
	})
	m.Each("client", m.N(600), func(c *Case) {
		gt := []goal.Type{goal.DistributeLoad, goal.RecoverFromFailure}[c.Intn(2)]
		sc := []scale.Size{scale.Tiny, scale.Small, scale.Medium}[c.Intn(3)]
		tc := c.PickF(0.2, 0.25, 0.3, 0.35, 0.2+0.19*c.Float64())
		what := fmt.Sprintf("client for %v at %v scale, target %.3f", gt, sc, tc)
		c.spreads(t, what, false, func() (*swarm.Swarm, core.State, time.Duration) {
			cl, err := client.New().WithGoal(gt).WithScale(sc).WithTargetCoherence(tc).Build()
			if err != nil {
				c.Fail("construction", "%v", err)
				return nil, core.State{}, 0
			}
			for _, a := range sortedAgents(cl.Swarm()) {
				a.SetPhase(1)
			}
			c.difficult(cl.Swarm())
			return cl.Swarm(), core.State{Coherence: tc}, cl.Config().Strategy.UpdateInterval
		})
	})
}
