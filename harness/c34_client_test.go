package verifmon

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"testing"
	"testing/synctest"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

// C34: the client is built as requested and reports its swarm.
func TestProp(t *testing.T) {
	m := Start(t, "C34", "every construction path (builder in any order with repeated settings, functional options, one-line helpers), every goal and scale incl. unknown ones, valid and invalid coherences, reused builders; the client compared with the swarm it holds before, during and after a run in virtual time; non-trivial unless everything is default; distinct by construction")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	scales := []scale.Size{scale.Tiny, scale.Tiny, scale.Small, scale.Small, scale.Medium, scale.Size(7), scale.Size(-1)}

	same := func(c *Case, cl *client.Client, g goal.Type, s scale.Size, what string) {
		n := s.DefaultAgentCount()
		c.Check(cl.Size() == n && cl.Swarm() != nil && cl.Swarm().Size() == n && len(cl.Agents()) == n, "size", "%s: %d agents instead of %d", what, cl.Size(), n)
		c.Check(reflect.DeepEqual(cl.Config(), swarm.For(g).WithSize(n)), "configuration", "%s: %+v", what, cl.Config())
		sw := cl.Swarm().Agents()
		for id, a := range cl.Agents() {
			if sw[id] != a {
				c.Fail("agents", "%s: agent %s is not the swarm's", what, id)
				break
			}
		}
		c.Check(near(cl.Coherence(), refCoherence(swarmPhasesOf(cl)), 1e-9), "coherence", "%s: %v, its agents have %v", what, cl.Coherence(), refCoherence(swarmPhasesOf(cl)))
		c.Check(!cl.IsConverged(), "fresh client", "%s: reports convergence before running", what)
		c.Check(cl.Swarm() == cl.Swarm(), "swarm", "%s: another swarm at every call", what)
	}

	// the large scales, every goal
	m.Each("large", 2*len(goals), func(c *Case) {
		g, s := goals[c.I/2], scale.Large+scale.Size(c.I%2)
		cl, err := client.New().WithGoal(g).WithScale(s).Build()
		if c.Check(err == nil, "construction", "%v %v: %v", g, s, err) {
			same(c, cl, g, s, fmt.Sprint(g, s))
			c.Key(g, s)
		}
	})

	m.Each("build", m.N(2500), func(c *Case) {
		g, s, tc := goal.MinimizeAPICalls, scale.Tiny, 0.0
		what := ""
		var cl *client.Client
		var err error
		bad := false
		switch path := c.Intn(4); path {
		case 0, 1: // builder
			b := client.New()
			if path == 1 {
				b = client.Custom()
			}
			what = "builder"
			for range c.Intn(6) {
				switch c.Intn(3) {
				case 0:
					g = goals[c.Intn(len(goals))]
					b = b.WithGoal(g)
				case 1:
					s = scales[c.Intn(len(scales))]
					b = b.WithScale(s)
				case 2:
					tc = c.PickF(0, -1, 0.3, 0.5, 0.8, 0.95, 1, c.Float64(), 1.0001, 2, math.NaN(), math.Inf(1))
					b = b.WithTargetCoherence(tc)
				}
			}
			bad = tc > 1 || math.IsNaN(tc)
			cl, err = b.Build()
			if err == nil && c.Intn(4) == 0 {
				// the builder builds another, independent client
				cl2, err2 := b.Build()
				if c.Check(err2 == nil && cl2 != cl && cl2.Swarm() != cl.Swarm(), "builder reuse", "%v", err2) {
					for _, a := range cl2.Agents() {
						a.SetPhase(0)
					}
					c.Check(cl2.Coherence() > 0.999999 && near(cl.Coherence(), refCoherence(swarmPhasesOf(cl)), 1e-9) && cl.Coherence() < 0.999, "builder reuse", "two clients of one builder share agents: %v %v", cl.Coherence(), cl2.Coherence())
				}
			}
		case 2: // options
			var opts []client.Option
			what = "options"
			refused := false
			for range c.Intn(6) {
				switch c.Intn(3) {
				case 0:
					x := goals[c.Intn(len(goals))]
					opts = append(opts, client.WithGoalOption(x))
					g = x
				case 1:
					x := scales[c.Intn(len(scales))]
					opts = append(opts, client.WithScaleOption(x))
					s = x
				case 2:
					x := c.PickF(0.3, 0.5, 0.8, 1, c.Float64()+1e-9, c.Float64()+1e-9, 0, -0.5, 1.01, math.Inf(1), math.NaN())
					opts = append(opts, client.WithCoherenceOption(x))
					tc = x
					refused = refused || x <= 0 || x > 1 // NaN is refused when the client is built
				}
			}
			bad = refused
			if !bad && (tc > 1 || math.IsNaN(tc)) {
				bad = true
			}
			cl, err = client.NewWithOptions(opts...)
		case 3:
			switch c.Intn(3) {
			case 0:
				what = "MinimizeAPICalls"
				s = scales[c.Intn(len(scales))]
				cl, err = client.MinimizeAPICalls(s)
			case 1:
				what = "DistributeLoad"
				g, s = goal.DistributeLoad, scales[c.Intn(len(scales))]
				cl, err = client.DistributeLoad(s)
			default:
				what = "Default"
				cl, err = client.Default()
			}
		}
		what = fmt.Sprintf("%s goal %v scale %v coherence %v", what, g, int(s), tc)
		if !c.Check((err != nil) == bad && (cl == nil) == bad, "accepted", "%s: %v", what, err) {
			return
		}
		c.Key(what)
		if bad {
			c.Cnt("refused", 1)
			return
		}
		same(c, cl, g, s, what)
		// the returned map is a copy
		am := cl.Agents()
		for id := range am {
			delete(am, id)
		}
		c.Check(len(cl.Agents()) == s.DefaultAgentCount(), "map aliasing", "%s: the client lost its agents", what)
		cl.Stop()
		c.Sample("%s", what)
	})

	// a running client reports its agents, and convergence exactly when the target is met
	m.Each("run", m.N(500), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.MinimizeLatency, goal.MaintainRhythm}[c.Intn(4)]
			s := []scale.Size{scale.Tiny, scale.Tiny, scale.Small, scale.Medium}[c.Intn(4)]
			tc := c.PickF(0, 0.5, 0.7, 0.8)
			b := client.New()
			if c.Intn(2) == 0 { // a builder that has built other clients before
				for range c.Range(1, 3) {
					b = b.WithScale([]scale.Size{scale.Tiny, scale.Small, scale.Medium}[c.Intn(3)]).WithGoal(goals[c.Intn(len(goals))])
					if tc > 0 && c.Intn(2) == 0 {
						b = b.WithTargetCoherence(c.PickF(0.3, 0.6, 0.9))
					}
					if _, err := b.Build(); err != nil {
						c.Fail("accepted", "%v", err)
						return
					}
				}
				c.Cnt("builders used again", 1)
			}
			b = b.WithGoal(g).WithScale(s)
			if tc > 0 {
				b = b.WithTargetCoherence(tc)
			}
			cl, err := b.Build()
			if err != nil {
				c.Fail("accepted", "%v", err)
				return
			}
			want := tc
			if tc == 0 {
				want = s.DefaultTargetCoherence()
			}
			if want >= 0.5 && cl.Coherence() >= want {
				return // already there by chance
			}
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
			defer cancel()
			done := make(chan error, 1)
			go func() { done <- cl.Start(ctx) }()
			for range 24 {
				time.Sleep(time.Duration(c.Range(1, 400)) * time.Millisecond)
				synctest.Wait()
				c.Check(near(cl.Coherence(), refCoherence(swarmPhasesOf(cl)), 1e-9), "coherence while running", "%v, its agents have %v", cl.Coherence(), refCoherence(swarmPhasesOf(cl)))
				if v := cl.Swarm().CurrentCoherence(); v > 0 {
					c.Check(cl.IsConverged() == (v >= want), "converged while running", "%v %v target %v: coherence %v, converged %v", g, s, want, v, cl.IsConverged())
				}
				if cl.IsConverged() {
					c.Check(cl.Coherence() >= want-runTolerance(cl.Config(), cl.Size(), want)-1e-9, "convergence", "reported at coherence %v for %v", cl.Coherence(), want)
				}
			}
			err = <-done
			coh := cl.Coherence()
			c.Check(err != nil || coh >= want-runTolerance(cl.Config(), cl.Size(), want)-1e-9, "success", "%v %v target %v: success with coherence %v", g, s, want, coh)
			c.Check(err != nil || cl.IsConverged() || coh < want, "converged", "%v %v target %v: coherence %v after success, convergence not reported", g, s, want, coh)
			if err == nil {
				c.Cnt("successful runs", 1)
			}
			cl.Stop()
			c.Check(near(cl.Coherence(), coh, 1e-12) && cl.Size() == s.DefaultAgentCount(), "after stopping", "coherence %v to %v", coh, cl.Coherence())
			// disturbed agents show up in the client, and it can be started again
			for _, a := range cl.Agents() {
				a.SetPhase(c.Float64() * twoPi)
			}
			c.Check(near(cl.Coherence(), refCoherence(swarmPhasesOf(cl)), 1e-9), "coherence after disturbance", "%v, its agents have %v", cl.Coherence(), refCoherence(swarmPhasesOf(cl)))
			ctx2, cancel2 := context.WithTimeout(context.Background(), 10*time.Minute)
			defer cancel2()
			err = cl.Start(ctx2)
			c.Check(err != nil || cl.Coherence() >= want-runTolerance(cl.Config(), cl.Size(), want)-1e-9, "success", "%v %v target %v: second success with coherence %v", g, s, want, cl.Coherence())
			if err == nil {
				c.Cnt("successful second runs", 1)
			}
			c.Key("run", g, s, tc, c.I)
		})
	})
}

func swarmPhasesOf(cl *client.Client) []float64 {
	var out []float64
	var m map[string]*agent.Agent = cl.Agents()
	for _, a := range m {
		out = append(out, a.Phase())
	}
	return out
}
