package verifmon

import (
	"context"
	"errors"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
)

// C15: a constructed swarm is complete and consistent; bad requests are refused.
func TestProp(t *testing.T) {
	m := Start(t, "C15", "sizes around every storage and configuration threshold, all construction paths (options, configuration struct, custom builder, custom topology, goal configuration), valid and invalid goals, configurations and options; every agent looked up through all three access paths; non-trivial for more than one agent or a refused request; distinct by path, size and parameters")
	defer m.Finish()
	sizes := []int{1, 2, 3, 4, 5, 9, 10, 11, 19, 20, 21, 49, 50, 51, 99, 100, 101, 102, 199, 200, 201, 500}
	m.Each("valid", m.N(900), func(c *Case) {
		n := sizes[c.Intn(len(sizes))]
		if c.I%90 == 0 {
			n = c.PickI(999, 1000, 1001, 2000)
		}
		goal := core.State{Phase: c.Phase(), Frequency: time.Duration(1 + c.Int63n(int64(10*time.Second))), Coherence: c.Unit()}
		path := c.Intn(5)
		var s *swarm.Swarm
		var err error
		built := map[string]*agent.Agent{}
		var cfg config.Swarm
		switch path {
		case 0:
			s, err = swarm.New(n, goal)
		case 1:
			cfg = vconfig(c, n)
			s, err = swarm.NewSwarmFromConfig(n, goal, cfg)
		case 2:
			cfg = vconfig(c, n)
			s, err = swarm.New(n, goal, swarm.WithConfig(cfg))
		case 3:
			dup := false
			s, err = swarm.New(n, goal, swarm.WithAgentBuilder(func(id string, size int, _ config.Swarm) *agent.Agent {
				if built[id] != nil || size != n {
					dup = true
				}
				a := agent.New(id, agent.WithPhase(c.Circle()), agent.WithStubbornness(0.123))
				built[id] = a
				return a
			}))
			c.Check(!dup, "builder arguments", "the agent builder was asked twice for an ID or told a wrong size (%d)", n)
		case 4:
			calls, seen := 0, 0
			s, err = swarm.New(n, goal, swarm.WithTopology(func(x *swarm.Swarm) error {
				calls++
				x.ForEachAgent(func(*agent.Agent) bool { seen++; return true })
				return nil
			}))
			c.Check(calls == 1 && seen == n, "topology builder", "the topology builder ran %d times and saw %d of %d agents", calls, seen, n)
			if err == nil {
				for _, a := range s.Agents() {
					if !c.Check(a.NeighborCount() == 0, "topology honored", "a topology without connections, but an agent has %d neighbors", a.NeighborCount()) {
						break
					}
				}
			}
		}
		if !c.Check(err == nil && s != nil, "refused", "path %d, %d agents, goal %+v: %v", path, n, goal, err) {
			return
		}
		c.Check(s.Size() == n, "size", "%d agents requested, Size() = %d", n, s.Size())
		ag := s.Agents()
		c.Check(len(ag) == n, "agent map", "%d agents requested, Agents() has %d", n, len(ag))
		each := map[*agent.Agent]bool{}
		s.ForEachAgent(func(a *agent.Agent) bool { each[a] = true; return true })
		c.Check(len(each) == n, "each agent", "%d agents requested, ForEachAgent visits %d different ones", n, len(each))
		// looking at the swarm from inside a visit
		inside := make(chan string, 1)
		go func() {
			bad := ""
			s.ForEachAgent(func(a *agent.Agent) bool {
				b, ok := s.Agent(a.ID)
				if !ok || b != a || s.Size() != n || len(s.Agents()) != n || !inUnit(s.MeasureCoherence()) {
					bad = a.ID
				}
				return n < 100 || c.I%4 == 0 && n <= 200
			})
			inside <- bad
		}()
		select {
		case bad := <-inside:
			c.Check(bad == "", "each agent inside", "%d agents: looking at the swarm while visiting agent %q showed another swarm", n, bad)
		case <-time.After(60 * time.Second):
			c.Fail("each agent blocked", "%d agents: looking at the swarm while visiting its agents never returned", n)
			return
		}
		stop := 0
		s.ForEachAgent(func(*agent.Agent) bool { stop++; return stop < 2 })
		c.Check(stop == min(2, n), "each agent stop", "ForEachAgent visited %d agents after being told to stop at 2", stop)
		var ph []float64
		for id, a := range ag {
			if a == nil {
				c.Fail("nil agent", "agent %s is nil", id)
				return
			}
			b, ok := s.Agent(id)
			if !c.Check(ok && b == a && a.ID == id && each[a], "lookup", "agent %s: Agent() gave %v/%v, ID %q, visited %v", id, b == a, ok, a.ID, each[a]) {
				return
			}
			if built[id] != nil || path == 3 {
				if !c.Check(built[id] == a && a.Stubbornness() == 0.123, "custom builder honored", "agent %s is not the one the builder made", id) {
					return
				}
			}
			if !c.Check(a.Phase() >= 0 && a.Phase() < twoPi && a.Energy() > 0 && a.Frequency() > 0 && inUnit(a.Influence()) && inUnit(a.Stubbornness()), "agent state", "agent %s: phase %v energy %v frequency %v", id, a.Phase(), a.Energy(), a.Frequency()) {
				return
			}
			ph = append(ph, a.Phase())
			if path < 3 {
				e := s.Config()
				okc := a.Energy() == e.InitialEnergy && (e.Stubbornness == 0 || a.Stubbornness() == e.Stubbornness) && (e.InfluenceDefault == 0 || a.Influence() == e.InfluenceDefault)
				if !c.Check(okc, "configuration honored", "path %d, %d agents: agent %s has energy %v stubbornness %v influence %v, configured %v %v %v", path, n, id, a.Energy(), a.Stubbornness(), a.Influence(), e.InitialEnergy, e.Stubbornness, e.InfluenceDefault) {
					return
				}
			}
		}
		// agents know the size of their swarm: a neighborhood's density is relative to it
		if path < 3 && n > 1 {
			e := s.Config()
			id := fmt.Sprint("agent-", c.Intn(n))
			if a := ag[id]; a != nil {
				a.SetStubbornness(0)
				sp := &densityProbe{}
				agent.WithStrategy(sp)(a)
				a.UpdateContext()
				_, _ = a.ProposeAdjustment(goal)
				k := a.NeighborCount()
				most := e.AssumedMaxNeighbors
				if most == 0 {
					most = n - 1
					if n > 100 && path != 1 { // agents of large swarms keep few neighbors
						most = 20
					}
				}
				want := float64(k) / float64(max(most, k, 1))
				c.Check(sp.asked == 1 && near(sp.density, want, 1e-12), "density in the swarm", "path %d, %d agents: an agent with %d neighbors (at most %d assumed) perceives a density of %v instead of %v", path, n, k, e.AssumedMaxNeighbors, sp.density, want)
			}
		}
		if path < 3 && n >= 20 {
			// randomized starting phases: not all in one place
			c.Check(refCoherence(ph) < 0.95, "random start", "%d fresh agents start with coherence %v", n, refCoherence(ph))
		}
		if path == 1 || path == 2 {
			e := s.Config()
			c.Check(e.CouplingStrength == cfg.CouplingStrength && e.ConnectionProbability == cfg.ConnectionProbability && e.BasinStrength == cfg.BasinStrength && e.AgentUpdateInterval == cfg.AgentUpdateInterval, "configuration kept", "configured %+v, the swarm has %+v", cfg, e)
		}
		for _, id := range []string{"", "agent", "agent--1", fmt.Sprint("agent-", n), "agent-00", "x"} {
			_, ok := s.Agent(id)
			c.Check(!ok, "unknown agent", "Agent(%q) found in a swarm of %d", id, n)
		}
		c.Check(!s.IsConverged() && s.ConvergenceTime() == 0, "fresh swarm", "a fresh swarm reports convergence")
		// the returned map is a copy
		for id := range ag {
			delete(ag, id)
			break
		}
		c.Check(len(s.Agents()) == n, "map aliasing", "deleting from the returned map removed an agent from the swarm")
		if n > 1 {
			c.Key(path, n, goal.Frequency)
		}
		c.Max("max swarm", n)
		c.Cnt("agents checked", n)
		c.Sample("path %d, %d agents, goal %+v", path, n, goal)
	})

	m.Each("invalid", m.N(3000), func(c *Case) {
		n := c.PickI(1, 2, 5, 20, 101)
		goal := core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8}
		var opts []swarm.Option
		what := ""
		errTopo := errors.New("no topology today")
		viaConfig := false
		cfg := config.AutoScaleConfig(n)
		switch k := c.Intn(12); k {
		case 0:
			n = c.PickI(0, -1, -100, math.MinInt32)
			what = "size"
			viaConfig = c.Intn(2) == 0
		case 1:
			goal.Frequency = c.PickD(0, -1, -time.Hour)
			what = "frequency"
			viaConfig = c.Intn(2) == 0
		case 2:
			goal.Coherence = c.PickF(-0.01, 1.01, math.NaN(), math.Inf(1), math.Inf(-1), -3)
			what = "coherence"
			viaConfig = c.Intn(2) == 0
		case 3:
			goal.Phase = c.PickF(math.NaN(), math.Inf(1), math.Inf(-1))
			what = "phase"
			viaConfig = c.Intn(2) == 0
		case 4:
			opts = append(opts, swarm.WithGoalConfig(nil))
			what = "nil goal config"
		case 5:
			bad := swarm.For(0)
			switch c.Intn(6) {
			case 0:
				bad.Convergence.ToleranceSmall = -0.1
			case 1:
				bad.Convergence.PhaseConvergenceGoal = 1.5
			case 2:
				bad.Strategy.UpdateInterval = 0
			case 3:
				bad.Strategy.MaxIterationsFactor = 0
			case 4:
				bad.Variation.BaseRange = [2]float64{0.5, 0.1}
			case 5:
				bad.Resonance.ActivationRate = 2
			}
			if bad.Validate() == nil {
				return // judged by the configuration property
			}
			opts = append(opts, swarm.WithGoalConfig(bad))
			what = "goal config"
		case 6:
			opts = append(opts, swarm.WithTopology(func(*swarm.Swarm) error { return errTopo }))
			what = "topology"
		case 7:
			opts = append(opts, func(*swarm.Swarm) error { return errTopo })
			what = "option"
		case 8:
			n = c.PickI(20, 101)
			cfg = config.AutoScaleConfig(n)
			cfg.MaxSwarmSize = n - 1
			what = "maximum size"
			if c.Intn(2) == 0 {
				opts = append(opts, swarm.WithConfig(cfg))
			} else {
				viaConfig = true
			}
		case 9:
			cfg.CouplingStrength = math.NaN()
			what = "NaN coupling"
			viaConfig = true
		case 10:
			opts = append(opts, swarm.WithRecoveryConfig(swarm.RecoveryConfig{CheckInterval: -1}))
			what = "recovery interval"
		case 11:
			cfg.InitialEnergy = math.NaN()
			opts = append(opts, swarm.WithConfig(cfg))
			what = "NaN energy"
		}
		var s *swarm.Swarm
		var err error
		if viaConfig {
			s, err = swarm.NewSwarmFromConfig(n, goal, cfg)
		} else {
			s, err = swarm.New(n, goal, opts...)
		}
		c.Check(err != nil && s == nil, "accepted invalid "+what, "invalid %s accepted: size %d goal %+v (error %v)", what, n, goal, err)
		if what == "size" {
			c.Check(errors.Is(err, swarm.ErrInvalidSwarmSize), "error kind", "size %d: %v is not ErrInvalidSwarmSize", n, err)
		}
		if what == "topology" || what == "option" {
			c.Check(errors.Is(err, errTopo), "error kind", "%v does not carry the cause", err)
		}
		c.Cnt("requests refused", 1)
		c.Key(what, n, viaConfig, goal, len(opts))
	})
	// several options of one kind, and kinds in any order: the last of a kind
	// wins, and the order between kinds does not matter
	m.Each("options", m.N(600), func(c *Case) {
		n := c.PickI(1, 2, 3, 7, 20, 99, 100, 101, 150, 230)
		goal := core.State{Phase: c.Phase(), Frequency: time.Second, Coherence: c.Float64()}
		var opts []swarm.Option
		hist := ""
		prefix, topos, lastTopo := "", []int{}, -1
		var last *config.Swarm
		seen := map[config.Swarm]bool{}
		made := map[*agent.Agent]string{}
		bad := "" // what the last builder does wrong
		at := 0
		for range c.Range(2, 6) {
			switch c.Intn(5) {
			case 0, 1:
				pre := fmt.Sprintf("b%d-", len(opts))
				if c.Intn(3) == 0 {
					pre = ""
				}
				wrong := ""
				if c.Intn(4) == 0 && n > 1 {
					wrong = []string{"nil", "double"}[c.Intn(2)]
				}
				k := c.Intn(n)
				if wrong == "double" {
					k = c.Range(1, n-1)
				}
				seen = map[config.Swarm]bool{}
				mySeen := seen
				prefix, bad, at = pre, wrong, k
				calls := 0
				opts = append(opts, swarm.WithAgentBuilder(func(id string, _ int, cfg config.Swarm) *agent.Agent {
					calls++
					mySeen[cfg] = true
					if wrong == "nil" && calls == k+1 {
						return nil
					}
					if wrong == "double" && calls == k+1 {
						id = "agent-0"
					}
					a := agent.New(pre + id)
					made[a] = pre
					return a
				}))
				hist += "b" + wrong
			case 2, 3:
				cfg := vconfig(c, n)
				last = &cfg
				opts = append(opts, swarm.WithConfig(cfg))
				hist += "c"
			case 4:
				k := len(opts)
				lastTopo = k
				opts = append(opts, swarm.WithTopology(func(x *swarm.Swarm) error {
					topos = append(topos, k)
					if len(x.Agents()) != n {
						c.Fail("agents in topology", "%q: the topology builder sees %d of %d agents", hist, len(x.Agents()), n)
					}
					return nil
				}))
				hist += "t"
			}
		}
		s, err := swarm.New(n, goal, opts...)
		if bad != "" {
			c.Check(err != nil && s == nil, "bad builder", "%q, %d agents: a builder that returned %s for agent %d was accepted", hist, n, bad, at)
			c.Cnt("bad builders refused", 1)
			c.Key(hist, n, bad)
			return
		}
		if !c.Check(err == nil && s != nil, "refused", "%q, %d agents: %v", hist, n, err) {
			return
		}
		count := 0
		s.ForEachAgent(func(*agent.Agent) bool { count++; return true })
		ag := s.Agents()
		c.Check(s.Size() == n && count == n && len(ag) == n, "size", "%q: %d agents requested, Size() %d, ForEachAgent %d, Agents() %d", hist, n, s.Size(), count, len(ag))
		if len(made) > 0 {
			for id, a := range ag {
				if pre, ok := made[a]; !ok || pre != prefix || id != a.ID {
					c.Fail("last builder", "%q, %d agents: agent %q is from builder %q (%v), the last builder is %q", hist, n, id, pre, ok, prefix)
					break
				}
			}
			if len(seen) != 1 || !seen[s.Config()] {
				c.Fail("configuration shown", "%q, %d agents: the builder was shown another configuration than the swarm has", hist, n)
			}
		}
		if last != nil {
			e := s.Config()
			c.Check(e.CouplingStrength == last.CouplingStrength && e.Stubbornness == last.Stubbornness && e.InitialEnergy == last.InitialEnergy && e.AgentUpdateInterval == last.AgentUpdateInterval, "last configuration", "%q: configured %+v, the swarm has %+v", hist, *last, e)
			if len(made) == 0 {
				for id, a := range ag {
					if !c.Check(a.Stubbornness() == last.Stubbornness && a.Energy() == last.InitialEnergy, "configuration honored", "%q, %d agents: agent %s has stubbornness %v energy %v, configured %v %v", hist, n, id, a.Stubbornness(), a.Energy(), last.Stubbornness, last.InitialEnergy) {
						break
					}
				}
			}
		}
		if lastTopo >= 0 {
			c.Check(len(topos) == 1 && topos[0] == lastTopo, "last topology", "%q: topology builders %v ran, the last is %d", hist, topos, lastTopo)
		}
		c.Key(hist, n)
		c.Cnt("option lists", 1)
	})
	_ = context.Background
}

func vconfig(c *Case, n int) config.Swarm {
	cfg := config.AutoScaleConfig(n)
	cfg.MaxSwarmSize = 0
	cfg.CouplingStrength = c.Float64()
	cfg.ConnectionProbability = c.Unit()
	if n > 300 {
		cfg.ConnectionProbability = 0.05
	}
	cfg.Stubbornness = c.PickF(0.01, 0.2, 0.7, 1)
	cfg.InitialEnergy = c.PickF(1, 50, 100, 1000)
	cfg.InfluenceDefault = c.PickF(0.1, 0.5, 1)
	cfg.BasinStrength = c.Unit()
	cfg.AgentUpdateInterval = time.Duration(1+c.Intn(100)) * time.Millisecond
	return cfg
}

// densityProbe is a strategy that notes the density it is told.
type densityProbe struct {
	asked   int
	density float64
}

func (s *densityProbe) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	s.asked++
	s.density = ctx.Density
	return core.Action{Type: "maintain"}, 0.5
}

func (*densityProbe) Name() string { return "density probe" }
