package verifmon

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
)

// C16: a disruption hits exactly the requested share of the agents.
func TestProp(t *testing.T) {
	m := Start(t, "C16", "swarms of 1 to 1100 agents of both storage kinds, all set to a phase no random draw returns, disrupted by fractions from below 0 to above 1 (also several times in a row); the agents whose phase changed are counted and everything else is compared with before; selection frequencies per agent over many disruptions are compared with chance (6 standard deviations); non-trivial when some but not all agents were hit; distinct by size and fraction")
	defer m.Finish()
	m.Each("count", m.N(2500), func(c *Case) {
		n := []int{1, 2, 3, 5, 7, 10, 20, 33, 50, 99, 100, 101, 102, 150, 200}[c.Intn(15)]
		if c.I%120 == 0 {
			n = c.PickI(999, 1000, 1001, 1100)
		}
		cfg := config.AutoScaleConfig(n)
		cfg.ConnectionProbability = 0.05
		cfg.MinNeighbors = min(1, n-1)
		s, err := swarm.New(n, core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8}, swarm.WithConfig(cfg))
		if !c.Check(err == nil, "construction", "%v", err) {
			return
		}
		mark := twoPi / 3
		type st struct {
			goal, en, infl, stub float64
			fr                   time.Duration
			nb                   int
		}
		before := map[*agent.Agent]st{}
		s.ForEachAgent(func(a *agent.Agent) bool {
			a.SetPhase(mark)
			before[a] = st{a.LocalGoal(), a.Energy(), a.Influence(), a.Stubbornness(), a.Frequency(), a.NeighborCount()}
			return true
		})
		byID := s.Agents()
		at := 0.0
		for a := range before {
			at = a.Phase()
			break
		}
		k := c.Intn(n + 1)
		f := []float64{0, 1, 0.5, 0.1, float64(k) / float64(n), (float64(k) + 0.5) / float64(n), -0.3, 1.7, math.Inf(1), -1e9, c.Float64(), 0.999999, 1e-9}[c.Intn(13)]
		s.DisruptAgents(f)
		cl := math.Min(1, math.Max(0, f))
		want := int(float64(n) * cl)
		moved := 0
		for a, b := range before {
			if a.Phase() != at {
				moved++
				c.Check(a.Phase() >= 0 && a.Phase() < twoPi, "phase range", "disrupted to %v", a.Phase())
			}
			c.Check(b == st{a.LocalGoal(), a.Energy(), a.Influence(), a.Stubbornness(), a.Frequency(), a.NeighborCount()}, "other attributes", "a disruption changed more than the phase")
		}
		c.Check(moved == want, "disrupted agents", "%d agents, fraction %v: %d disrupted, expected %d", n, f, moved, want)
		c.Check(s.Size() == n && len(s.Agents()) == n, "size", "a disruption changed the size of the swarm")
		after := s.Agents()
		for id, a := range byID {
			got, ok := s.Agent(id)
			if !c.Check(ok && got == a && a.ID == id && after[id] == a, "membership", "%d agents, fraction %v: looking up %s after a disruption does not give the same agent", n, f, id) {
				break
			}
		}
		if want >= 30 {
			// scattered, not moved together
			var ph []float64
			for a := range before {
				if a.Phase() != at {
					ph = append(ph, a.Phase())
				}
			}
			c.Check(refCoherence(ph) < 6/math.Sqrt(float64(len(ph))), "scatter", "%d disrupted agents have coherence %v", len(ph), refCoherence(ph))
		}
		c.Check(!s.IsConverged(), "converged after disruption", "the swarm reports convergence right after a disruption")
		c.Cnt("agents disrupted", moved)
		if moved > 0 && moved < n {
			c.Key(n, f)
		}
		c.Max("max swarm", n)
		c.Sample("%d agents, fraction %v: %d disrupted", n, f, moved)
	})
	// every agent is equally likely to be hit, whatever the storage
	m.Each("selection", m.N(16), func(c *Case) {
		n := []int{5, 20, 100, 101, 150, 10, 50, 200}[c.I%8]
		s, err := swarm.New(n, core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8})
		if !c.Check(err == nil, "construction", "%v", err) {
			return
		}
		mark := twoPi / 3
		rounds := 1500
		hits := map[string]int{}
		f := c.PickF(0.2, 0.4, 0.6)
		for range rounds {
			s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(mark); return true })
			s.DisruptAgents(f)
			s.ForEachAgent(func(a *agent.Agent) bool {
				if angDist(a.Phase(), mark) > 1e-12 {
					hits[a.ID]++
				}
				return true
			})
		}
		p := float64(int(float64(n)*f)) / float64(n)
		sd := math.Sqrt(p * (1 - p) * float64(rounds))
		for id := range s.Agents() {
			if !c.Check(math.Abs(float64(hits[id])-p*float64(rounds)) <= 6*sd, "selection", "%d agents, fraction %v: %s was hit %d times of %d, expected %.0f±%.0f", n, f, id, hits[id], rounds, p*float64(rounds), 6*sd) {
				break
			}
		}
		c.Cnt("agents disrupted", int(p*float64(n))*rounds)
		c.Key("sel", n, f)
	})
}
