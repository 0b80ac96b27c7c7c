package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
)

type spy struct {
	cur core.State
	ctx core.Context
	n   int
}

func (s *spy) Propose(cur, _ core.State, ctx core.Context) (core.Action, float64) {
	s.cur, s.ctx = cur, ctx
	s.n++
	return core.Action{Type: "maintain"}, 0
}
func (*spy) Name() string { return "spy" }

// C11: an agent perceives exactly its connected neighbors.
func TestProp(t *testing.T) {
	m := Start(t, "C11", "an agent that connects to, disconnects from, re-connects and replaces up to 70 neighbors in random order (also through the neighbor map), with phases from aligned over clustered to scattered, refreshing its perception in between; a recording strategy sees what it perceives; compared with a plain map of neighbors; non-trivial when at least two neighbors are connected; distinct by the neighbor phases")
	defer m.Finish()
	m.Each("graph", m.N(12000), func(c *Case) {
		sp := &spy{}
		size, assumed := 0, 0
		opts := []agent.Option{agent.WithStrategy(sp), agent.WithStubbornness(0), agent.WithPhase(c.Phase())}
		if c.Intn(3) > 0 {
			size, assumed = c.PickI(0, 1, 2, 5, 10, 50, 100, 1000), c.PickI(0, 0, 1, 4, 8, 20, 100)
			opts = append(opts, agent.WithSwarmInfo(size, assumed))
		}
		a := agent.New("self", opts...)
		model := map[string]*agent.Agent{}
		base := c.Phase()
		spread := c.PickF(0, 0.01, 0.5, 2, 10)
		newAgent := func(id string) *agent.Agent {
			return agent.New(id, agent.WithPhase(base+(c.Float64()-0.5)*spread))
		}
		maxN := c.PickI(3, 8, 19, 20, 21, 40, 70)
		look := func(round int) bool {
			steps := c.Range(1, 2*maxN+4)
			if round > 0 {
				steps = c.Intn(6)
				if c.Intn(3) == 0 { // left alone again
					for id := range model {
						a.DisconnectFrom(id)
					}
					clear(model)
					if c.Intn(2) == 0 {
						steps = 0
					}
				}
				a.SetPhase(a.Phase() + c.PickF(0, 0.3, 2))
			}
			for range steps {
				id := fmt.Sprint("n", c.Intn(maxN))
				switch c.Intn(10) {
				case 0, 1:
					a.DisconnectFrom(id)
					delete(model, id)
				case 2:
					a.ConnectTo("self", a)
					if c.Intn(4) == 0 { // whoever else calls itself so
						a.ConnectTo("self", newAgent("self"))
					}
				case 3:
					a.ConnectTo(id, nil)
				case 4:
					// the map is the documented way to edit neighbors directly
					if _, ok := model[id]; !ok {
						n := newAgent(id)
						a.Neighbors().Store(id, n)
						model[id] = n
					}
				default:
					n := newAgent(id)
					a.ConnectTo(id, n)
					model[id] = n
				}
			}
			if !c.Check(a.NeighborCount() == len(model), "neighbor count", "%d neighbors counted, %d connected", a.NeighborCount(), len(model)) {
				return false
			}
			for i := range maxN {
				id := fmt.Sprint("n", i)
				_, want := model[id]
				c.Check(a.IsConnectedTo(id) == want, "connected", "IsConnectedTo(%s) = %v, expected %v (%d neighbors)", id, a.IsConnectedTo(id), want, len(model))
			}
			c.Check(!a.IsConnectedTo("self"), "self connection", "an agent is connected to itself")
			if c.Intn(3) == 0 { // the neighbors move after connecting
				for _, n := range model {
					n.SetPhase(n.Phase() + c.Float64()*spread)
				}
			}
			phase, goal := a.Phase(), a.LocalGoal()
			en, fr, inf := a.Energy(), a.Frequency(), a.Influence()
			before := map[string]float64{}
			for id, n := range model {
				before[id] = n.Phase()
			}
			a.UpdateContext()
			c.Check(a.Phase() == phase && a.Energy() == en && a.Frequency() == fr && a.Influence() == inf, "perceiving changes the agent", "UpdateContext changed the agent: phase %v -> %v", phase, a.Phase())
			for id, n := range model {
				c.Check(n.Phase() == before[id], "perceiving changes neighbors", "UpdateContext moved neighbor %s", id)
			}
			_, _ = a.ProposeAdjustment(core.State{Phase: 0, Frequency: time.Second, Coherence: 0.9})
			if !c.Check(sp.n == round+1, "strategy consulted", "strategy consulted %d times", sp.n) {
				return false
			}
			n := len(model)
			c.Check(sp.ctx.Neighbors == n, "perceived neighbors", "%d neighbors perceived, %d connected", sp.ctx.Neighbors, n)
			if n == 0 {
				c.Check(sp.ctx.Density == 0 && sp.ctx.LocalCoherence == 0 && a.LocalGoal() == goal, "no neighbors", "without neighbors: %+v, local goal %v -> %v", sp.ctx, goal, a.LocalGoal())
				return true
			}
			var ph []float64
			var s, k float64
			for _, x := range model {
				ph = append(ph, x.Phase())
				s += math.Sin(x.Phase())
				k += math.Cos(x.Phase())
			}
			coh := refCoherence(ph)
			c.Check(near(sp.ctx.LocalCoherence, coh, 1e-9), "perceived coherence", "local coherence %v perceived, the neighbors' phases have %v (%d neighbors)", sp.ctx.LocalCoherence, coh, n)
			c.Check(near(sp.cur.Coherence, coh, 1e-9), "current coherence", "coherence %v in the current state, the neighbors' phases have %v", sp.cur.Coherence, coh)
			maxNb := assumed
			if maxNb == 0 {
				maxNb = size - 1
			}
			c.Check(sp.ctx.Density > 0 && sp.ctx.Density <= 1, "density range", "density %v with %d neighbors, swarm %d, assumed %d", sp.ctx.Density, n, size, assumed)
			if n <= maxNb {
				c.Check(near(sp.ctx.Density, float64(n)/float64(maxNb), 1e-12), "density", "density %v with %d neighbors of at most %d", sp.ctx.Density, n, maxNb)
			}
			if coh > 1e-6 {
				mean := math.Atan2(s, k)
				d := math.Remainder(mean-phase, twoPi) // shortest way from own phase to the mean
				sh := math.Remainder(a.LocalGoal()-phase, twoPi)
				if math.Abs(d) < math.Pi-1e-6 {
					want := d * (0.5 + 0.5*coh)
					c.Check(near(sh, want, 1e-6), "local goal", "own phase %v, neighbors' mean %v (coherence %v): local goal %v, expected %v", phase, mean, coh, a.LocalGoal(), phase+want)
				}
			}
			c.Check(a.LocalGoal() >= 0 && a.LocalGoal() < twoPi, "local goal range", "local goal %v", a.LocalGoal())
			if n >= 2 {
				c.Key(n, maxN, math.Float64bits(coh))
			}
			c.Max("max neighbors", n)
			c.Cnt("neighbors perceived", n)
			c.Sample("%d neighbors, coherence %.4f, swarm %d assumed %d -> context %+v", n, coh, size, assumed, sp.ctx)
			return true
		}
		for round := range c.Range(1, 5) {
			if !look(round) {
				return
			}
		}
	})
}
