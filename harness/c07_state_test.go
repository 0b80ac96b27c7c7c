package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/internal/resource"
)

type agentModel struct {
	phase, goal, energy, infl, stub float64
	freq                            time.Duration
}

func readAgent(a *agent.Agent) agentModel {
	return agentModel{a.Phase(), a.LocalGoal(), a.Energy(), a.Influence(), a.Stubbornness(), a.Frequency()}
}

func clamp01(x float64) float64 { return math.Min(1, math.Max(0, x)) }

func (c *Case) agentScalar() float64 {
	switch c.Intn(6) {
	case 0:
		return c.PickF(0, 1, -1, 2, math.Copysign(0, -1), 1e-300, math.Nextafter(1, 2), math.Nextafter(1, 0), math.Nextafter(0, -1), math.Inf(1), math.Inf(-1), 0.5)
	case 1:
		return (c.Float64() - 0.5) * 10
	default:
		return c.Float64()
	}
}

func (c *Case) energyValue() float64 {
	switch c.Intn(5) {
	case 0:
		return c.PickF(0, -1, -1e-9, 1e-9, 100, 1e12, math.Copysign(0, -1), -1e12)
	default:
		return (c.Float64() - 0.2) * 200
	}
}

func agree(c *Case, a *agent.Agent, w agentModel, what string) {
	g := readAgent(a)
	ok := g.phase >= 0 && g.phase < twoPi && g.goal >= 0 && g.goal < twoPi && g.energy >= 0 && inUnit(g.infl) && inUnit(g.stub)
	c.Check(ok, "out of range after "+what, "%s left the agent at %+v", what, g)
	c.Check(angDist(g.phase, w.phase) <= 1e-9+math.Abs(w.phase)*1e-15 || math.Abs(w.phase) > 1e14, "phase after "+what, "%s: phase %v, expected %v", what, g.phase, w.phase)
	c.Check(angDist(g.goal, w.goal) <= 1e-9+math.Abs(w.goal)*1e-15 || math.Abs(w.goal) > 1e14, "local goal after "+what, "%s: local goal %v, expected %v", what, g.goal, w.goal)
	c.Check(g.energy == w.energy, "energy after "+what, "%s: energy %v, expected %v", what, g.energy, w.energy)
	c.Check(g.infl == w.infl, "influence after "+what, "%s: influence %v, expected %v", what, g.infl, w.infl)
	c.Check(g.stub == w.stub, "stubbornness after "+what, "%s: stubbornness %v, expected %v", what, g.stub, w.stub)
	c.Check(g.freq == w.freq, "frequency after "+what, "%s: frequency %v, expected %v", what, g.freq, w.freq)
}

// C07: what is set is what is read, in range, and nothing else changes.
func TestProp(t *testing.T) {
	m := Start(t, "C07", "agents built with random option lists, then random sequences of setter calls with in-range, out-of-range and special values, compared after every call with a record of plain fields; non-trivial when at least one value had to be clamped or wrapped; distinct by the operation sequence")
	defer m.Finish()
	m.Each("sequence", m.N(20000), func(c *Case) {
		var opts []agent.Option
		type chg func(*agentModel)
		var apply []chg
		trace := ""
		clamped := false
		add := func(name string, v any, o agent.Option, f chg) {
			trace += fmt.Sprintf("%s(%v) ", name, v)
			opts = append(opts, o)
			apply = append(apply, f)
		}
		for range c.Intn(7) {
			switch c.Intn(7) {
			case 0:
				v := c.Phase()
				clamped = clamped || v < 0 || v >= twoPi
				add("WithPhase", v, agent.WithPhase(v), func(w *agentModel) { w.phase = v })
			case 1:
				v := c.Phase()
				add("WithLocalGoal", v, agent.WithLocalGoal(v), func(w *agentModel) { w.goal = v })
			case 2:
				v := c.energyValue()
				clamped = clamped || v < 0
				add("WithEnergy", v, agent.WithEnergy(v), func(w *agentModel) { w.energy = math.Max(0, v) })
			case 3:
				v := c.agentScalar()
				add("WithInfluence", v, agent.WithInfluence(v), func(w *agentModel) { w.infl = clamp01(v) })
			case 4:
				v := c.agentScalar()
				add("WithStubbornness", v, agent.WithStubbornness(v), func(w *agentModel) { w.stub = clamp01(v) })
			case 5:
				v := time.Duration(1 + c.Int63n(int64(time.Minute)))
				add("WithFrequency", v, agent.WithFrequency(v), func(w *agentModel) { w.freq = v })
			case 6:
				v := c.Float64() * 500
				add("WithResourceManager", v, agent.WithResourceManager(resource.NewTokenManager(v)), func(w *agentModel) { w.energy = v })
			}
		}
		// what the options leave untouched is random: learn it from an agent
		// whose untouched fields we read back, then hold it to that
		a := agent.New(fmt.Sprintf("agent-%d", c.I), opts...)
		c.Check(a.ID == fmt.Sprintf("agent-%d", c.I), "id", "agent has ID %q", a.ID)
		w := readAgent(a)
		c.Check(a.NeighborCount() == 0, "fresh neighbors", "a fresh agent has %d neighbors", a.NeighborCount())
		c.Check(w.freq > 0, "fresh frequency", "a fresh agent has frequency %v", w.freq)
		for _, f := range apply {
			f(&w)
		}
		agree(c, a, w, "construction")

		// random options draw in-range values
		if c.Intn(4) == 0 {
			r := agent.New("r", agent.WithRandomPhase(), agent.WithRandomLocalGoal(), agent.WithRandomFrequency())
			g := readAgent(r)
			c.Check(g.phase >= 0 && g.phase < twoPi && g.goal >= 0 && g.goal < twoPi && g.freq > 0 && g.energy > 0, "random options", "%+v", g)
		}

		n := 1 + c.Intn(25)
		for range n {
			name := ""
			switch c.Intn(6) {
			case 0:
				v := c.Phase()
				clamped = clamped || v < 0 || v >= twoPi
				a.SetPhase(v)
				w.phase, name = v, "SetPhase"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			case 1:
				v := c.Phase()
				clamped = clamped || v < 0 || v >= twoPi
				a.SetLocalGoal(v)
				w.goal, name = v, "SetLocalGoal"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			case 2:
				v := c.energyValue()
				clamped = clamped || v < 0
				a.SetEnergy(v)
				w.energy, name = math.Max(0, v), "SetEnergy"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			case 3:
				v := c.agentScalar()
				clamped = clamped || v < 0 || v > 1
				a.SetInfluence(v)
				w.infl, name = clamp01(v), "SetInfluence"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			case 4:
				v := c.agentScalar()
				clamped = clamped || v < 0 || v > 1
				a.SetStubbornness(v)
				w.stub, name = clamp01(v), "SetStubbornness"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			case 5:
				v := time.Duration(1 + c.Int63n(int64(time.Hour)))
				a.SetFrequency(v)
				w.freq, name = v, "SetFrequency"
				trace += fmt.Sprintf("%s(%v) ", name, v)
			}
			agree(c, a, w, name)
			c.Cnt("setter calls", 1)
		}
		if clamped {
			c.Key(trace)
		}
		c.Sample("%s", trace)
	})
}
