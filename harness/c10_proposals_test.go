package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/strategy"
)

type fixedStrategy struct {
	act  core.Action
	conf float64
	n    int
	cur  core.State
	tgt  core.State
	ctx  core.Context
}

func (s *fixedStrategy) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	s.n++
	s.cur, s.tgt, s.ctx = cur, tgt, ctx
	return s.act, s.conf
}
func (*fixedStrategy) Name() string { return "fixed" }

type fixedDecider struct {
	pick func([]core.Action) int
	acc  float64
	opts []core.Action
}

func (d *fixedDecider) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	d.opts = append([]core.Action(nil), o...)
	return o[d.pick(o)], d.acc
}

// C10: proposals are feasible, honest and harmless.
func TestProp(t *testing.T) {
	m := Start(t, "C10", "agents with every built-in strategy, random phases, goals, energies, neighbors and global goals, asked for many proposals each, and agents with a recording strategy and decision maker; non-trivial when at least one proposal of the case was accepted; distinct by the agent's state and the accepted action. Acceptance frequencies are compared with their probability over thousands of draws (bound: 6 standard deviations)")
	defer m.Finish()

	m.Each("built-in strategies", m.N(12000), func(c *Case) {
		rate := c.Unit()
		var s core.SyncStrategy
		name := ""
		switch c.Intn(5) {
		case 0:
			s, name = strategy.NewPhaseNudge(rate), "phase nudge"
		case 1:
			s, name = strategy.NewFrequencyLock(rate), "frequency lock"
		case 2:
			s, name = strategy.NewEnergyAware(rate*50), "energy aware"
		case 3:
			s, name = strategy.NewPulse(0, rate), "pulse"
		case 4:
			s, name = strategy.NewAdaptive([]core.SyncStrategy{strategy.NewPhaseNudge(rate), strategy.NewFrequencyLock(rate)}), "adaptive"
		}
		energy := c.PickF(0, 0.05, 0.1, 1, 5, 100, c.Float64()*10)
		a := agent.New("a", agent.WithStrategy(s), agent.WithPhase(c.Phase()), agent.WithLocalGoal(c.Phase()), agent.WithEnergy(energy), agent.WithStubbornness(c.PickF(0, 0, 0.2, 0.5)))
		for i := range c.Intn(6) {
			id := fmt.Sprint("n", i)
			a.ConnectTo(id, agent.New(id, agent.WithPhase(c.Phase())))
		}
		if c.Intn(2) == 0 {
			a.UpdateContext()
		}
		goal := core.State{Phase: c.Phase(), Frequency: time.Duration(1 + c.Int63n(1e10)), Coherence: c.Unit()}
		accepted := 0
		for range 12 {
			phase, local, en, fr, inf, st, nc := a.Phase(), a.LocalGoal(), a.Energy(), a.Frequency(), a.Influence(), a.Stubbornness(), a.NeighborCount()
			act, ok := a.ProposeAdjustment(goal)
			c.Check(a.Phase() == phase && a.LocalGoal() == local && a.Energy() == en && a.Frequency() == fr && a.Influence() == inf && a.Stubbornness() == st && a.NeighborCount() == nc,
				"proposing changes the agent", "%s: ProposeAdjustment changed the agent's state", name)
			if !ok {
				c.Check(act.Type == "maintain" && act.Value == 0, "declined proposal", "%s: declined, but the action is %+v", name, act)
				continue
			}
			accepted++
			c.Check(act.Cost <= en, "unaffordable proposal", "%s: accepted %+v with energy %v", name, act, en)
			c.Check(act.Cost >= 0 && finite(act.Value) && finite(act.Cost), "malformed proposal", "%s: accepted %+v", name, act)
			applied, cost, err := a.ApplyAction(act)
			c.Check(applied && err == nil && cost == act.Cost, "inapplicable proposal", "%s: accepted %+v with energy %v, applying it gave %v, %v", name, act, en, applied, err)
			before, after := angDist(phase, local), angDist(a.Phase(), local)
			c.Check(after <= before+1e-9, "proposal away from the local goal", "%s (rate %v): accepted %+v moved the phase from %v to %v, away from the local goal %v", name, rate, act, phase, a.Phase(), local)
			if act.Type != "maintain" {
				// never past the goal: it moves by at most the distance
				c.Check(math.Abs(act.Value) <= before+1e-9, "overshoot", "%s (rate %v): %+v for a distance of %v", name, rate, act, before)
			}
			c.Key(name, math.Float64bits(phase), math.Float64bits(local), act)
			c.Sample("%s rate %.3f: phase %.3f local goal %.3f energy %.3f accepted %+v", name, rate, phase, local, en, act)
		}
		c.Cnt("proposals", 12)
		c.Cnt("proposals accepted", accepted)
	})

	// what the strategy and the decision maker are shown, and what becomes of
	// their choice
	m.Each("recorded components", m.N(8000), func(c *Case) {
		st := &fixedStrategy{act: core.Action{Type: []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "wait"}[c.Intn(6)], Value: c.Float64(), Cost: c.PickF(0, 1, 5, 10, 10.000001, 20), Benefit: 1}, conf: 1}
		which := c.Intn(2)
		dm := &fixedDecider{acc: 1, pick: func(o []core.Action) int {
			for i, x := range o {
				if (which == 0) == (x == st.act) {
					return i
				}
			}
			return 0
		}}
		a := agent.New("a", agent.WithStrategy(st), agent.WithStubbornness(0), agent.WithEnergy(10), agent.WithPhase(c.Phase()), agent.WithLocalGoal(c.Phase()))
		if c.Intn(2) == 0 {
			a.SetDecisionMaker(dm)
		} else {
			agent.WithDecisionMaker(dm)(a)
		}
		goal := core.State{Phase: c.Phase(), Frequency: time.Duration(1 + c.Int63n(1e10)), Coherence: c.Unit()}
		act, ok := a.ProposeAdjustment(goal)
		if !c.Check(st.n == 1 && len(dm.opts) > 0, "components consulted", "strategy consulted %d times, %d options decided on", st.n, len(dm.opts)) {
			return
		}
		c.Check(near(st.cur.Phase, a.Phase(), 1e-12), "current phase shown", "strategy was shown phase %v, the agent has %v", st.cur.Phase, a.Phase())
		c.Check(angDist(st.tgt.Phase, a.LocalGoal()) < 1e-9, "local goal shown", "strategy was given target %v, the local goal is %v", st.tgt.Phase, a.LocalGoal())
		c.Check(st.tgt.Frequency == a.Frequency() && st.cur.Frequency == a.Frequency(), "frequency shown", "strategy was given frequencies %v and %v, the agent's is %v", st.cur.Frequency, st.tgt.Frequency, a.Frequency())
		c.Check(st.tgt.Coherence == goal.Coherence, "coherence shown", "strategy was given coherence %v, the global goal has %v", st.tgt.Coherence, goal.Coherence)
		c.Check(st.cur.Frequency == a.Frequency(), "frequency shown", "strategy was shown frequency %v, the agent has %v", st.cur.Frequency, a.Frequency())
		hasP, hasM := false, false
		for _, o := range dm.opts {
			hasP = hasP || o == st.act
			hasM = hasM || o.Type == "maintain"
		}
		c.Check(hasP && hasM, "options", "the decision maker was offered %+v, the strategy proposed %+v", dm.opts, st.act)
		if which == 0 {
			c.Check(ok == (st.act.Cost <= 10), "verdict on the strategy's proposal", "energy 10, proposal %+v with certainty: accepted=%v", st.act, ok)
			if ok {
				c.Check(act == st.act, "returned action", "decision maker chose %+v, got %+v", st.act, act)
			}
		} else if ok {
			c.Check(act.Type == "maintain" && act.Value == 0, "returned action", "decision maker chose to maintain, got %+v", act)
		}
		c.Key("rec", which, st.act.Cost, ok, math.Float64bits(a.Phase()))
	})

	// stubbornness, confidence and acceptance are probabilities
	m.Each("frequencies", m.N(64), func(c *Case) {
		stub := []float64{0, 1, 0.2, 0.5, 0.8, 0.05, 0.95, c.Float64()}[c.I%8]
		conf := []float64{1, 0.5, 0, c.Float64()}[(c.I/8)%4]
		acc := []float64{1, c.Float64()}[(c.I/32)%2]
		st := &fixedStrategy{act: core.Action{Type: "adjust_phase", Value: 0.1, Cost: 1, Benefit: 1}, conf: conf}
		dm := &fixedDecider{acc: acc, pick: func(o []core.Action) int {
			for i, x := range o {
				if x == st.act {
					return i
				}
			}
			return 0
		}}
		a := agent.New("a", agent.WithStrategy(st), agent.WithDecisionMaker(dm), agent.WithStubbornness(stub), agent.WithEnergy(10))
		n := 6000
		k := 0
		for range n {
			if _, ok := a.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.9}); ok {
				k++
			}
		}
		p := (1 - stub) * conf * acc
		sd := math.Sqrt(p * (1 - p) * float64(n))
		c.Check(math.Abs(float64(k)-p*float64(n)) <= 6*sd+1e-9, "acceptance frequency", "stubbornness %v, confidence %v, acceptance %v: %d of %d proposals accepted, expected %.0f±%.0f", stub, conf, acc, k, n, p*float64(n), 6*sd)
		// resistance: refusing happens before the strategy is consulted or not, but never more often than stubbornness and chance allow
		c.Cnt("proposals", n)
		c.Cnt("proposals accepted", k)
		c.Key("freq", stub, conf, acc)
	})
}
