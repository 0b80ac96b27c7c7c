package verifmon

import (
	"fmt"
	"math"
	"slices"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/internal/config"
)

// seeDecider records the proposal and accepts it.
type seeDecider struct{ opts []core.Action }

func (d *seeDecider) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	d.opts = append([]core.Action(nil), o...)
	return o[0], 1
}

type ctxStrategy struct {
	ctx   core.Context
	asked int
}

func (s *ctxStrategy) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	s.ctx, s.asked = ctx, s.asked+1
	return core.Action{Type: "maintain"}, 1
}
func (*ctxStrategy) Name() string { return "ctx" }

// C33: an agent built from a configuration is what the configuration says.
func TestProp(t *testing.T) {
	m := Start(t, "C33", "random agent configurations (every component kind and unknown ones, zero and extreme values, every combination of randomization) through both constructors, the presets, and options in any order; the built agent compared with the configuration's documented meaning in state, strategy (through its proposals, compared with a reference strategy) and perception; non-trivial when the configuration is not the default; distinct by configuration")
	defer m.Finish()
	m.Each("config", m.N(20000), func(c *Case) {
		cfg := config.Agent{
			DecisionMakerType:   []string{"", "simple", "adaptive"}[c.Intn(3)],
			GoalManagerType:     []string{"", "weighted"}[c.Intn(2)],
			ResourceManagerType: []string{"", "token"}[c.Intn(2)],
			StrategyType:        []string{"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"}[c.Intn(6)],
			MaxTokens:           c.PickF(0, 1, 50, 100, 1e6),
			StrategyRate:        c.PickF(0, 0.1, 0.3, 0.5, 1, c.Float64()),
			Phase:               c.PickF(0, c.Phase()),
			LocalGoal:           c.PickF(0, c.Phase()),
			Frequency:           c.PickD(0, time.Millisecond, 50*time.Millisecond, time.Second, time.Hour),
			InitialEnergy:       c.PickF(0, 1, 20, 100, 250, c.Float64()*1000, -5),
			Influence:           c.PickF(0, 1, c.Float64(), -0.5, 1.5),
			Stubbornness:        c.PickF(0, 1, c.Float64(), -0.5, 1.5),
			SwarmSize:           c.PickI(0, 1, 2, 20, 100, 101, 1000),
			AssumedMaxNeighbors: c.PickI(0, 0, 1, 5, 30),
			RandomizePhase:      c.Intn(3) == 0, RandomizeLocalGoal: c.Intn(3) == 0, RandomizeFrequency: c.Intn(3) == 0,
		}
		bad := false
		if c.Intn(6) == 0 {
			which := c.Intn(4)
			name := []string{"x", "Simple", "phase-nudge", " ", "tokens", "PULSE", "weighted ", "default", "none", "random"}[c.Intn(10)]
			if c.Intn(2) == 0 { // a type of another component
				known := [][]string{{"simple", "adaptive"}, {"weighted"}, {"token"}, {"phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"}}
				other := known[(which+c.Range(1, 3))%4]
				if o := other[c.Intn(len(other))]; !slices.Contains(known[which], o) {
					name = o
				}
			}
			*[]*string{&cfg.DecisionMakerType, &cfg.GoalManagerType, &cfg.ResourceManagerType, &cfg.StrategyType}[which] = name
			bad = true
		}
		kept := cfg
		opt := c.Intn(2) == 1
		id := fmt.Sprint("agent", c.I)
		var a *agent.Agent
		var err error
		if opt {
			a, err = agent.NewOptimizedFromConfig(id, cfg)
		} else {
			a, err = agent.NewFromConfig(id, cfg)
		}
		if !c.Check((err != nil) == bad && (a == nil) == bad, "accepted", "%+v: %v", cfg, err) || bad {
			c.Key(cfg)
			return
		}
		c.Check(cfg == kept && a.ID == id && a.NeighborCount() == 0, "identity", "%+v: ID %q, %d neighbors", cfg, a.ID, a.NeighborCount())
		// state
		if cfg.RandomizePhase {
			c.Check(a.Phase() >= 0 && a.Phase() < twoPi, "phase", "%+v: %v", cfg, a.Phase())
		} else {
			c.Check(angDist(a.Phase(), cfg.Phase) < 1e-6+1e-15*math.Abs(cfg.Phase) && a.Phase() >= 0 && a.Phase() < twoPi, "phase", "%v configured, %v built", cfg.Phase, a.Phase())
		}
		if cfg.RandomizeLocalGoal || cfg.LocalGoal == 0 {
			c.Check(a.LocalGoal() >= 0 && a.LocalGoal() < twoPi, "local goal", "%+v: %v", cfg, a.LocalGoal())
		} else {
			c.Check(angDist(a.LocalGoal(), cfg.LocalGoal) < 1e-6+1e-15*math.Abs(cfg.LocalGoal), "local goal", "%v configured, %v built", cfg.LocalGoal, a.LocalGoal())
		}
		f := a.Frequency()
		switch {
		case cfg.RandomizeFrequency:
			c.Check(f >= 50*time.Millisecond && f <= 150*time.Millisecond, "frequency", "random: %v", f)
		case cfg.Frequency != 0:
			c.Check(f == cfg.Frequency, "frequency", "%v configured, %v built", cfg.Frequency, f)
		default:
			c.Check(f == 100*time.Millisecond, "frequency", "default: %v", f)
		}
		def := func(v, d float64) float64 {
			if v == 0 {
				return d
			}
			return v
		}
		clamp := func(v float64) float64 { return math.Max(0, math.Min(1, v)) }
		c.Check(a.Energy() == math.Max(0, def(cfg.InitialEnergy, 100)), "energy", "%v configured, %v built", cfg.InitialEnergy, a.Energy())
		c.Check(a.Influence() == clamp(def(cfg.Influence, 0.5)), "influence", "%v configured, %v built", cfg.Influence, a.Influence())
		c.Check(a.Stubbornness() == clamp(def(cfg.Stubbornness, 0.2)), "stubbornness", "%v configured, %v built", cfg.Stubbornness, a.Stubbornness())

		// strategy, seen through what it proposes
		d := &seeDecider{}
		a.SetDecisionMaker(d)
		a.SetStubbornness(0)
		a.SetEnergy(1e9)
		ph, lg := a.Phase(), a.LocalGoal()
		g := core.State{Phase: c.Circle(), Frequency: time.Second, Coherence: c.Unit()}
		_, _ = a.ProposeAdjustment(g)
		cur := core.State{Phase: ph, Frequency: f}
		tgt := core.State{Phase: lg, Frequency: f, Coherence: g.Coherence}
		var ref core.SyncStrategy
		switch cfg.StrategyType {
		case "", "phase_nudge":
			ref = &strategy.PhaseNudge{Rate: def(cfg.StrategyRate, 0.7)}
		case "frequency_lock":
			ref = &strategy.FrequencyLock{SyncRate: def(cfg.StrategyRate, 0.5)}
		case "energy_aware":
			ref = &strategy.EnergyAware{Threshold: def(cfg.StrategyRate, 20)}
		case "adaptive":
			ref = strategy.NewAdaptive([]core.SyncStrategy{&strategy.PhaseNudge{Rate: 0.3}, &strategy.FrequencyLock{SyncRate: 0.5}})
		case "pulse":
			// between pulses it keeps still, right after construction in any case
			ref = nil
		}
		if c.Check(len(d.opts) == 2, "decision", "%+v: %d options", cfg, len(d.opts)) && ref != nil {
			want, _ := ref.Propose(cur, tgt, core.Context{})
			got := d.opts[0]
			c.Check(got.Type == want.Type && near(got.Value, want.Value, 1e-9) && near(got.Cost, want.Cost, 1e-9) && near(got.Benefit, want.Benefit, 1e-9), "strategy", "%q with rate %v at %v for %v: proposes %+v instead of %+v", cfg.StrategyType, cfg.StrategyRate, ph, lg, got, want)
		}
		if ref == nil && len(d.opts) == 2 {
			c.Check(d.opts[0].Type == "maintain" || d.opts[0].Type == "pulse", "strategy", "%q proposes %+v", cfg.StrategyType, d.opts[0])
		}

		// perceived density is relative to what the agent was told of its swarm
		s := &ctxStrategy{}
		agent.WithStrategy(s)(a)
		k := c.Range(1, 40)
		for i := range k {
			n := agent.New(fmt.Sprint("n", i))
			a.ConnectTo(n.ID, n)
		}
		a.UpdateContext()
		_, _ = a.ProposeAdjustment(g)
		most := 0
		if cfg.SwarmSize > 0 {
			most = cfg.AssumedMaxNeighbors
			if most == 0 {
				most = cfg.SwarmSize - 1
				if opt && cfg.SwarmSize > 100 {
					most = 20
				}
			}
		}
		want := float64(k) / float64(max(most, k))
		c.Check(s.asked == 1 && near(s.ctx.Density, want, 1e-12) && s.ctx.Neighbors == k, "perceived density", "swarm of %d, at most %d, optimized %v: %d neighbors perceived as %+v instead of density %v", cfg.SwarmSize, cfg.AssumedMaxNeighbors, opt, k, s.ctx, want)
		c.Key(cfg)
		c.Sample("%+v", cfg)
	})

	m.Each("presets", m.N(2000), func(c *Case) {
		a, err := agent.NewFromConfig("a", config.DefaultAgent())
		if c.Check(err == nil, "preset", "%v", err) {
			c.Check(a.Phase() == 0 && near(a.LocalGoal(), math.Pi, 1e-12) && a.Frequency() == 100*time.Millisecond && a.Energy() == 100 && a.Influence() == 0.5 && a.Stubbornness() == 0.2, "default preset", "%v %v %v %v", a.Phase(), a.LocalGoal(), a.Frequency(), a.Energy())
		}
		n := c.Range(1, 2500)
		sc := config.AutoScaleConfig(n)
		if c.Intn(2) == 0 {
			sc = config.ForBatching(n, time.Duration(c.Range(1, 5000))*time.Millisecond)
		}
		b, err := agent.NewFromConfig("b", config.AgentFromSwarm(sc))
		if c.Check(err == nil, "swarm preset", "%v", err) {
			c.Check(b.Energy() == sc.InitialEnergy && b.Influence() == sc.InfluenceDefault && b.Stubbornness() == sc.Stubbornness, "swarm preset", "energy %v influence %v stubbornness %v for %+v", b.Energy(), b.Influence(), b.Stubbornness(), sc)
			d := &seeDecider{}
			b.SetDecisionMaker(d)
			b.SetStubbornness(0)
			_, _ = b.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.9})
			w, _ := (&strategy.PhaseNudge{Rate: sc.CouplingStrength}).Propose(core.State{Phase: b.Phase(), Frequency: b.Frequency()}, core.State{Phase: b.LocalGoal(), Frequency: b.Frequency(), Coherence: 0.9}, core.Context{})
			c.Check(len(d.opts) == 2 && d.opts[0].Type == w.Type && near(d.opts[0].Value, w.Value, 1e-9), "swarm preset coupling", "coupling %v: %+v instead of %+v", sc.CouplingStrength, d.opts, w)
		}
		r, err := agent.NewFromConfig("r", config.RandomizedAgent())
		if c.Check(err == nil, "randomized preset", "%v", err) {
			c.Check(r.Frequency() >= 50*time.Millisecond && r.Frequency() <= 150*time.Millisecond && r.Energy() == 100, "randomized preset", "%v %v", r.Frequency(), r.Energy())
		}
		x, err := agent.NewFromConfig("t", agent.TestAgentConfig())
		if c.Check(err == nil && agent.TestAgentConfig() == config.TestAgent(), "test preset", "%v", err) {
			c.Check(x.Phase() == 0 && x.Frequency() == 50*time.Millisecond && x.Influence() == 0.8 && x.Stubbornness() == 0.01, "test preset", "%v %v", x.Frequency(), x.Influence())
		}
		c.Key(n, sc.CouplingStrength)
	})

	// randomized values are spread out, not one value for all
	m.Each("spread", m.N(40), func(c *Case) {
		var ph, lg []float64
		freq := map[time.Duration]bool{}
		const n = 400
		for i := range n {
			var a *agent.Agent
			if c.I%2 == 0 {
				a, _ = agent.NewFromConfig(fmt.Sprint(i), config.RandomizedAgent())
			} else {
				a = agent.New(fmt.Sprint(i), agent.WithRandomPhase(), agent.WithRandomLocalGoal(), agent.WithRandomFrequency())
			}
			ph, lg = append(ph, a.Phase()), append(lg, a.LocalGoal())
			freq[a.Frequency()] = true
		}
		for _, l := range [][]float64{ph, lg} {
			q := [8]int{}
			for _, x := range l {
				q[int(x/twoPi*8)&7]++
			}
			for i, k := range q {
				c.Check(k >= 15 && k <= 110, "spread", "%d of %d random phases in octant %d", k, n, i)
			}
			c.Check(refCoherence(l) < 0.25, "spread", "random phases have coherence %v", refCoherence(l))
		}
		lo, hi := time.Hour, time.Duration(0)
		for f := range freq {
			lo, hi = min(lo, f), max(hi, f)
		}
		c.Check(lo >= 100*time.Millisecond && lo <= 105*time.Millisecond && hi >= 145*time.Millisecond && hi <= 150*time.Millisecond, "spread", "random frequencies from %v to %v", lo, hi)
		c.Check(len(freq) > 30, "spread", "%d different frequencies of %d", len(freq), n)
		c.Key(c.I)
	})

	// options: the last one of a kind wins, those of different kinds do not interfere
	m.Each("options", m.N(8000), func(c *Case) {
		type st struct {
			ph, lg, en, in, sb float64
			fr                 time.Duration
		}
		var w st
		set := [6]bool{}
		var opts []agent.Option
		var log string
		for range c.Range(1, 12) {
			switch k := c.Intn(6); k {
			case 0:
				x := c.Phase()
				w.ph, set[0] = x, true
				opts = append(opts, agent.WithPhase(x))
				log += fmt.Sprintf("p%v ", x)
			case 1:
				x := c.Phase()
				w.lg, set[1] = x, true
				opts = append(opts, agent.WithLocalGoal(x))
				log += fmt.Sprintf("g%v ", x)
			case 2:
				x := c.PickF(0, 1, 77, -3, 1e6)
				w.en, set[2] = math.Max(0, x), true
				opts = append(opts, agent.WithEnergy(x))
				log += fmt.Sprintf("e%v ", x)
			case 3:
				x := c.PickF(0, 1, c.Float64(), -1, 2)
				w.in, set[3] = math.Max(0, math.Min(1, x)), true
				opts = append(opts, agent.WithInfluence(x))
				log += fmt.Sprintf("i%v ", x)
			case 4:
				x := c.PickF(0, 1, c.Float64(), -1, 2)
				w.sb, set[4] = math.Max(0, math.Min(1, x)), true
				opts = append(opts, agent.WithStubbornness(x))
				log += fmt.Sprintf("s%v ", x)
			case 5:
				x := time.Duration(c.Int63n(int64(time.Minute)))
				w.fr, set[5] = x, true
				opts = append(opts, agent.WithFrequency(x))
				log += fmt.Sprintf("f%v ", x)
			}
		}
		a := agent.New("a", opts...)
		c.Check(!set[0] || angDist(a.Phase(), w.ph) < 1e-6+1e-15*math.Abs(w.ph), "option phase", "%s: %v", log, a.Phase())
		c.Check(!set[1] || angDist(a.LocalGoal(), w.lg) < 1e-6+1e-15*math.Abs(w.lg), "option goal", "%s: %v", log, a.LocalGoal())
		c.Check(set[2] && a.Energy() == w.en || !set[2] && a.Energy() == 100, "option energy", "%s: %v", log, a.Energy())
		c.Check(set[3] && a.Influence() == w.in || !set[3] && a.Influence() == 0.1, "option influence", "%s: %v", log, a.Influence())
		c.Check(set[4] && a.Stubbornness() == w.sb || !set[4] && a.Stubbornness() == 0.2, "option stubbornness", "%s: %v", log, a.Stubbornness())
		c.Check(!set[5] || a.Frequency() == w.fr, "option frequency", "%s: %v", log, a.Frequency())
		c.Key(log)
	})
}
