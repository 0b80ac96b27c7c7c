package verifmon

import (
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
)

func validGoalConfig(c swarm.Config) bool {
	in := func(x float64) bool { return x >= 0 && x <= 1 }
	return in(c.Convergence.BaseAdjustmentScale) && in(c.Convergence.PhaseConvergenceGoal) &&
		c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence && c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence &&
		c.Variation.BaseRange[0] >= 0 && c.Variation.BaseRange[1] >= c.Variation.BaseRange[0] && in(c.Variation.PerturbationChance) &&
		c.Strategy.UpdateInterval > 0 && c.Strategy.ExplorationTimeWindow > 0 && in(c.Resonance.AffectedAgents) && in(c.Resonance.ActivationRate)
}

// C20: goal configurations are valid whatever tuning they went through, and
// only valid ones are accepted.
func TestProp(t *testing.T) {
	m := Start(t, "C20", "every goal (and unknown ones) with chains of up to 10 trait tunings and sizings; single fields of valid configurations replaced by out-of-range, boundary, not-a-number and infinite values; validation and swarm construction compared with an independent reading of the documented ranges; tuning compared with its documented direction; non-trivial when the configuration differs from its preset; distinct by goal, chain or corrupted field")
	defer m.Finish()
	allGoals := []goal.Type{0, 1, 2, 3, 4, 5, 6, 7, 8, -1}
	traits := []trait.Target{trait.Stability, trait.Speed, trait.Efficiency, trait.Throughput, trait.Resilience, trait.Precision}
	m.Each("chains", m.N(40000), func(c *Case) {
		g := allGoals[c.Intn(len(allGoals))]
		cfg := swarm.For(g)
		var chain []int
		steps, only := c.Intn(11), -1
		if c.Intn(20) == 0 { // far longer than anybody would, often with one trait only
			steps = c.Range(30, 150)
			only = c.Intn(8)
		}
		for range steps {
			before := *cfg
			var after *swarm.Config
			k := c.Intn(7)
			if only >= 0 && only < 6 {
				k = only
			}
			if k < 6 {
				after = cfg.TuneFor(traits[k])
				chain = append(chain, k)
				c.direction(traits[k], before, *after, len(chain) == 1)
			} else {
				n := c.PickI(1, 10, 20, 21, 50, 51, 200, 201, 1000, 1001, 2000, 100000, 0, -1)
				after = cfg.WithSize(n)
				chain = append(chain, 100+n)
			}
			cfg = after
			if !c.Check(validGoalConfig(*cfg), "invalid after tuning", "goal %v, chain %v: %+v", g, chain, *cfg) {
				return
			}
			if err := cfg.Validate(); !c.Check(err == nil, "valid configuration refused", "goal %v, chain %v: %v", g, chain, err) {
				return
			}
		}
		for _, x := range []float64{cfg.Convergence.ToleranceSmall, cfg.Convergence.ToleranceMedium, cfg.Convergence.ToleranceLarge, cfg.Convergence.PatternDistanceThreshold, cfg.Strategy.MaxIterationsFactor} {
			c.Check(x > 0 && finite(x) || steps > 10, "tolerance lost", "goal %v, chain %v: %+v", g, chain, *cfg)
		}
		// presets are not shared
		c.Check(reflect.DeepEqual(swarm.For(g), swarm.For(g)) && swarm.For(g) != swarm.For(g), "preset shared", "goal %v", g)
		p := swarm.For(g)
		if len(chain) > 0 {
			c.Key(g, chain)
		}
		c.Check(validGoalConfig(*p), "invalid preset", "%v", g)
		c.Sample("goal %v, chain %v: interval %v, tolerance %v", g, chain, cfg.Strategy.UpdateInterval, cfg.Convergence.ToleranceLarge)
	})

	type field struct {
		name string
		get  func(*swarm.Config) any
	}
	fields := []field{
		{"BaseAdjustmentScale", func(c *swarm.Config) any { return &c.Convergence.BaseAdjustmentScale }},
		{"PhaseConvergenceGoal", func(c *swarm.Config) any { return &c.Convergence.PhaseConvergenceGoal }},
		{"ModerateCoherence", func(c *swarm.Config) any { return &c.Thresholds.ModerateCoherence }},
		{"HighCoherence", func(c *swarm.Config) any { return &c.Thresholds.HighCoherence }},
		{"VeryHighCoherence", func(c *swarm.Config) any { return &c.Thresholds.VeryHighCoherence }},
		{"BaseRange[0]", func(c *swarm.Config) any { return &c.Variation.BaseRange[0] }},
		{"BaseRange[1]", func(c *swarm.Config) any { return &c.Variation.BaseRange[1] }},
		{"PerturbationChance", func(c *swarm.Config) any { return &c.Variation.PerturbationChance }},
		{"AffectedAgents", func(c *swarm.Config) any { return &c.Resonance.AffectedAgents }},
		{"ActivationRate", func(c *swarm.Config) any { return &c.Resonance.ActivationRate }},
		{"UpdateInterval", func(c *swarm.Config) any { return &c.Strategy.UpdateInterval }},
		{"ExplorationTimeWindow", func(c *swarm.Config) any { return &c.Strategy.ExplorationTimeWindow }},
	}
	m.Each("corrupted", m.N(20000), func(c *Case) {
		cfg := swarm.For(allGoals[c.Intn(len(allGoals))])
		k := 1
		if c.Intn(4) == 0 {
			k = 2
		}
		name := ""
		for range k {
			f := fields[c.Intn(len(fields))]
			name += f.name + " "
			switch p := f.get(cfg).(type) {
			case *float64:
				*p = c.PickF(-1, -1e-9, math.Nextafter(0, -1), 0, 1, math.Nextafter(1, 2), 1.5, 100, math.NaN(), math.Inf(1), math.Inf(-1), c.Float64(), c.Float64())
			case *time.Duration:
				*p = c.PickD(-1, 0, 1, -time.Hour, time.Hour, time.Millisecond)
			}
		}
		want := validGoalConfig(*cfg)
		err := cfg.Validate()
		c.Check((err == nil) == want, "validation of "+name, "%s: Validate says %v for %+v", name, err, *cfg)
		if c.Intn(10) == 0 {
			s, err := swarm.New(3, core.State{Frequency: time.Second, Coherence: 0.7}, swarm.WithGoalConfig(cfg))
			c.Check((err == nil) == want && (s != nil) == want, "construction with "+name, "%s: New says %v for %+v", name, err, *cfg)
		}
		c.Key(name, *cfg)
		if want {
			c.Cnt("valid after change", 1)
		} else {
			c.Cnt("invalid after change", 1)
		}
	})

	// size adjustments: documented thresholds
	m.Each("sizes", 2300, func(c *Case) {
		n := c.I
		for _, g := range allGoals {
			a, b := swarm.For(g), swarm.For(g).WithSize(n)
			switch {
			case n <= 20:
				c.Check(b.Convergence.ToleranceSmall == 0.020 && b.Convergence.ToleranceMedium == 0.020 && b.Convergence.ToleranceLarge == 0.020 && b.Strategy.UpdateInterval == 20*time.Millisecond && b.Variation.BaseRange == [2]float64{0.05, 0.10}, "tiny", "goal %v, %d agents: %+v", g, n, *b)
			case n <= 50:
				c.Check(b.Convergence.ToleranceSmall == 0.015 && b.Convergence.ToleranceMedium == 0.015 && b.Convergence.ToleranceLarge == 0.015 && b.Variation.BaseRange[0] <= a.Variation.BaseRange[0] && b.Variation.BaseRange[1] <= a.Variation.BaseRange[1] && b.Strategy.UpdateInterval <= 50*time.Millisecond, "small", "goal %v, %d agents: %+v", g, n, *b)
			case n <= 200:
				c.Check(*a == *b, "medium", "goal %v, %d agents: %+v", g, n, *b)
			case n <= 1000:
				c.Check(b.Convergence.ToleranceSmall > a.Convergence.ToleranceSmall && b.Convergence.ToleranceMedium > a.Convergence.ToleranceMedium && b.Convergence.ToleranceLarge > a.Convergence.ToleranceLarge && b.Strategy.UpdateInterval >= a.Strategy.UpdateInterval && b.Variation.BaseRange[1] >= a.Variation.BaseRange[1] && b.Strategy.UpdateInterval >= 150*time.Millisecond && b.Strategy.MaxIterationsFactor > a.Strategy.MaxIterationsFactor, "large", "goal %v, %d agents: %+v", g, n, *b)
			default:
				c.Check(b.Convergence.ToleranceSmall > a.Convergence.ToleranceSmall && b.Convergence.ToleranceMedium > a.Convergence.ToleranceMedium && b.Convergence.ToleranceLarge > a.Convergence.ToleranceLarge && b.Strategy.UpdateInterval >= a.Strategy.UpdateInterval && b.Variation.BaseRange[1] >= a.Variation.BaseRange[1] && b.Strategy.UpdateInterval >= 200*time.Millisecond && b.Strategy.MaxIterationsFactor > a.Strategy.MaxIterationsFactor && b.Resonance.AffectedAgents <= 0.05, "huge", "goal %v, %d agents: %+v", g, n, *b)
			}
		}
		c.Key(n)
	})

	// goals: names and keys are unique, recommendations follow the documentation
	m.Each("goals", 2300, func(c *Case) {
		n := c.I
		names, keys := map[string]bool{}, map[string]bool{}
		for g := goal.Type(0); g < 8; g++ {
			c.Check(!names[g.String()] && !keys[g.ShortKey()] && g.String() != goal.Type(99).String(), "ambiguous goal", "%v %v", g, g.ShortKey())
			names[g.String()], keys[g.ShortKey()] = true, true
		}
		want := []bool{true, n >= 20, n >= 50 && n <= 1000, n <= 200, n <= 200, true, n >= 20, n >= 20 && n <= 1000}
		for g := goal.Type(0); g < 8; g++ {
			c.Check(g.IsRecommendedForSize(n) == want[g], "recommendation", "%v for %d agents: %v", g, n, g.IsRecommendedForSize(n))
		}
		tn := map[string]bool{}
		for x := trait.Target(0); x < 6; x++ {
			c.Check(!tn[x.String()] && x.String() != "unknown", "ambiguous trait", "%v", x)
			tn[x.String()] = true
		}
		c.Key("goals", n)
	})
}

// direction checks the documented effect of a trait: what it promises to lower
// never rises and the other way round, and the first tuning of a preset moves
// each of them, unless it is at its end already.
func (c *Case) direction(t trait.Target, a, b swarm.Config, first bool) {
	ok := true
	step := func(x, y, end float64) bool { // from x towards end
		return x == y && (!first || x == end || x == 0) || (x < y) == (x < end) && x != y
	}
	up := func(x, y float64) bool { return step(x, y, math.Inf(1)) }
	down := func(x, y float64) bool { return step(x, y, 0) }
	slower := func() bool {
		return up(float64(a.Strategy.UpdateInterval), float64(b.Strategy.UpdateInterval)) || b.Strategy.UpdateInterval == math.MaxInt64
	}
	faster := func() bool {
		return down(float64(a.Strategy.UpdateInterval), float64(b.Strategy.UpdateInterval)) || b.Strategy.UpdateInterval == 1
	}
	scale := func() bool { return step(a.Convergence.BaseAdjustmentScale, b.Convergence.BaseAdjustmentScale, 1) }
	switch t {
	case trait.Stability: // gentler, slower
		ok = down(a.Convergence.BaseAdjustmentScale, b.Convergence.BaseAdjustmentScale) && slower() && down(a.Resonance.NoiseMagnitude, b.Resonance.NoiseMagnitude) && down(a.Variation.PerturbationMagnitude, b.Variation.PerturbationMagnitude)
	case trait.Speed: // faster, looser
		ok = scale() && faster() && up(a.Convergence.ToleranceSmall, b.Convergence.ToleranceSmall) && up(a.Convergence.ToleranceMedium, b.Convergence.ToleranceMedium) && up(a.Convergence.ToleranceLarge, b.Convergence.ToleranceLarge) && down(a.Strategy.MaxIterationsFactor, b.Strategy.MaxIterationsFactor)
	case trait.Efficiency: // fewer updates and perturbations
		ok = slower() && down(a.Variation.PerturbationChance, b.Variation.PerturbationChance) && down(a.Resonance.AffectedAgents, b.Resonance.AffectedAgents) && down(a.Strategy.ExplorationBonusMax, b.Strategy.ExplorationBonusMax)
	case trait.Throughput:
		ok = scale() && faster()
	case trait.Resilience: // more variation and noise
		ok = up(a.Variation.BaseRange[0], b.Variation.BaseRange[0]) && up(a.Variation.BaseRange[1], b.Variation.BaseRange[1]) && up(a.Resonance.NoiseMagnitude, b.Resonance.NoiseMagnitude) && step(a.Resonance.AffectedAgents, b.Resonance.AffectedAgents, 1) && step(a.Resonance.ActivationRate, b.Resonance.ActivationRate, 1)
	case trait.Precision: // tighter
		ok = down(a.Convergence.ToleranceSmall, b.Convergence.ToleranceSmall) && down(a.Convergence.ToleranceMedium, b.Convergence.ToleranceMedium) && down(a.Convergence.ToleranceLarge, b.Convergence.ToleranceLarge) && down(a.Convergence.PatternDistanceThreshold, b.Convergence.PatternDistanceThreshold) &&
			(b.Convergence.PhaseConvergenceGoal > a.Convergence.PhaseConvergenceGoal || a.Convergence.PhaseConvergenceGoal >= 0.95 && (!first || b.Convergence.PhaseConvergenceGoal >= 0.95) || !first && b.Convergence.PhaseConvergenceGoal >= math.Min(a.Convergence.PhaseConvergenceGoal, 0.98)-1e-12)
	}
	c.Check(ok, "direction of "+t.String(), "tuning for %v made %+v of %+v", t, b, a)
}
