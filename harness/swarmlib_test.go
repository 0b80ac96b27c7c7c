package verifmon

import (
	"context"
	"math"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

// virtual runs fn in virtual time: sleeps and tickers cost nothing and the
// verdict cannot depend on the speed of the machine.
func virtual(t *testing.T, fn func()) {
	synctest.Test(t, func(*testing.T) { fn() })
}

func sortedAgents(s *swarm.Swarm) []*agent.Agent {
	m := s.Agents()
	ids := make([]string, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	out := make([]*agent.Agent, 0, len(ids))
	for _, id := range ids {
		out = append(out, m[id])
	}
	return out
}

func swarmPhases(s *swarm.Swarm) []float64 {
	var out []float64
	for _, a := range sortedAgents(s) {
		out = append(out, a.Phase())
	}
	return out
}

func refMean(ph []float64) float64 {
	var s, k float64
	for _, p := range ph {
		s += math.Sin(p)
		k += math.Cos(p)
	}
	return math.Atan2(s, k)
}

var arrangements = []string{"random", "antipode", "two opposite clusters", "evenly spread", "at target", "nearly opposite", "several turns off", "one outlier"}

// arrange sets the agents' initial phases to a hostile arrangement.
func (c *Case) arrange(s *swarm.Swarm, target float64, kind int) {
	ags := sortedAgents(s)
	n := len(ags)
	off := c.Circle()
	for i, a := range ags {
		switch kind {
		case 0:
			a.SetPhase(c.Float64() * twoPi)
		case 1:
			a.SetPhase(target + math.Pi)
		case 2:
			a.SetPhase(off + math.Pi*float64(i%2))
		case 3:
			a.SetPhase(off + twoPi*float64(i)/float64(n))
		case 4:
			a.SetPhase(target)
		case 5:
			a.SetPhase(target + math.Pi + (c.Float64()-0.5)*0.4)
		case 6:
			a.SetPhase(c.Float64()*twoPi + twoPi*float64(c.Range(-4, 4)))
		case 7:
			a.SetPhase(target)
			if i == 0 {
				a.SetPhase(target + math.Pi)
			}
		}
	}
}

// tolerance the run's configuration grants at this size and target.
func runTolerance(cfg *swarm.Config, n int, target float64) float64 {
	t := cfg.Convergence.ToleranceLarge
	if n < 10 {
		t = cfg.Convergence.ToleranceSmall
	} else if n < 50 {
		t = cfg.Convergence.ToleranceMedium
	}
	if target >= 0.95*swarm.GetCoherenceLimits(n).Practical {
		t *= 2
	}
	return t
}

// refDefault is the documented default configuration.
func refDefault() *swarm.Config {
	return &swarm.Config{
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.015, ToleranceMedium: 0.008, ToleranceLarge: 0.005,
			PhaseConvergenceGoal: 0.85, PatternDistanceThreshold: 0.1, BaseAdjustmentScale: 0.65},
		Thresholds: swarm.ThresholdConfig{PhaseVariance: 0.5, HighCoherence: 0.9, VeryHighCoherence: 0.92, ModerateCoherence: 0.85},
		Variation: swarm.VariationConfig{BaseRange: [2]float64{0.15, 0.30}, CoherenceFactor: 0.2, RandomWalkMagnitude: 0.1,
			PerturbationMagnitude: 0.08, PerturbationChance: 0.15},
		Strategy: swarm.StrategyConfig{MaxIterationsFactor: 200, UpdateInterval: 100 * time.Millisecond, ExplorationBonusMax: 0.3,
			ExplorationTimeWindow: time.Minute, RandomExploration: 0.1},
		Resonance: swarm.ResonanceConfig{NoiseMagnitude: 0.5, AffectedAgents: 0.1, ActivationRate: 0.1},
	}
}

// refPhaseConvergence is 1 minus the mean distance to the target over π.
func refPhaseConvergence(ph []float64, target float64) float64 {
	sum := 0.0
	for _, p := range ph {
		sum += angDist(p, target)
	}
	return 1 - sum/float64(len(ph))/math.Pi
}

// runVirtual runs a swarm and reports how long it took in virtual time.
func runVirtual(s *swarm.Swarm, limit time.Duration) (error, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	t0 := time.Now()
	err := s.Run(ctx)
	return err, time.Since(t0)
}

func pickGoalState(c *Case, n int, lo, hi float64) core.State {
	return core.State{
		Phase:     c.PickF(0, math.Pi, math.Pi/2, 3*math.Pi/2, c.Float64()*twoPi, c.Float64()*twoPi),
		Frequency: c.PickD(20*time.Millisecond, 100*time.Millisecond, 137*time.Millisecond, 250*time.Millisecond, time.Second, 10*time.Second),
		Coherence: lo + (hi-lo)*c.Float64(),
	}
}
