package verifmon

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

// C22: coherence limits and scale presets are ordered and consistent.
func TestProp(t *testing.T) {
	m := Start(t, "C22", "every swarm size from -5 to 3000 (and larger ones) crossed with coherence targets on a grid of 0.005 plus the limits themselves and their neighbors; every scale and every agent count; non-trivial for positive sizes and targets in (0,1]; distinct by size and target")
	defer m.Finish()
	m.Each("limits", 3006+10, func(c *Case) {
		n := c.I - 5
		if c.I > 3005 {
			n = []int{5000, 10000, 50000, 100000, 1000000, math.MaxInt32, 4000, 7777, 12345, 999999}[c.I-3006]
		}
		l := swarm.GetCoherenceLimits(n)
		if n <= 0 {
			c.Check(l.Theoretical == 0 && l.Practical == 0 && l.Recommended == 0, "no agents", "limits for %d agents: %+v", n, l)
			return
		}
		c.Check(l.Recommended > 0 && l.Recommended <= l.Practical && l.Practical <= l.Theoretical && l.Theoretical <= 1, "limit order", "%d agents: %+v", n, l)
		if n > 2 {
			p := swarm.GetCoherenceLimits(n - 1)
			c.Check(p.Theoretical <= l.Theoretical && p.Practical <= l.Practical && p.Recommended <= l.Recommended, "limit growth", "%d agents %+v, %d agents %+v", n-1, p, n, l)
		}
		var ts []float64
		for k := 0; k <= 200; k++ {
			ts = append(ts, float64(k)/200)
		}
		for _, x := range []float64{l.Recommended, l.Practical, l.Theoretical, 0.8 * l.Practical, 0.9 * l.Practical, 0.95 * l.Practical} {
			ts = append(ts, math.Nextafter(x, 0), x, math.Nextafter(x, 2))
		}
		lastT, lastF := math.Inf(-1), 0.0
		_ = lastT
		for i, x := range ts {
			adj, warn := swarm.ValidateCoherenceTarget(n, x)
			c.Check(adj <= l.Theoretical && adj <= x, "target adjusted", "%d agents, target %v adjusted to %v (limits %+v)", n, x, adj, l)
			if x > l.Theoretical {
				c.Check(adj == l.Theoretical, "target lowered", "%d agents, target %v lowered to %v (limits %+v)", n, x, adj, l)
			}
			if x <= l.Theoretical {
				c.Check(adj == x, "target kept", "%d agents, target %v adjusted to %v", n, x, adj)
			}
			c.Check((warn == "") == (x <= l.Recommended), "warning", "%d agents, target %v: warning %q (limits %+v)", n, x, warn, l)
			f := swarm.GetConvergenceTimeFactor(n, x)
			c.Check(f >= 1 && !math.IsNaN(f), "time factor", "%d agents, target %v: factor %v", n, x, f)
			c.Check(math.IsInf(f, 1) == (x > l.Practical), "time factor beyond the limit", "%d agents, target %v: factor %v (limits %+v)", n, x, f, l)
			if i > 0 && i <= 200 {
				c.Check(f >= lastF, "time factor order", "%d agents: target %v has factor %v, a lower target %v", n, x, f, lastF)
			}
			lastF = f
			if x > 0 {
				c.Key(n, x)
			}
			c.Cnt("targets", 1)
		}
		c.Check(swarm.GetConvergenceTimeFactor(n, 0.1) == 1, "easy target", "%d agents, target 0.1: factor %v", n, swarm.GetConvergenceTimeFactor(n, 0.1))
		c.Check(swarm.GetConvergenceTimeFactor(n, l.Practical) > 1, "hard target", "%d agents, target %v: factor %v", n, l.Practical, swarm.GetConvergenceTimeFactor(n, l.Practical))
	})
	m.Each("minimum", 2001, func(c *Case) {
		x := float64(c.I) / 2000
		n := swarm.GetMinimumSwarmSize(x)
		c.Check(n >= 2, "minimum size", "target %v needs %d agents", x, n)
		if c.I > 0 {
			c.Check(n >= swarm.GetMinimumSwarmSize(float64(c.I-1)/2000), "minimum size order", "target %v needs %d agents, fewer than a lower target", x, n)
		}
		// the recommended size can really reach the target
		if lim := swarm.GetCoherenceLimits(n); x <= 0.99 && x > 0 {
			c.Check(lim.Theoretical >= x || x < 0.85, "minimum size reaches", "target %v: %d agents can reach at most %v", x, n, lim.Theoretical)
		}
		c.Key("min", x)
	})
	m.Each("scales", 2500, func(c *Case) {
		all := []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
		s := scale.FromCount(c.I)
		found := false
		for i, x := range all {
			found = found || x == s
			if i == 0 {
				continue
			}
			p := all[i-1]
			c.Check(x.DefaultAgentCount() > p.DefaultAgentCount(), "scale agents", "%v has %d agents, %v %d", x, x.DefaultAgentCount(), p, p.DefaultAgentCount())
			c.Check(x.DefaultTargetCoherence() <= p.DefaultTargetCoherence(), "scale coherence", "%v targets %v, %v %v", x, x.DefaultTargetCoherence(), p, p.DefaultTargetCoherence())
			c.Check(x.DefaultUpdateIntervalMs() >= p.DefaultUpdateIntervalMs() && x.UpdateInterval() >= p.UpdateInterval(), "scale interval", "%v updates every %d ms, %v every %d", x, x.DefaultUpdateIntervalMs(), p, p.DefaultUpdateIntervalMs())
			c.Check(x.DefaultConvergenceTimeFactor() >= p.DefaultConvergenceTimeFactor(), "scale time", "%v", x)
			c.Check(x.String() != p.String() && x.String() != "unknown", "scale name", "%v", x)
		}
		c.Check(found, "scale of count", "%d agents are of the unknown scale %v", c.I, s)
		if c.I > 0 {
			c.Check(s >= scale.FromCount(c.I-1), "scale order", "%d agents are %v, %d agents %v", c.I, s, c.I-1, scale.FromCount(c.I-1))
			// the scale is the smallest that holds that many agents
			want := scale.Huge
			for i := len(all) - 1; i >= 0; i-- {
				if c.I <= all[i].DefaultAgentCount() {
					want = all[i]
				}
			}
			c.Check(s == want, "scale of count", "%d agents are %v, expected %v", c.I, s, want)
		}
		for _, x := range all {
			c.Check(scale.FromCount(x.DefaultAgentCount()) == x, "scale round trip", "%v has %d agents, which are %v", x, x.DefaultAgentCount(), scale.FromCount(x.DefaultAgentCount()))
			n := x.DefaultAgentCount()
			c.Check(x.DefaultTargetCoherence() > 0 && x.DefaultTargetCoherence() <= swarm.GetCoherenceLimits(n).Recommended, "scale target reachable", "%v targets %v with %d agents", x, x.DefaultTargetCoherence(), n)
			c.Check(x.MaxNeighbors() >= 1 && x.MaxNeighbors() < n, "scale neighbors", "%v: %d", x, x.MaxNeighbors())
			c.Check(x.DefaultUpdateIntervalMs() > 0 && x.UpdateInterval() > 0 && x.DefaultConvergenceTimeFactor() > 0, "scale positive", "%v", x)
		}
		c.Key("scale", c.I)
	})
}
