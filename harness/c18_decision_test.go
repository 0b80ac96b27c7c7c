package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/strategy"
)

// C18: decisions pick the best offer; goal blending interpolates.
func TestProp(t *testing.T) {
	m := Start(t, "C18", "lists of 0 to 8 options with random, equal, zero, tiny and negative benefits and costs, and pairs of goals with weights inside and outside [0,1]; non-trivial with at least two options of different value, or a weight strictly between 0 and 1; distinct by the inputs")
	defer m.Finish()
	m.Each("decide", m.N(80000), func(c *Case) {
		var d core.DecisionMaker = &decision.SimpleDecisionMaker{}
		if c.Intn(2) == 0 {
			d = strategy.NewSimpleDecisionMaker()
		}
		n := c.Intn(9)
		opts := make([]core.Action, n)
		for i := range opts {
			opts[i] = core.Action{Type: fmt.Sprint("option", i), Value: float64(i),
				Cost:    c.PickF(0, 0.05, 0.1, 1, 2, c.Float64()*10, 1e-9, 100),
				Benefit: c.PickF(0, 0.5, 1, 2, -1, c.Float64()*3, -c.Float64(), 1e-6, 50)}
		}
		in := append([]core.Action(nil), opts...)
		st := core.State{Phase: c.Circle(), Frequency: time.Second, Coherence: c.Unit()}
		a, conf := d.Decide(st, opts)
		c.Check(conf >= 0 && conf <= 1, "confidence", "confidence %v for %+v", conf, opts)
		for i := range in {
			c.Check(opts[i] == in[i], "options changed", "deciding changed the options")
		}
		if n == 0 {
			c.Check(a.Type == "maintain" && a.Value == 0 && a.Cost == 0, "no options", "%+v", a)
			return
		}
		score := func(x core.Action) float64 { return x.Benefit / math.Max(x.Cost, 0.1) }
		found := false
		best := math.Inf(-1)
		for _, o := range opts {
			found = found || o == a
			best = math.Max(best, score(o))
		}
		if !c.Check(found, "not an option", "chose %+v of %+v", a, opts) {
			return
		}
		c.Check(score(a) >= best-1e-9*math.Abs(best), "not the best", "chose %+v (value %v) of %+v (best %v)", a, score(a), opts, best)
		if best <= 0 {
			c.Check(conf == 0, "confidence in nothing", "confidence %v though no option has a benefit: %+v", conf, opts)
		}
		if best >= 2 {
			c.Check(conf == 1, "confidence", "confidence %v for an option worth %v", conf, best)
		}
		if best > 0 && best < 2 {
			c.Check(near(conf, best/2, 1e-9), "confidence", "confidence %v for an option worth %v", conf, best)
		}
		if n > 1 {
			c.Key(fmt.Sprint(opts))
		}
		c.Sample("%+v -> %+v, %v", opts, a, conf)
	})
	m.Each("blend", m.N(80000), func(c *Case) {
		var g goal.Manager = &goal.WeightedManager{}
		if c.Intn(2) == 0 {
			g = strategy.NewWeightedGoalManager()
		}
		p := func() float64 {
			x := c.Phase()
			if math.Abs(x) > 1e4 {
				x = math.Mod(x, 1e4)
			}
			return x
		}
		l := core.State{Phase: p(), Frequency: time.Duration(c.Int63n(1e10)), Coherence: c.Unit()}
		o := core.State{Phase: p(), Frequency: time.Duration(c.Int63n(1e10)), Coherence: c.Unit()}
		if c.Intn(5) == 0 {
			o.Phase = l.Phase + c.PickF(0, 1e-9, math.Pi/2, -math.Pi/2, 3*math.Pi/2, 3.1, -3.1, twoPi)
		}
		w := c.PickF(c.Float64(), c.Float64(), 0, 1, 0.5, -0.5, 1.5, math.Inf(1), math.Inf(-1), 100)
		e := math.Min(1, math.Max(0, w))
		b := g.Blend(l, o, w)
		d := angDist(l.Phase, o.Phase)
		c.Check(b.Phase >= 0 && b.Phase < twoPi, "phase range", "Blend(%+v, %+v, %v) has phase %v", l, o, w, b.Phase)
		c.Check(near(angDist(b.Phase, l.Phase), e*d, 1e-7), "distance from local", "Blend(%v, %v, %v) = %v: %v from local, expected %v", l.Phase, o.Phase, w, b.Phase, angDist(b.Phase, l.Phase), e*d)
		c.Check(near(angDist(b.Phase, o.Phase), (1-e)*d, 1e-7), "distance from global", "Blend(%v, %v, %v) = %v: %v from global, expected %v", l.Phase, o.Phase, w, b.Phase, angDist(b.Phase, o.Phase), (1-e)*d)
		c.Check(near(b.Coherence, l.Coherence*(1-e)+o.Coherence*e, 1e-9), "coherence", "Blend of coherences %v, %v with %v = %v", l.Coherence, o.Coherence, w, b.Coherence)
		c.Check(b.Frequency == l.Frequency, "frequency", "Blend gave frequency %v, the local one is %v", b.Frequency, l.Frequency)
		if e > 0 && e < 1 {
			c.Key("blend", math.Float64bits(l.Phase), math.Float64bits(o.Phase), math.Float64bits(w))
		}
	})
}
