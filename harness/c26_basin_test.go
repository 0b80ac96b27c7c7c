package verifmon

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/emerge"
)

// C26: attractor basins pull every state inside toward their target.
func TestProp(t *testing.T) {
	m := Start(t, "C26", "basins of any strength and radius and states in any representation, at the centre, at the rim, just inside and outside; membership, force, rate and adjustment are compared with their definitions, and adjustments are iterated; non-trivial when the state was inside; distinct by basin and state")
	defer m.Finish()
	m.Each("basin", m.N(150000), func(c *Case) {
		tp := (c.Float64()*2 - 1) * 30
		if c.Intn(3) == 0 {
			tp = c.Circle()
		}
		st := c.PickF(0, 1, -0.5, 1.5, 0.3, c.Float64(), c.Float64()*4-1)
		r := c.PickF(0, math.Pi, 0.1, 1, math.Pi/2, 10, c.Float64()*math.Pi, c.Float64()*math.Pi)
		tgt := core.State{Phase: tp, Frequency: time.Duration(c.Range(0, 500)) * time.Millisecond, Coherence: 0.9}
		b := emerge.NewAttractorBasin(tgt, st, r)
		e := math.Max(0, math.Min(1, st))
		var ph float64
		switch c.Intn(6) {
		case 0:
			ph = tp
		case 1:
			ph = tp + math.Pi
		case 2:
			ph = tp + r*c.PickF(1, -1)*(1+(c.Float64()-0.5)*1e-3)
		default:
			ph = tp + (c.Float64()*2-1)*math.Pi
		}
		x := core.State{Phase: ph + twoPi*float64(c.Range(-3, 3)), Frequency: time.Duration(c.Range(0, 500)) * time.Millisecond, Coherence: c.Unit()}
		if x.Frequency == 0 && tgt.Frequency == 0 {
			x.Frequency = time.Millisecond
		}
		d := angDist(x.Phase, tp)
		what := func() any { return []any{"target", tp, "strength", st, "radius", r, "state", x.Phase, "distance", d} }
		c.Check(near(b.DistanceToTarget(x), d, 1e-9), "distance", "%v: %v", what(), b.DistanceToTarget(x))
		rim := math.Abs(d-r) < 1e-9
		if !rim {
			c.Check(b.IsInBasin(x) == (d < r), "membership", "%v: %v", what(), b.IsInBasin(x))
		}
		f := b.AttractionForce(x)
		c.Check(f >= -1e-12 && f <= e+1e-9, "force range", "%v: %v", what(), f)
		wf := 0.0
		if d < r {
			wf = e * (1 - d/r)
		}
		if !rim || r > 1e-6 {
			c.Check(near(f, wf, 1e-6), "force", "%v: force %v, by definition %v", what(), f, wf)
		}
		if r == 0 && ph == tp && x.Phase == tp {
			c.Check(near(f, e, 1e-9), "force of a point basin", "%v: %v", what(), f)
		}
		cr := b.ConvergenceRate(x)
		al := 1 - math.Abs(float64(x.Frequency-tgt.Frequency))/math.Max(float64(x.Frequency), float64(tgt.Frequency))
		c.Check(cr >= -1e-12 && cr <= f+1e-9 && near(cr, wf*al, 1e-6), "rate", "%v: rate %v, by definition %v", what(), cr, wf*al)
		a := b.OptimalAdjustment(x)
		c.Check(finite(a) && math.Abs(a) <= d+1e-9, "overshoot", "%v: adjustment %v", what(), a)
		c.Check(angDist(x.Phase+a, tp) <= d+1e-9, "away", "%v: adjustment %v", what(), a)
		if d > 1e-6 && d < math.Pi-1e-6 {
			c.Check(a != 0, "no adjustment", "%v", what())
		}
		if f > 0 && !rim && r > 0 {
			c.Check(near(math.Abs(a), d*wf, 1e-6), "adjustment", "%v: %v, by definition %v", what(), a, d*wf)
		} else if !rim && f == 0 {
			c.Check(near(math.Abs(a), d*0.01, 1e-6), "guidance outside", "%v: %v", what(), a)
		}
		// following the advice leads to the target
		if d < r && e > 0.2 && c.Intn(8) == 0 && r > 0.05 && d < 0.9*r {
			y := x
			for range 4000 {
				y.Phase += b.OptimalAdjustment(y)
			}
			c.Check(angDist(y.Phase, tp) < 1e-3, "not attracted", "%v: still %v away after following the advice", what(), angDist(y.Phase, tp))
			c.Cnt("trajectories followed", 1)
		}
		if d < r {
			c.Key(tp, st, r, x.Phase)
		}
		c.Sample("target %.3f strength %.2f radius %.3f state %.3f: force %.3f adjustment %.4f", tp, st, r, x.Phase, f, a)
	})
	// distances that are exact in floating point: the rim itself belongs to the basin
	m.Each("rim", m.N(6000), func(c *Case) {
		tp, r, ph := 0.0, 0.0, 0.0
		switch c.Intn(3) {
		case 0: // target at zero, so the distance is the phase itself
			r = c.PickF(math.Pi/2, 1, 0.1, 3, c.Float64()*3.14, c.Float64()*3.14)
			ph = r * c.PickF(1, -1)
		case 1: // binary fractions
			tp = float64(c.Range(-24, 24)) / 8
			r = float64(c.Range(1, 24)) / 8
			ph = tp + r*c.PickF(1, -1)
		default: // the opposite point
			r, ph = math.Pi, math.Pi*c.PickF(1, -1)
		}
		e := c.PickF(1, 0.5, 0.25)
		b := emerge.NewAttractorBasin(core.State{Phase: tp, Frequency: time.Second}, e, r)
		x := core.State{Phase: ph, Frequency: time.Second}
		dist := b.DistanceToTarget(x)
		c.Check(near(dist, r, 1e-12), "rim distance", "target %v state %v: distance %v", tp, ph, dist)
		if dist != r { // rounded differently: not a case of the rim
			return
		}
		c.Check(b.IsInBasin(x), "rim membership", "target %v radius %v state %v is exactly at the radius but not in the basin", tp, r, ph)
		c.Check(near(b.AttractionForce(x), 0, 1e-12) && near(b.ConvergenceRate(x), 0, 1e-12), "rim force", "target %v radius %v state %v: force %v rate %v", tp, r, ph, b.AttractionForce(x), b.ConvergenceRate(x))
		a := b.OptimalAdjustment(x)
		c.Check(a != 0 && near(math.Abs(a), 0.01*r, 1e-9), "rim guidance", "target %v radius %v state %v: adjustment %v", tp, r, ph, a)
		y := x
		y.Phase = tp + (ph-tp)*0.999
		c.Check(b.IsInBasin(y) && b.AttractionForce(y) > 0, "inside the rim", "target %v radius %v state %v", tp, r, y.Phase)
		y.Phase = tp + (ph-tp)*1.001
		if r < 3.1 {
			c.Check(!b.IsInBasin(y) && b.AttractionForce(y) == 0, "outside the rim", "target %v radius %v state %v", tp, r, y.Phase)
		}
		c.Key("rim", tp, r, ph)
	})
}
