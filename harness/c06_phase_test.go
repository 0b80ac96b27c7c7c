package verifmon

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

// C06: phase arithmetic and goal-state normalization.
func TestProp(t *testing.T) {
	m := Start(t, "C06", "pairs of phases from a bank of special values, several turns, random and huge magnitudes; a case is non-trivial when at least one phase lies outside (0,2π) or the pair is closer than 1e-6 or farther than π-1e-6; distinct by the bit patterns")
	defer m.Finish()
	m.Each("pairs", m.N(300000), func(c *Case) {
		a, b := c.Phase(), c.Phase()
		if c.Intn(6) == 0 {
			b = a + c.PickF(0, math.Pi, -math.Pi, twoPi, math.Pi/2, -math.Pi/2, 3*math.Pi/2, 1e-9, -1e-9, math.Pi-1e-9, math.Pi+1e-9)
		}
		phaseCase(c, a, b)
	})
	m.Each("state", m.N(40000), stateCase)
	// the special values against each other, completely
	nsp := len(specialPhases)
	m.Each("special", nsp*nsp, func(c *Case) {
		phaseCase(c, specialPhases[c.I/nsp], specialPhases[c.I%nsp])
	})
	// multiples of π/4, completely
	m.Each("grid", 65*65, func(c *Case) {
		phaseCase(c, float64(c.I/65-32)*math.Pi/4, float64(c.I%65-32)*math.Pi/4)
	})
}

// A goal state is accepted exactly when it is well formed; normalizing repairs
// what can be repaired and leaves the rest alone.
func stateCase(c *Case) {
	coh := c.Unit()
	switch c.Intn(6) {
	case 0:
		coh = c.PickF(-0.1, 1.1, math.NaN(), math.Inf(1), math.Inf(-1), -1e-12, 1+1e-12, -5, 7)
	}
	ph := c.Phase()
	if c.Intn(8) == 0 {
		ph = c.PickF(math.NaN(), math.Inf(1), math.Inf(-1))
	}
	fr := time.Duration(c.Int63n(int64(20 * time.Second)))
	if c.Intn(5) == 0 {
		fr = c.PickD(0, -1, 1, -time.Second, math.MaxInt64, math.MinInt64)
	}
	s := core.State{Phase: ph, Frequency: fr, Coherence: coh}
	in := s
	ok := fr > 0 && coh >= 0 && coh <= 1 && finite(ph)
	err := s.Validate()
	c.Check((err == nil) == ok, "validate", "Validate(%+v) = %v", in, err)
	c.Check(s == in || math.IsNaN(ph) || math.IsNaN(coh), "validate mutates", "Validate changed %+v into %+v", in, s)
	err = s.NormalizeAndValidate()
	repairable := finite(ph) && !math.IsNaN(coh)
	c.Check((err == nil) == repairable, "normalize verdict", "NormalizeAndValidate(%+v) = %v", in, err)
	if err == nil {
		c.Check(s.Phase >= 0 && s.Phase < twoPi && s.Coherence >= 0 && s.Coherence <= 1 && s.Frequency > 0, "normalize range", "%+v normalized to %+v", in, s)
		if tol := 1e-9 + math.Abs(ph)*1e-15; tol < 0.5 {
			c.Check(angDist(s.Phase, ph) <= tol, "normalize phase", "%+v normalized to %+v, another phase", in, s)
		}
		c.Check(s.Coherence == math.Min(1, math.Max(0, coh)), "normalize coherence", "%+v normalized to %+v", in, s)
		if fr > 0 {
			c.Check(s.Frequency == fr, "normalize frequency", "%+v normalized to %+v", in, s)
		}
	}
	if !ok || ph != core.WrapPhase(ph) {
		c.Key("state", math.Float64bits(ph), fr, math.Float64bits(coh))
	}
}

func phaseCase(c *Case, a, b float64) {
	w := core.WrapPhase(a)
	c.Check(w >= 0 && w < twoPi, "wrap range", "WrapPhase(%v) = %v outside [0,2π)", a, w)
	// same point of the circle (2π itself is only known to about 2.5e-16 relative)
	tol := 1e-9 + math.Abs(a)*1e-15
	if tol < 0.5 {
		c.Check(angDist(w, a) <= tol, "wrap point", "WrapPhase(%v) = %v is another point of the circle (off by %v)", a, w, angDist(w, a))
	}
	c.Check(angDist(core.WrapPhase(w), w) <= 1e-12, "wrap idempotent", "WrapPhase(WrapPhase(%v)) = %v, not %v", a, core.WrapPhase(w), w)
	if a >= 0 && a < twoPi {
		c.Check(near(w, a, 1e-12) || angDist(w, a) <= 1e-12 && (a < 1e-12 || a > twoPi-1e-12), "wrap fixes", "WrapPhase(%v) = %v moved a normalized phase", a, w)
	}
	if a != w || angDist(a, b) < 1e-6 || angDist(a, b) > math.Pi-1e-6 {
		c.Key(math.Float64bits(a), math.Float64bits(b))
	}

	d := core.PhaseDifference(a, b)
	c.Check(d >= -math.Pi && d <= math.Pi, "diff range", "PhaseDifference(%v,%v) = %v outside [-π,π]", a, b, d)
	tol = 1e-9 + (math.Abs(a)+math.Abs(b))*1e-15
	if tol < 0.5 {
		// moving from b by the difference lands on a
		c.Check(angDist(b+d, a) <= tol, "diff lands", "PhaseDifference(%v,%v) = %v: b+d is %v away from a", a, b, d, angDist(b+d, a))
		c.Check(near(math.Abs(d), angDist(a, b), tol), "diff shortest", "|PhaseDifference(%v,%v)| = %v, the shortest arc is %v", a, b, math.Abs(d), angDist(a, b))
		e := core.PhaseDifference(b, a)
		if math.Abs(d) < math.Pi-tol {
			c.Check(near(d, -e, tol), "diff antisymmetric", "PhaseDifference(%v,%v) = %v but reversed %v", a, b, d, e)
		} else {
			c.Check(near(math.Abs(d), math.Abs(e), tol), "diff antisymmetric", "PhaseDifference(%v,%v) = %v but reversed %v", a, b, d, e)
		}
		dw := core.PhaseDifference(core.WrapPhase(a), core.WrapPhase(b))
		if math.Abs(d) < math.Pi-tol {
			c.Check(near(d, dw, tol), "diff representation", "PhaseDifference(%v,%v) = %v but %v for the normalized phases", a, b, d, dw)
		} else {
			c.Check(near(math.Abs(d), math.Abs(dw), tol), "diff representation", "PhaseDifference(%v,%v) = %v but %v for the normalized phases", a, b, d, dw)
		}
	}
	c.Sample("a=%v b=%v wrap=%v diff=%v", a, b, w, d)
}
