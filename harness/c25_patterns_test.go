package verifmon

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/internal/emerge"
)

// the two pattern libraries behind one face
type gapT struct {
	start, end int
	dur        time.Duration
}
type tpat interface {
	amp() float64
	period() time.Duration
	conf() float64
	phases() []float64
	detect() []gapT
	complete(gapT) []float64
	sim(tpat) float64
}
type monPat struct{ *monitoring.TargetPattern }
type intPat struct{ *emerge.TargetPattern }

func (p monPat) amp() float64          { return p.Amplitude }
func (p monPat) period() time.Duration { return p.Period }
func (p monPat) conf() float64         { return p.Confidence }
func (p monPat) phases() []float64     { return p.Phases }
func (p monPat) detect() (o []gapT) {
	for _, g := range p.Detect() {
		o = append(o, gapT{g.StartIdx, g.EndIdx, g.Duration})
	}
	return
}
func (p monPat) complete(g gapT) []float64 {
	return p.Complete(monitoring.PatternGap{StartIdx: g.start, EndIdx: g.end})
}
func (p monPat) sim(q tpat) float64 {
	if q == nil {
		return p.Similarity(nil)
	}
	return p.Similarity(q.(monPat).TargetPattern)
}
func (p intPat) amp() float64          { return p.Amplitude }
func (p intPat) period() time.Duration { return p.Period }
func (p intPat) conf() float64         { return p.Confidence }
func (p intPat) phases() []float64     { return p.Phases }
func (p intPat) detect() (o []gapT) {
	for _, g := range p.Detect() {
		o = append(o, gapT{g.StartIdx, g.EndIdx, g.Duration})
	}
	return
}
func (p intPat) complete(g gapT) []float64 {
	return p.Complete(emerge.PatternGap{StartIdx: g.start, EndIdx: g.end})
}
func (p intPat) sim(q tpat) float64 {
	if q == nil {
		return p.Similarity(nil)
	}
	return p.Similarity(q.(intPat).TargetPattern)
}

// C25: recorded patterns: gaps, completion, similarity and identification.
func TestProp(t *testing.T) {
	m := Start(t, "C25", "patterns of 0..40 phases (smooth, jumping, several turns) with fewer, as many or more frequencies, for both pattern libraries; gaps, interpolations over any index range, similarities and library identification are compared with their definitions; non-trivial when there was a gap or a pair to compare; distinct by pattern")
	defer m.Finish()
	mk := func(which int, ph []float64, fr []time.Duration) tpat {
		if which == 0 {
			return monPat{monitoring.NewTargetPattern(ph, fr)}
		}
		return intPat{emerge.NewTargetPattern(ph, fr)}
	}
	gen := func(c *Case, n int) ([]float64, []time.Duration) {
		ph := make([]float64, n)
		p := c.Circle()
		kind := c.Intn(6)
		for i := range ph {
			switch kind {
			case 4: // constant
			case 5: // tiny or huge values
				p = c.Float64() * 0.01
				if i%2 == 0 && n%2 == 0 {
					p *= 1e4
				}
			case 0:
				p += c.Float64() * 0.5
			case 1:
				p += (c.Float64() - 0.5) * 2 * math.Pi
			case 2:
				p = c.Circle()
			default:
				p = (c.Float64()*2 - 1) * 20
			}
			ph[i] = p
		}
		fr := make([]time.Duration, max(0, c.PickI(n, n, n-1, n+2, 0, c.Intn(n+1))))
		for i := range fr {
			fr[i] = time.Duration(c.Range(1, 1000)) * time.Millisecond
		}
		return ph, fr
	}
	cp := func(x []float64) []float64 { return append([]float64(nil), x...) }

	m.Each("pattern", m.N(40000), func(c *Case) {
		which := c.Intn(2)
		ph, fr := gen(c, c.Range(0, 40))
		keep := cp(ph)
		p := mk(which, ph, fr)
		// description
		var tot time.Duration
		for _, f := range fr {
			tot += f
		}
		wp := time.Duration(0)
		if len(fr) > 0 {
			wp = tot / time.Duration(len(fr))
		}
		wa, mean := 0.0, 0.0
		if len(ph) >= 2 {
			for _, x := range ph {
				mean += math.Mod(math.Mod(x, twoPi)+twoPi, twoPi) / float64(len(ph))
			}
			for _, x := range ph {
				d := math.Mod(math.Mod(x, twoPi)+twoPi, twoPi) - mean
				wa += d * d / float64(len(ph))
			}
			wa = math.Sqrt(wa)
		}
		c.Check(p.period() == wp, "period", "frequencies %v: period %v, their mean is %v", fr, p.period(), wp)
		c.Check(near(p.amp(), wa, 1e-6), "amplitude", "phases %v: amplitude %v, by definition %v", ph, p.amp(), wa)
		c.Check(p.conf() == 1, "confidence", "%v", p.conf())
		// gaps: exactly the jumps of more than a quarter turn
		var want []gapT
		unsure := false
		for i := 1; i < len(ph); i++ {
			d := angDist(ph[i], ph[i-1])
			if math.Abs(d-math.Pi/2) < 1e-9 {
				unsure = true
			}
			if d > math.Pi/2 {
				g := gapT{start: i - 1, end: i}
				if i-1 < len(fr) {
					g.dur = fr[i-1]
				}
				want = append(want, g)
			}
		}
		got := p.detect()
		if !unsure {
			ok := len(got) == len(want)
			for i := range want {
				ok = ok && got[i] == want[i]
			}
			c.Check(ok, "gaps", "phases %v, frequencies %v: gaps %v, expected %v", ph, fr, got, want)
		}
		c.Cnt("gaps", len(want))
		// completion over any range
		for range 4 {
			g := gapT{start: c.Range(-2, len(ph)+1), end: c.Range(-2, len(ph)+1)}
			out := p.complete(g)
			if g.start < 0 || g.end >= len(ph) || g.start >= g.end {
				c.Check(out == nil, "invalid gap", "gap %v of %d phases completed to %v", g, len(ph), out)
				continue
			}
			k := g.end - g.start - 1
			if !c.Check(len(out) == k, "completion length", "gap %v completed to %v", g, out) {
				continue
			}
			d := angDist(ph[g.end], ph[g.start])
			for i, x := range out {
				f := float64(i+1) / float64(k+1)
				c.Check(x >= 0 && x < twoPi && near(angDist(x, ph[g.start]), f*d, 1e-6) && near(angDist(x, ph[g.end]), (1-f)*d, 1e-6), "completion", "gap %v from %v to %v: value %d is %v", g, ph[g.start], ph[g.end], i, x)
			}
			c.Cnt("values interpolated", k)
		}
		for i := range keep {
			if ph[i] != keep[i] {
				c.Fail("input changed", "phases changed from %v to %v", keep, ph)
				break
			}
		}
		if len(want) > 0 {
			c.Key(which, ph)
		}
		c.Sample("%d phases, %d frequencies: %d gaps", len(ph), len(fr), len(want))
	})

	refSim := func(a, b tpat) (float64, bool) {
		pa, pb := a.phases(), b.phases()
		if len(pa) == 0 || len(pb) == 0 {
			return 0, true
		}
		if max(a.period(), b.period()) <= 0 {
			return 0, false // patterns without a period cannot be compared (the project's own tests rely on it)
		}
		as := 1.0
		if a.amp() != b.amp() {
			as = 1 - math.Min(1, math.Abs(a.amp()-b.amp())/math.Max(a.amp(), b.amp()))
		}
		ps := 1 - math.Min(1, math.Abs(float64(a.period()-b.period()))/float64(max(a.period(), b.period())))
		s := 0.0
		if len(pa) == len(pb) {
			ma, mb := 0.0, 0.0
			for i := range pa {
				s += (1 - angDist(pa[i], pb[i])/math.Pi) / float64(len(pa))
				ma, mb = math.Max(ma, math.Abs(pa[i])), math.Max(mb, math.Abs(pb[i]))
			}
			if ma > 0 && mb > 0 && math.Max(ma/mb, mb/ma) > 100 {
				// raw values more than a hundredfold apart count for less
				s /= math.Min(10, math.Max(ma/mb, mb/ma)/100)
			}
		}
		return 0.3*as + 0.3*ps + 0.4*s, true
	}

	m.Each("similarity", m.N(40000), func(c *Case) {
		which := c.Intn(2)
		n := c.Range(0, 20)
		ph, fr := gen(c, n)
		a := mk(which, ph, fr)
		q, f2 := cp(ph), append([]time.Duration(nil), fr...)
		switch c.Intn(4) {
		case 0:
		case 1:
			for i := range q {
				q[i] += (c.Float64() - 0.5)
			}
		case 2:
			q, f2 = gen(c, n)
		default:
			q, f2 = gen(c, c.Range(0, 20))
		}
		b := mk(which, q, f2)
		c.Check(a.sim(nil) == 0, "similarity to nothing", "%v", a.sim(nil))
		w, def := refSim(a, b)
		if !def {
			return
		}
		s := a.sim(b)
		c.Check(s >= -1e-9 && s <= 1+1e-9, "similarity range", "%v", s)
		c.Check(near(s, w, 1e-6), "similarity", "phases %v and %v, periods %v and %v: similarity %v, by definition %v", ph, q, a.period(), b.period(), s, w)
		c.Check(near(s, b.sim(a), 1e-9), "symmetry", "%v one way, %v the other", s, b.sim(a))
		if _, d := refSim(a, a); d && n > 0 {
			c.Check(near(a.sim(a), 1, 1e-9), "similarity to itself", "phases %v: %v", ph, a.sim(a))
		}
		if n > 0 {
			c.Key(which, ph, q)
		}
	})

	m.Each("library", m.N(6000), func(c *Case) {
		which := c.Intn(2)
		n := c.Range(2, 8)
		var pats []tpat
		for range c.Range(0, 6) {
			ph, _ := gen(c, n)
			fr := []time.Duration{time.Duration(c.Range(1, 1000)) * time.Millisecond}
			pats = append(pats, mk(which, ph, fr))
		}
		ph, _ := gen(c, n)
		if len(pats) > 0 && c.Intn(2) == 0 { // all templates are near each other
			base, _ := gen(c, n)
			near := func() ([]float64, []time.Duration) {
				x, amt := append([]float64(nil), base...), c.PickF(0, 0.01, 0.1, 0.3)
				for i := range x {
					x[i] += amt * (c.Float64() - 0.5)
				}
				return x, []time.Duration{time.Duration(c.Range(480, 520)) * time.Millisecond}
			}
			for i := range pats {
				x, fr := near()
				pats[i] = mk(which, x, fr)
			}
			ph, _ = near()
		}
		q := mk(which, ph, []time.Duration{time.Duration(c.Range(480, 520)) * time.Millisecond})
		best, at := 0.0, -1
		sims := make([]float64, len(pats))
		for i, p := range pats {
			sims[i] = p.sim(q)
			if sims[i] > best {
				best, at = sims[i], i
			}
			if math.IsNaN(sims[i]) {
				return
			}
		}
		tol := c.PickF(0, c.Unit(), c.Unit(), 0.1*c.Unit())
		if c.Intn(4) == 0 && len(pats) > 0 {
			q = pats[c.Intn(len(pats))]
			best, at = 0, -1
			for i, p := range pats {
				if sims[i] = p.sim(q); sims[i] > best {
					best, at = sims[i], i
				}
			}
		}
		// template i has up to three variations among the other patterns
		vars := make([][]int, len(pats))
		for i := range vars {
			for range c.Intn(4) {
				vars[i] = append(vars[i], c.Intn(len(pats)))
			}
		}
		var name string
		var got float64
		var matches []bool
		if which == 0 {
			l := monitoring.NewPatternLibrary()
			for i, p := range pats {
				tm := &monitoring.PatternTemplate{Name: string(rune('a' + i)), BasePattern: *p.(monPat).TargetPattern, Tolerance: tol}
				for _, v := range vars[i] {
					tm.Variations = append(tm.Variations, *pats[v].(monPat).TargetPattern)
				}
				l.Add(tm.Name, tm)
				matches = append(matches, tm.Matches(q.(monPat).TargetPattern))
			}
			name, got = l.Identify(q.(monPat).TargetPattern)
		} else {
			l := emerge.NewPatternLibrary()
			for i, p := range pats {
				tm := &emerge.PatternTemplate{Name: string(rune('a' + i)), BasePattern: *p.(intPat).TargetPattern, Tolerance: tol}
				for _, v := range vars[i] {
					tm.Variations = append(tm.Variations, *pats[v].(intPat).TargetPattern)
				}
				l.Add(tm.Name, tm)
				matches = append(matches, tm.Matches(q.(intPat).TargetPattern))
			}
			name, got = l.Identify(q.(intPat).TargetPattern)
		}
		if at < 0 {
			c.Check(name == "" && got == 0, "identified nothing", "%q %v", name, got)
		} else {
			c.Check(got == best && len(name) == 1 && sims[int(name[0]-'a')] == best, "identification", "similarities %v: identified %q with %v", sims, name, got)
			c.Key(which, sims)
		}
		for i, mt := range matches {
			w, unsure := false, false
			for _, v := range append([]int{i}, vars[i]...) {
				if sims[v] == 1 && tol == 0 {
					c.Check(mt, "match of itself", "template %d has similarity 1 and does not match", i)
				}
				w = w || sims[v] >= 1-tol
				unsure = unsure || math.Abs(sims[v]-(1-tol)) < 1e-9
			}
			if !unsure {
				c.Check(mt == w, "match", "template %d with variations %v, similarities %v, tolerance %v: %v", i, vars[i], sims, tol, mt)
			}
		}
	})
}
