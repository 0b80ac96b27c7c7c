package verifmon

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
)

func (c *Case) smallPhase() float64 {
	x := c.Phase()
	if math.Abs(x) > 1e4 {
		x = math.Mod(x, 1e4)
	}
	return x
}

func (c *Case) tpattern() *core.TargetPattern {
	f := time.Duration(c.Int63n(int64(2*time.Second)) + 1)
	if c.Intn(3) == 0 {
		f = c.PickD(time.Millisecond, 100*time.Millisecond, 200*time.Millisecond, 250*time.Millisecond, time.Second, time.Hour)
	}
	p := &core.TargetPattern{Phase: c.smallPhase(), Frequency: f, Amplitude: c.Unit(), Coherence: c.Unit(), Stability: c.Unit()}
	if c.Intn(4) == 0 {
		p.Waveform = core.GenerateSineWave(c.Range(1, 50))
	}
	return p
}

func refPatternDistance(a, b *core.TargetPattern) float64 {
	fd := 0.0
	if b.Frequency > 0 {
		fd = math.Min(1, math.Abs(float64(a.Frequency)-float64(b.Frequency))/float64(b.Frequency))
	}
	return 0.4*angDist(a.Phase, b.Phase)/math.Pi + 0.3*fd + 0.3*math.Abs(a.Coherence-b.Coherence)
}

// C19: completing a pattern moves it toward the goal, never away or past it.
func TestProp(t *testing.T) {
	m := Start(t, "C19", "pairs of current and target patterns (several turns, opposite, nearly equal, extreme frequency ratios, zero frequency), with no templates, the default ones and random ones; gaps, the completed pattern and the distance are compared with a reference, and completion is iterated; non-trivial when there was a gap; distinct by patterns and templates")
	defer m.Finish()
	m.Each("complete", m.N(60000), func(c *Case) {
		cur, tgt := c.tpattern(), c.tpattern()
		switch c.Intn(6) {
		case 0:
			cur.Phase = tgt.Phase + c.PickF(0, 0.05, 0.0999, 0.1001, -0.2, math.Pi, math.Pi-1e-9, twoPi, 3)
		case 1:
			cur.Frequency = time.Duration(float64(tgt.Frequency) * c.PickF(1, 1.04, 0.96, 1.06, 0.94, 2, 0.1, 30))
		case 2:
			cur.Coherence = tgt.Coherence - c.PickF(0, 0.04, 0.06, -0.2)
		}
		d := core.PatternDistance(cur, tgt)
		c.Check(near(d, refPatternDistance(cur, tgt), 1e-7), "distance", "%+v to %+v: %v, reference %v", *cur, *tgt, d, refPatternDistance(cur, tgt))
		c.Check(d >= 0 && d <= 1+1e-9, "distance range", "%v", d)
		c.Check(core.PatternDistance(cur, cur) < 1e-9, "distance to itself", "%+v: %v", *cur, core.PatternDistance(cur, cur))
		turned := *cur
		turned.Phase += twoPi * float64(c.Range(-3, 3))
		c.Check(near(core.PatternDistance(&turned, tgt), d, 1e-7), "distance of the same point", "%v and %v", core.PatternDistance(&turned, tgt), d)

		gaps := core.IdentifyGaps(cur, tgt)
		seen := map[string]core.PatternGap{}
		for _, g := range gaps {
			_, dup := seen[g.Type]
			c.Check(!dup, "gap twice", "%+v", gaps)
			seen[g.Type] = g
			c.Check(finite(g.Severity) && g.Severity > 0, "gap severity", "%+v", g)
		}
		pd := angDist(cur.Phase, tgt.Phase)
		if g, ok := seen["phase"]; math.Abs(pd-0.1) > 1e-7 {
			c.Check(ok == (pd > 0.1), "phase gap", "phase %v away: gap %v", pd, ok)
			if ok {
				c.Check(g.Target == tgt.Phase && g.Current == cur.Phase && near(g.Severity, pd/math.Pi, 1e-7), "phase gap", "%+v", g)
			}
		}
		fr := math.Abs(float64(cur.Frequency)/float64(tgt.Frequency) - 1)
		if g, ok := seen["frequency"]; math.Abs(fr-0.05) > 1e-9 {
			c.Check(ok == (fr > 0.05), "frequency gap", "frequency %v for %v: gap %v", cur.Frequency, tgt.Frequency, ok)
			if ok {
				c.Check(g.Target == float64(tgt.Frequency) && g.Current == float64(cur.Frequency), "frequency gap", "%+v", g)
			}
		}
		if g, ok := seen["coherence"]; math.Abs(tgt.Coherence-cur.Coherence-0.05) > 1e-9 {
			c.Check(ok == (cur.Coherence < tgt.Coherence-0.05), "coherence gap", "coherence %v for %v: gap %v", cur.Coherence, tgt.Coherence, ok)
			if ok {
				c.Check(near(g.Severity, tgt.Coherence-cur.Coherence, 1e-12), "coherence gap", "%+v", g)
			}
		}

		e := completion.NewEngine()
		tk := c.Intn(3)
		switch tk {
		case 1:
			e.LoadDefaultTemplates()
		case 2:
			for range c.Range(1, 4) {
				e.AddTemplate(string(rune('a'+c.Intn(6))), c.tpattern())
			}
		}
		keep := *cur
		cp := e.CompletePattern(cur, gaps)
		c.Check(cp != nil && cp.Base == cur, "base", "the completed pattern does not refer to the current one")
		c.Check(cur.Phase == keep.Phase && cur.Frequency == keep.Frequency && cur.Coherence == keep.Coherence, "input changed", "%+v became %+v", keep, *cur)
		pa := cp.GetPhaseAdjustment()
		fa := cp.GetFrequencyAdjustment()
		_, pg := seen["phase"]
		_, fg := seen["frequency"]
		if !pg {
			c.Check(pa == 0, "phase moved without gap", "%v", pa)
		} else {
			after := angDist(cur.Phase+pa, tgt.Phase)
			c.Check(finite(pa) && after <= pd+1e-7 && math.Abs(pa) <= pd+1e-7, "phase away from goal", "templates %d: current %v, goal %v: adjustment %v, distance %v to %v", tk, cur.Phase, tgt.Phase, pa, pd, after)
			c.Check(math.Abs(pa) > 0, "phase not moved", "templates %d: current %v, goal %v: no adjustment", tk, cur.Phase, tgt.Phase)
			// the more it is off, the more it is moved
			c.Check(math.Abs(pa) >= math.Min(pd/math.Pi, 0.5)*pd-1e-7, "phase moved too little", "current %v, goal %v: %v", cur.Phase, tgt.Phase, pa)
		}
		fd := float64(tgt.Frequency) - float64(cur.Frequency)
		if !fg {
			c.Check(fa == 0, "frequency moved without gap", "%v", fa)
		} else {
			c.Check(math.Abs(float64(fa)) <= math.Abs(fd)+1 && float64(fa)*fd >= 0, "frequency away from goal", "templates %d: current %v, goal %v: adjustment %v", tk, cur.Frequency, tgt.Frequency, fa)
			if math.Abs(fd)*math.Min(fr, 0.5) > 2 {
				c.Check(math.Abs(float64(fa)) >= math.Abs(fd)*math.Min(fr, 0.5)-1, "frequency moved too little", "templates %d: current %v, goal %v: %v", tk, cur.Frequency, tgt.Frequency, fa)
			}
			c.Check(cur.Frequency+fa > 0, "frequency not positive", "%v", cur.Frequency+fa)
		}
		if len(gaps) > 0 {
			c.Key(tk, *cur, *tgt)
		}
		c.Sample("current (%.3f, %v, %.2f), goal (%.3f, %v, %.2f): %d gaps, phase %+.3f, frequency %+v", cur.Phase, cur.Frequency, cur.Coherence, tgt.Phase, tgt.Frequency, tgt.Coherence, len(gaps), pa, fa)
		if b, ok := cp.Filled["coherence_boost"].(float64); ok {
			c.Check(finite(b) && b >= 0 && b <= 1, "coherence boost", "%v", b)
		}
		// iterated completion closes the gaps
		if c.Intn(20) == 0 {
			x := *cur
			for k := 0; ; k++ {
				gs := core.IdentifyGaps(&x, tgt)
				var rest []core.PatternGap
				for _, g := range gs {
					if g.Type != "coherence" {
						rest = append(rest, g)
					}
				}
				if len(rest) == 0 {
					c.Cnt("gaps closed by iteration", 1)
					break
				}
				if !c.Check(k < 2000, "gaps stay open", "after %d completions from %+v toward %+v: %+v", k, *cur, *tgt, rest) {
					break
				}
				y := e.CompletePattern(&x, gs)
				df := y.GetFrequencyAdjustment()
				x.Phase = core.WrapPhase(x.Phase + y.GetPhaseAdjustment())
				x.Frequency += df
				if df == 0 && y.GetPhaseAdjustment() == 0 {
					break // below the resolution of a duration
				}
			}
		}
	})
	// the template that is closest to the current pattern is the one used
	m.Each("closest", m.N(20000), func(c *Case) {
		e := completion.NewEngine()
		cur := c.tpattern()
		best, second := math.Inf(1), math.Inf(1)
		var chosen *core.TargetPattern
		n := c.Range(2, 8)
		for i := range n {
			p := c.tpattern()
			if c.Intn(2) == 0 {
				p.Phase, p.Frequency = cur.Phase+c.Float64()-0.5, cur.Frequency
			}
			e.AddTemplate(string(rune('a'+i)), p)
			switch d := refPatternDistance(cur, p); {
			case d < best:
				best, second, chosen = d, best, p
			case d < second:
				second = d
			}
		}
		if best > 0.6 || second-best < 1e-6 {
			return
		}
		sev := 1 - c.Float64()
		cp := e.CompletePattern(cur, []core.PatternGap{{Type: "coherence", Current: cur.Coherence, Target: math.Min(1, cur.Coherence+sev), Severity: sev}})
		b, ok := cp.Filled["coherence_boost"].(float64)
		c.Check(ok && near(b, chosen.Coherence*sev, 1e-9), "closest template", "%d templates, the closest at %v (next at %v) has coherence %v: severity %v gives a boost of %v", n, best, second, chosen.Coherence, sev, cp.Filled["coherence_boost"])
		c.Key("closest", n, best)
	})
	// the share of a gap that is closed grows with the gap
	m.Each("share", m.N(3000), func(c *Case) {
		e := completion.NewEngine()
		tk := c.Intn(3)
		switch tk {
		case 1:
			e.LoadDefaultTemplates()
		case 2:
			for i := range c.Range(1, 4) {
				e.AddTemplate(string(rune('a'+i)), c.tpattern())
			}
		}
		cur := c.tpattern()
		cur.Phase, cur.Frequency = c.Circle(), time.Duration(c.Range(100, 900))*time.Millisecond
		sign := c.PickF(-1, 1)
		lastP, lastF := 0.0, 0.0
		gap := 0.11 + c.Float64()*0.2
		for gap < 1.55 {
			tgt := &core.TargetPattern{Phase: cur.Phase + sign*gap, Frequency: cur.Frequency, Coherence: cur.Coherence, Stability: cur.Stability, Amplitude: cur.Amplitude}
			share := sign * e.CompletePattern(cur, core.IdentifyGaps(cur, tgt)).GetPhaseAdjustment() / gap
			c.Check(share > lastP+1e-9 && share <= 1+1e-9, "phase share", "templates %d: of a gap of %v the share %v is closed, of a smaller one %v", tk, gap, share, lastP)
			lastP = share
			gap += 0.05 + c.Float64()*0.3
		}
		for r := 0.06 + c.Float64()*0.1; r < 0.49; r += 0.03 + c.Float64()*0.1 { // the current frequency is off by this share of the target
			tgt := &core.TargetPattern{Phase: cur.Phase, Frequency: time.Duration(float64(cur.Frequency) / (1 + sign*r)), Coherence: cur.Coherence, Stability: cur.Stability, Amplitude: cur.Amplitude}
			share := float64(e.CompletePattern(cur, core.IdentifyGaps(cur, tgt)).GetFrequencyAdjustment()) / float64(tgt.Frequency-cur.Frequency)
			c.Check(share > lastF+1e-6 && share <= 1+1e-6, "frequency share", "templates %d: of a frequency off by %v the share %v is closed, of one less off %v", tk, r, share, lastF)
			lastF = share
		}
		c.Key("share", tk, cur.Phase, cur.Frequency)
	})
	m.Each("edge", m.N(500), func(c *Case) {
		a := c.tpattern()
		c.Check(core.PatternDistance(nil, a) > 1e6 && core.PatternDistance(a, nil) > 1e6 && core.PatternDistance(nil, nil) > 1e6, "distance to nothing", "%v", core.PatternDistance(nil, a))
		b := c.tpattern()
		b.Frequency = 0
		d := core.PatternDistance(a, b)
		c.Check(finite(d) && near(d, refPatternDistance(a, b), 1e-7), "distance without frequency", "%v", d)
		for _, g := range core.IdentifyGaps(a, b) {
			c.Check(g.Type != "frequency", "frequency gap", "no target frequency, but %+v", g)
		}
		n := c.Intn(300)
		w := core.GenerateSineWave(n)
		c.Check(len(w) == n, "waveform", "%d points of %d", len(w), n)
		for i, v := range w {
			if !c.Check(near(v, math.Sin(twoPi*float64(i)/float64(n)), 1e-9), "waveform", "point %d of %d: %v", i, n, v) {
				break
			}
		}
		// waveform gaps morph between the two
		e := completion.NewEngine()
		tmpl := c.tpattern()
		tmpl.Phase, tmpl.Frequency, tmpl.Coherence = a.Phase, a.Frequency, a.Coherence
		tmpl.Waveform = core.GenerateSineWave(c.Range(1, 40))
		e.AddTemplate("t", tmpl)
		a.Waveform = nil
		for range c.Intn(30) {
			a.Waveform = append(a.Waveform, c.Float64()*4-2)
		}
		sev := c.Unit()
		cp := e.CompletePattern(a, []core.PatternGap{{Type: "waveform", Severity: sev}})
		if w, ok := cp.Filled["waveform"].([]float64); c.Check(ok, "waveform completion", "no waveform") {
			c.Check(len(w) == max(len(a.Waveform), len(tmpl.Waveform)), "waveform completion length", "%d from %d and %d", len(w), len(a.Waveform), len(tmpl.Waveform))
			for _, v := range w {
				c.Check(v >= -2.0000001 && v <= 2.0000001, "waveform completion", "%v", v)
			}
			// every point is a blend of the points there in the two waveforms
			if len(a.Waveform) > 0 {
				near := func(src []float64, i int) (lo, hi float64) {
					at := float64(i) * float64(len(src)) / float64(len(w))
					lo, hi = math.Inf(1), math.Inf(-1)
					for j := max(0, int(math.Floor(at))-1); j <= min(len(src)-1, int(math.Floor(at))+1); j++ {
						lo, hi = math.Min(lo, src[j]), math.Max(hi, src[j])
					}
					return lo, hi
				}
				for i, v := range w {
					l1, h1 := near(a.Waveform, i)
					l2, h2 := near(tmpl.Waveform, i)
					if !c.Check(v >= l1*(1-sev)+l2*sev-1e-9 && v <= h1*(1-sev)+h2*sev+1e-9, "waveform completion out of place", "point %d of %d is %v; severity %v, there the pattern is %v to %v and the template %v to %v", i, len(w), v, sev, l1, h1, l2, h2) {
						break
					}
				}
			}
			if len(a.Waveform) == len(tmpl.Waveform) {
				for i := range w {
					c.Check(near(w[i], a.Waveform[i]*(1-sev)+tmpl.Waveform[i]*sev, 1e-12), "waveform completion", "point %d: %v", i, w[i])
				}
			}
			c.Key("wave", len(a.Waveform), len(tmpl.Waveform), sev)
		}
	})
}
