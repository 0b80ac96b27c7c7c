package verifmon

import (
	"math"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/strategy"
)

type namedStrat struct{ tag float64 }

func (n namedStrat) Propose(core.State, core.State, core.Context) (core.Action, float64) {
	return core.Action{Type: "adjust_phase", Value: n.tag}, 0.25
}
func (namedStrat) Name() string { return "n" }

func (c *Case) ctx() core.Context {
	return core.Context{Neighbors: c.Intn(30), Density: c.Unit(), Stability: c.PickF(c.Unit(), 0.7, 0.70001), Progress: c.Unit(), LocalCoherence: c.PickF(c.Unit(), 0.5, 0.50001)}
}

// C17: every strategy proposes a feasible step toward the target.
func TestProp(t *testing.T) {
	m := Start(t, "C17", "every built-in strategy with rates inside and outside [0,1], random current and target phases (several turns, opposite, nearly equal) and contexts; pulse strategies also over sequences of calls in virtual time; non-trivial when the proposed step is not zero; distinct by strategy, rate and phases")
	defer m.Finish()
	m.Each("single", m.N(120000), func(c *Case) {
		rate := c.PickF(c.Unit(), c.Unit(), c.Unit(), -1, 1.5, 100, 0.5)
		eff := math.Min(1, math.Max(0, rate))
		kind := c.Intn(5)
		var s core.SyncStrategy
		exact := true
		switch kind {
		case 0:
			s = strategy.NewPhaseNudge(rate)
		case 1:
			s = strategy.NewFrequencyLock(rate)
		case 2:
			s, exact = strategy.NewEnergyAware(rate*20), false
		case 3:
			s = strategy.NewPulse(0, rate)
		case 4:
			s = strategy.NewAdaptive([]core.SyncStrategy{strategy.NewPhaseNudge(rate), strategy.NewFrequencyLock(rate), strategy.NewPhaseNudge(rate)})
		}
		p := func() float64 {
			x := c.Phase()
			if math.Abs(x) > 1e4 {
				x = math.Mod(x, 1e4)
			}
			return x
		}
		cur := core.State{Phase: p(), Frequency: time.Second, Coherence: c.Unit()}
		tgt := core.State{Phase: p(), Frequency: time.Second, Coherence: c.Unit()}
		if c.Intn(5) == 0 {
			tgt.Phase = cur.Phase + c.PickF(0, 1e-6, -0.05, 0.0999, 0.1001, math.Pi, -3.1, 3*math.Pi/2)
		}
		ctx := c.ctx()
		d := angDist(tgt.Phase, cur.Phase)
		a, conf := s.Propose(cur, tgt, ctx)
		name := s.Name()
		c.Check(conf >= 0 && conf <= 1, "confidence "+name, "%s: confidence %v (rate %v, context %+v)", name, conf, rate, ctx)
		c.Check(finite(a.Value) && finite(a.Cost) && finite(a.Benefit) && a.Cost >= 0, "malformed "+name, "%s: %+v", name, a)
		c.Check(math.Abs(a.Value) <= d+1e-9, "overshoot "+name, "%s (rate %v): step %v for a distance of %v", name, rate, a.Value, d)
		after := angDist(cur.Phase+a.Value, tgt.Phase)
		c.Check(after <= d+1e-9, "away "+name, "%s (rate %v): from %v toward %v, the step %v increases the distance from %v to %v", name, rate, cur.Phase, tgt.Phase, a.Value, d, after)
		if a.Type == "maintain" {
			c.Check(a.Value == 0, "maintain "+name, "%s: %+v", name, a)
		}
		if exact {
			c.Check(near(math.Abs(a.Value), eff*d, 1e-7), "step size "+name, "%s with rate %v: step %v for a distance of %v", name, rate, a.Value, d)
		} else {
			if d > 0.11 {
				c.Check(a.Value != 0 && math.Abs(a.Value) <= 0.5*d, "step size "+name, "%s: step %v for a distance of %v", name, a.Value, d)
			}
			if d < 0.09 {
				c.Check(a.Type == "maintain", "needless step "+name, "%s: %+v for a distance of %v", name, a, d)
			}
		}
		// the costlier kind of strategy asks for more for the same step
		if math.Abs(a.Value) > 1e-6 && kind < 2 {
			r := math.Abs(a.Value) / d
			f, _ := strategy.NewFrequencyLock(r).Propose(cur, tgt, ctx)
			u, _ := strategy.NewPulse(0, r).Propose(cur, tgt, ctx)
			g, _ := strategy.NewPhaseNudge(r).Propose(cur, tgt, ctx)
			c.Check(g.Cost <= f.Cost+1e-9 && f.Cost <= u.Cost+1e-9, "relative cost", "a step of %v costs %v as a nudge, %v for a frequency lock and %v as a pulse", a.Value, g.Cost, f.Cost, u.Cost)
		}
		// nudges are surer where there is more to do, frequency locks where
		// the neighborhood agrees more
		if kind < 2 {
			more := ctx
			more.LocalCoherence += (1 - ctx.LocalCoherence) * c.Float64()
			_, conf2 := s.Propose(cur, tgt, more)
			if kind == 0 {
				c.Check(conf2 <= conf+1e-12 && (ctx.LocalCoherence > 0.4 || more.LocalCoherence < ctx.LocalCoherence+0.05 || conf2 < conf), "confidence trend "+name, "%v at local coherence %v, %v at %v", conf, ctx.LocalCoherence, conf2, more.LocalCoherence)
			} else {
				c.Check(conf2 >= conf-1e-12 && (eff < 0.05 || more.LocalCoherence < ctx.LocalCoherence+0.05 || conf2 > conf), "confidence trend "+name, "%v at local coherence %v, %v at %v", conf, ctx.LocalCoherence, conf2, more.LocalCoherence)
			}
		}
		// what is proposed can be applied by an agent that can pay for it
		ag := agent.New("x", agent.WithEnergy(a.Cost+1))
		ok, _, err := ag.ApplyAction(a)
		c.Check(ok && err == nil, "inapplicable "+name, "%s proposed %+v: %v", name, a, err)
		// the same points of the circle give the same step
		if d < math.Pi-1e-6 && kind != 3 {
			k := twoPi * float64(c.Range(-3, 3))
			c2, t2 := cur, tgt
			c2.Phase += k
			t2.Phase -= k
			b, _ := s.Propose(c2, t2, ctx)
			c.Check(near(a.Value, b.Value, 1e-9) || math.Abs(d-0.1) < 1e-9, "representation "+name, "%s: step %v, but %v after whole turns", name, a.Value, b.Value)
		}
		// bigger steps cost at least as much
		if kind < 3 && a.Type != "maintain" {
			t3 := tgt
			t3.Phase = cur.Phase + math.Remainder(tgt.Phase-cur.Phase, twoPi)*c.Float64()
			b, _ := s.Propose(cur, t3, ctx)
			if b.Type != "maintain" {
				c.Check(b.Cost <= a.Cost+1e-9, "cost "+name, "%s: a step of %v costs %v but the larger %v costs %v", name, b.Value, b.Cost, a.Value, a.Cost)
			}
			if math.Abs(a.Value) > 1e-6 {
				c.Check(a.Cost > 0, "free step "+name, "%s: %+v costs nothing", name, a)
			}
		}
		if a.Value != 0 {
			c.Key(kind, eff, math.Float64bits(cur.Phase), math.Float64bits(tgt.Phase))
		}
		c.Sample("%s rate %.3f: from %.3f to %.3f -> %+v (confidence %.3f)", name, rate, cur.Phase, tgt.Phase, a, conf)
	})

	// adaptive: delegates to exactly one of its strategies
	m.Each("adaptive", m.N(20000), func(c *Case) {
		n := c.Intn(5)
		var list []core.SyncStrategy
		for i := range n {
			list = append(list, namedStrat{float64(i + 1)})
		}
		ad := strategy.NewAdaptiveStrategy(list)
		ctx := c.ctx()
		if c.Intn(2) == 0 {
			want := c.Range(-3, 6)
			seen := core.Context{}
			ad = ad.WithSelector(func(x core.Context) int { seen = x; return want })
			a, conf := ad.Propose(core.State{}, core.State{}, ctx)
			if n == 0 {
				c.Check(a.Type == "maintain" && a.Value == 0 && inUnit(conf), "adaptive empty", "%+v %v", a, conf)
				return
			}
			c.Check(seen == ctx, "adaptive context", "the selector was shown %+v, the context is %+v", seen, ctx)
			if want < 0 || want >= n {
				c.Check(a.Value == 1 && conf == 0.25, "adaptive fallback", "selector chose %d of %d, got %+v instead of the first", want, n, a)
			} else {
				c.Check(a.Value == float64(want+1) && conf == 0.25, "adaptive choice", "selector chose %d of %d, got %+v", want, n, a)
			}
			c.Key("sel", n, want)
			return
		}
		a, conf := ad.Propose(core.State{}, core.State{}, ctx)
		if n == 0 {
			c.Check(a.Type == "maintain" && a.Value == 0 && inUnit(conf), "adaptive empty", "%+v %v", a, conf)
			return
		}
		want := 2
		if ctx.Stability > 0.7 {
			want = 0
		} else if ctx.LocalCoherence > 0.5 {
			want = 1
		}
		want = min(want, n-1)
		c.Check(a.Value == float64(want+1) && conf == 0.25, "adaptive default choice", "%d strategies, context %+v: strategy %v used, expected %d", n, ctx, a.Value-1, want)
		c.Key("def", n, ctx)
	})

	// pulse: never two pulses within a period
	m.Each("pulse", m.N(3000), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			period := time.Duration(c.PickI(1, 10, 100, 250, 1000)) * time.Millisecond
			amp := c.PickF(0.1, 0.5, 1, 0.8)
			s := strategy.NewPulse(period, amp)
			start := time.Now()
			last := start
			pulses := 0
			for range c.Range(5, 60) {
				d := time.Duration(c.Int63n(int64(period)*3/2 + 1))
				if c.Intn(4) == 0 {
					d = c.PickD(period, period-1, period+1, period/2)
				}
				time.Sleep(d)
				cur, tgt := c.Circle(), c.Circle()
				if angDist(cur, tgt) < 0.01 {
					tgt = cur + 1
				}
				a, conf := s.Propose(core.State{Phase: cur}, core.State{Phase: tgt}, c.ctx())
				since := time.Since(last)
				c.Check(inUnit(conf), "confidence pulse", "%v", conf)
				if since >= period {
					c.Check(a.Type == "pulse" && near(math.Abs(a.Value), amp*angDist(cur, tgt), 1e-9), "pulse missing", "%v since the last pulse (period %v): %+v", since, period, a)
				} else {
					c.Check(a.Value == 0 && a.Type == "maintain", "pulse too early", "%v since the last pulse (period %v): %+v", since, period, a)
				}
				if a.Type == "pulse" {
					pulses++
					last = time.Now()
				}
			}
			c.Cnt("pulses", pulses)
			if pulses > 1 {
				c.Key("pulse", period, amp, pulses, time.Since(start))
			}
		})
	})
}
