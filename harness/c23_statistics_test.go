package verifmon

import (
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/internal/emerge"
)

type convMon interface {
	Record(float64)
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
	Reset()
}

type histMon interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

func refSlope(y []float64) float64 {
	if len(y) < 2 {
		return 0
	}
	n := float64(len(y))
	mx := (n - 1) / 2
	my := 0.0
	for _, v := range y {
		my += v / n
	}
	a, b := 0.0, 0.0
	for i, v := range y {
		a += (float64(i) - mx) * (v - my)
		b += (float64(i) - mx) * (float64(i) - mx)
	}
	return a / b
}

func refStd(y []float64) float64 {
	n := float64(len(y))
	m := 0.0
	for _, v := range y {
		m += v / n
	}
	s := 0.0
	for _, v := range y {
		s += (v - m) * (v - m) / n
	}
	return math.Sqrt(s)
}

func tail(y []float64, n int) []float64 {
	if len(y) > n {
		return y[len(y)-n:]
	}
	return y
}

func num(x any) float64 {
	switch v := x.(type) {
	case float64:
		return v
	case int:
		return float64(v)
	}
	return math.NaN()
}

// C23: convergence statistics are those of the recorded measurements.
func TestProp(t *testing.T) {
	m := Start(t, "C23", "sequences of up to 400 recorded measurements (random, rising, falling, flat, oscillating around the threshold) with resets, in virtual time, for both convergence recorders and both bounded histories; every query is compared with a model after every step; concurrent recording and querying with a watchdog; non-trivial when convergence was gained or lost, or the window slid; distinct by sequence")
	defer m.Finish()
	mks := map[string]func(core.State, float64) convMon{
		"monitoring": func(s core.State, x float64) convMon { return monitoring.NewConvergence(s, x) },
		"internal":   func(s core.State, x float64) convMon { return emerge.NewConvergenceMonitor(s, x) },
	}
	hks := map[string]func() histMon{
		"monitoring": func() histMon { return monitoring.New() },
		"internal":   func() histMon { return emerge.NewMonitor() },
	}
	names := []string{"monitoring", "internal"}

	m.Each("recorder", m.N(4000), func(c *Case) {
		which := names[c.Intn(2)]
		thr := c.PickF(0.9, 0.5, c.Unit())
		synctest.Test(t, func(*testing.T) {
			mon := mks[which](core.State{Coherence: thr}, thr)
			start := time.Now()
			var hist []float64
			var conv *time.Time
			shape := c.Intn(6)
			v := c.Unit()
			changes := 0
			steps := c.Range(1, 60)
			if c.Intn(20) == 0 {
				steps = 400
			}
			for i := range steps {
				time.Sleep(time.Duration(c.Intn(500)) * time.Millisecond)
				if c.Intn(40) == 0 {
					mon.Reset()
					hist, conv, start = nil, nil, time.Now()
				} else {
					switch shape {
					case 0:
						v = c.Unit()
					case 1:
						v = math.Min(1, v+0.05*c.Float64())
					case 2:
						v = math.Max(0, v-0.05*c.Float64())
					case 3: // flat
					case 4:
						v = thr + c.PickF(-1e-9, 0, 1e-9, -0.1, 0.05)
					case 5:
						v = math.Min(1, v+1e-12*c.Float64())
					}
					mon.Record(v)
					hist = append(hist, v)
					now := time.Now()
					if v >= thr && conv == nil {
						conv = &now
						changes++
					} else if v < thr && conv != nil {
						conv = nil
						changes++
					}
				}
				time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
				what := func() string { return which + " recorder" }
				c.Check(mon.IsConverged() == (conv != nil), "converged", "%s: %v after %v (threshold %v)", what(), mon.IsConverged(), tail(hist, 5), thr)
				wt := time.Duration(0)
				if conv != nil {
					wt = conv.Sub(start)
				}
				c.Check(mon.ConvergenceTime() == wt, "convergence time", "%s: %v, expected %v", what(), mon.ConvergenceTime(), wt)
				cur := 0.0
				if len(hist) > 0 {
					cur = hist[len(hist)-1]
				}
				c.Check(mon.CurrentCoherence() == cur, "current coherence", "%s: %v, expected %v", what(), mon.CurrentCoherence(), cur)
				rate := refSlope(tail(hist, 10))
				c.Check(near(mon.ConvergenceRate(), rate, 1e-9), "convergence rate", "%s: %v, expected %v of %v", what(), mon.ConvergenceRate(), rate, tail(hist, 10))
				stab := 1.0
				if len(hist) >= 2 {
					stab = math.Exp(-10 * refStd(tail(hist, 20)))
				}
				c.Check(near(mon.Stability(), stab, 1e-6), "stability", "%s: %v, expected %v", what(), mon.Stability(), stab)
				pr := mon.PredictConvergenceTime()
				c.Check(pr >= 0, "negative prediction", "%s: %v", what(), pr)
				if conv != nil || rate < -1e-12 || cur >= thr {
					c.Check(pr == 0, "prediction", "%s: %v though converged or not converging (rate %v)", what(), pr, rate)
				} else if rate > 1e-7 {
					want := (thr - cur) / rate * float64(100*time.Millisecond)
					if want < 1e18 {
						c.Check(math.Abs(float64(pr)-want) <= 1e-3*want+1e3, "prediction", "%s: %v, expected %v", what(), pr, time.Duration(want))
					}
				}
				if i%7 == 0 || i == steps-1 {
					h := mon.History()
					ok := len(h) == len(hist)
					for j := range h {
						ok = ok && h[j] == hist[j]
					}
					c.Check(ok, "history", "%s: %d values kept, %d recorded", what(), len(h), len(hist))
					if len(h) > 0 {
						h[0] = -77 // a copy
						c.Check(mon.History()[0] == hist[0], "history shared", "%s: changing the returned history changes the recorder's", what())
					}
					st := mon.Statistics()
					lo, hi, sum := 1.0, 0.0, 0.0
					for _, x := range hist {
						lo, hi, sum = math.Min(lo, x), math.Max(hi, x), sum+x
					}
					c.Check(num(st["samples"]) == float64(len(hist)) && num(st["current_coherence"]) == cur && num(st["max"]) == hi && num(st["min"]) == lo && st["converged"] == (conv != nil) && num(st["target_coherence"]) == thr, "statistics", "%s: %v for %d samples, range %v to %v, current %v", what(), st, len(hist), lo, hi, cur)
					c.Check(near(num(st["convergence_rate"]), rate, 1e-9) && near(num(st["stability"]), stab, 1e-6), "statistics", "%s: %v", what(), st)
					if len(hist) > 0 {
						c.Check(near(num(st["mean"]), sum/float64(len(hist)), 1e-9) && near(num(st["std_dev"]), refStd(hist), 1e-7), "statistics", "%s: %v, expected mean %v and deviation %v", what(), st, sum/float64(len(hist)), refStd(hist))
					}
					_, has := st["convergence_time"]
					c.Check(has == (conv != nil) && (!has || near(num(st["convergence_time"]), wt.Seconds(), 1e-9)), "statistics", "%s: %v, expected a convergence time of %v", what(), st["convergence_time"], wt)
					p2, hasp := st["predicted_convergence_time"]
					c.Check(hasp == (pr > 0) && (!hasp || near(num(p2), pr.Seconds(), 1e-6*(1+pr.Seconds()))), "statistics", "%s: predicted %v, expected %v", what(), p2, pr)
				}
			}
			if changes > 0 {
				c.Key(which, shape, thr, steps, changes, v)
			}
			c.Cnt("measurements", steps)
			c.Cnt("convergence changes", changes)
			c.Sample("%s recorder, threshold %.3f: %d steps, %d changes", which, thr, steps, changes)
		})
	})

	m.Each("window", m.N(4000), func(c *Case) {
		which := names[c.Intn(2)]
		mon := hks[which]()
		var all []float64
		n := c.PickI(0, 1, 99, 100, 101, 150, 250, c.Intn(400))
		for range n {
			v := c.Float64()
			mon.RecordSample(v)
			all = append(all, v)
			if c.Intn(10) == 0 {
				c.Check(mon.Latest() == v, "latest", "%s: %v, recorded %v", which, mon.Latest(), v)
			}
		}
		w := tail(all, 100)
		h := mon.History()
		ok := len(h) == len(w)
		sum := 0.0
		for i := range w {
			ok = ok && i < len(h) && h[i] == w[i]
			sum += w[i]
		}
		c.Check(ok, "window", "%s: after %d samples the history holds %d values, which are not the last ones in order", which, n, len(h))
		if n == 0 {
			c.Check(mon.Latest() == 0 && mon.Average() == 0, "empty", "%v %v", mon.Latest(), mon.Average())
			return
		}
		c.Check(near(mon.Average(), sum/float64(len(w)), 1e-9), "average", "%s: %v, expected %v", which, mon.Average(), sum/float64(len(w)))
		if n > 100 {
			c.Key("window", which, n, w[0])
		}
	})

	// concurrent use: no deadlock, nothing lost, consistent answers
	m.Each("concurrent", m.N(60), func(c *Case) {
		which := names[c.Intn(2)]
		mon := mks[which](core.State{}, 0.5)
		hm := hks[which]()
		writers, per := c.Range(1, 4), 300
		c.Within(60*time.Second, "concurrent statistics", func() {
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for range 3 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
						}
						st := mon.Statistics()
						n := num(st["samples"])
						if n > 0 {
							c.Check((num(st["current_coherence"]) >= 0.5) == (st["converged"] == true), "torn statistics", "%s: %v", which, st)
							c.Check(num(st["min"]) <= num(st["mean"])+1e-9 && num(st["mean"]) <= num(st["max"])+1e-9, "torn statistics", "%s: %v", which, st)
						}
						_ = mon.PredictConvergenceTime()
						_ = mon.Stability()
						_ = hm.Average()
						_ = hm.History()
					}
				}()
			}
			var ww sync.WaitGroup
			for w := range writers {
				ww.Add(1)
				go func() {
					defer ww.Done()
					for i := range per {
						mon.Record(float64((w*per+i)%1000) / 1000)
						hm.RecordSample(float64(w*per + i))
					}
				}()
			}
			ww.Wait()
			close(stop)
			wg.Wait()
		})
		c.Check(len(mon.History()) == writers*per, "lost measurements", "%s: %d of %d", which, len(mon.History()), writers*per)
		h := hm.History()
		c.Check(len(h) == min(100, writers*per), "lost samples", "%d", len(h))
		seen := map[float64]bool{}
		last := map[int]float64{}
		for _, v := range h {
			c.Check(!seen[v], "sample twice", "%v", v)
			seen[v] = true
			w := int(v) / per
			c.Check(v > last[w] || last[w] == 0, "order", "writer %d: %v after %v", w, v, last[w])
			last[w] = v
		}
		c.Key("conc", which, writers, c.I)
		c.Cnt("concurrent measurements", writers*per)
	})
}
