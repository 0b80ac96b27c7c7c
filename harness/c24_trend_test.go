package verifmon

import (
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
)

func trendDistance(a, b *core.TargetPattern) float64 {
	fd := 0.0
	if b.Frequency > 0 {
		fd = math.Min(1, math.Abs(float64(a.Frequency)-float64(b.Frequency))/float64(b.Frequency))
	}
	return 0.4*angDist(a.Phase, b.Phase)/math.Pi + 0.3*fd + 0.3*math.Abs(a.Coherence-b.Coherence)
}

func trendSlope(y []float64) float64 {
	n := float64(len(y))
	mx, my := (n-1)/2, 0.0
	for _, v := range y {
		my += v / n
	}
	a, b := 0.0, 0.0
	for i, v := range y {
		a += (float64(i) - mx) * (v - my)
		b += (float64(i) - mx) * (float64(i) - mx)
	}
	return a / b
}

// C24: the trend monitor tells approach, stall and divergence apart.
func TestProp(t *testing.T) {
	m := Start(t, "C24", "sequences of up to 120 samples (approaching, receding, stalled, oscillating, mixed) of patterns toward a target, in virtual time, for windows of 2..30 samples, with resets; after every sample approach, stall, rate, progress and the advice to switch are compared with a reference over the recorded distances; concurrent recording and querying; non-trivial when approach or stall was reported; distinct by sequence")
	defer m.Finish()
	const eps = 1e-7

	m.Each("sequence", m.N(8000), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			ws := c.PickI(2, 3, 5, 10, 10, 30, 0, -4)
			mon := convergence.NewMonitor(ws)
			if ws <= 0 {
				ws = 10
			}
			tgt := &core.TargetPattern{Phase: c.Circle(), Frequency: time.Duration(c.Range(50, 500)) * time.Millisecond, Coherence: c.Unit()}
			mon.SetTarget(tgt)
			var dist, vel []float64
			var timed []bool
			stuck, kept := 0, 0
			stuckSure := true
			first := true
			phase := tgt.Phase + (c.Float64()*2-1)*3
			coh := c.Unit()
			freq := time.Duration(c.Range(50, 500)) * time.Millisecond
			mode := c.Intn(5)
			saw := map[string]bool{}
			var last time.Time
			steps := c.Range(1, 120)
			for i := range steps {
				if c.Intn(12) == 0 {
					mode = c.Intn(5)
				}
				if c.Intn(60) == 0 {
					mon.Reset()
					dist, vel, timed, stuck, stuckSure, first, kept = nil, nil, nil, 0, true, true, 0
					if !c.Check(mon.GetProgress() == 0 && mon.GetConvergenceRate() == 0 && !mon.IsConverging() && !mon.IsStuck() && !mon.ShouldSwitchStrategy(), "reset", "after a reset: progress %v rate %v", mon.GetProgress(), mon.GetConvergenceRate()) {
						return
					}
				}
				if c.Intn(80) == 0 { // another target: what is recorded from now on refers to it
					tgt = &core.TargetPattern{Phase: c.Circle(), Frequency: time.Duration(c.Range(50, 500)) * time.Millisecond, Coherence: c.Unit()}
					mon.SetTarget(tgt)
				}
				d := core.PhaseDifference(tgt.Phase, phase)
				switch mode {
				case 0: // approach
					phase += d * c.Float64() * 0.3
					coh += (tgt.Coherence - coh) * c.Float64() * 0.2
				case 1: // recede
					phase -= math.Copysign(math.Min(c.Float64()*0.2, math.Pi-math.Abs(d)), d)
				case 2: // stall
					phase += (c.Float64() - 0.5) * 1e-6
				case 3:
					phase += (c.Float64() - 0.5) * 0.5
				default:
					coh = c.Unit()
				}
				dt := time.Duration(c.Range(1, 400)) * time.Millisecond
				if c.Intn(30) == 0 && !first {
					dt = 0
				}
				time.Sleep(dt)
				now := time.Now()
				cur := &core.TargetPattern{Phase: phase + twoPi*float64(c.Range(-1, 1)), Frequency: freq, Coherence: coh}
				mon.RecordSample(cur, coh)
				x := trendDistance(cur, tgt)
				v := 0.0
				if !first && dt > 0 {
					v = (x - dist[len(dist)-1]) / now.Sub(last).Seconds()
				}
				dist, vel = append(dist, x), append(vel, v)
				timed = append(timed, !first && dt > 0)
				last, first = now, false

				// reference
				lo := max(0, len(dist)-ws)
				rd, rv := dist[lo:], vel[lo:]
				enough := len(rd) >= 3
				conv := false
				what := func() any { return []any{"window", ws, "sample", i, "last distances", rd} }
				if enough {
					s := trendSlope(rd)
					conv = s < -0.001
					if math.Abs(s+0.001) > eps {
						c.Check(mon.IsConverging() == conv, "approach", "%v: slope %v, converging %v", what(), s, mon.IsConverging())
					}
					if math.Abs(math.Abs(s)-0.001) <= eps {
						stuckSure = false
					} else if math.Abs(s) < 0.001 {
						stuck++
					} else {
						stuck, stuckSure = 0, true
					}
				} else {
					c.Check(!mon.IsConverging(), "approach without data", "%v", what())
				}
				if stuckSure {
					c.Check(mon.IsStuck() == (stuck > 5), "stall", "%v: %d stalled samples in a row, stuck %v", what(), stuck, mon.IsStuck())
				}
				if conv {
					saw["approach"] = true
				}
				if stuck > 5 {
					saw["stall"] = true
				}
				// advice to switch
				if enough {
					n, unsure := 0, false
					for _, v := range rv {
						if math.Abs(v+0.001) <= eps {
							unsure = true
						} else if v >= -0.001 {
							n++
						}
					}
					// at exactly 70 % the advice is not given; whether rounding lets it through is not specified
					if share := 0.7 * float64(len(rv)); !unsure && (math.Abs(float64(n)-share) > 1e-9 || float64(n) == share) {
						want := float64(n) > share
						c.Check(mon.ShouldSwitchStrategy() == want, "advice", "%v: %d of %d recent samples show no progress, advice %v", what(), n, len(rv), mon.ShouldSwitchStrategy())
						if want {
							saw["switch"] = true
						}
					}
				} else {
					c.Check(!mon.ShouldSwitchStrategy(), "advice without data", "%v", what())
				}
				// rate over the recent samples that moved
				sum, n, tiny := 0.0, 0, false
				for k, v := range rv {
					if v != 0 {
						sum += v
						n++
					}
					// whether rounding makes a still sample count as moved is not specified
					tiny = tiny || math.Abs(v) < 1e-6 && timed[lo+k]
				}
				want := 0.0
				if n > 0 && len(dist) >= 2 {
					want = sum / float64(n)
				}
				if !tiny {
					c.Check(near(mon.GetConvergenceRate(), want, 1e-6*(1+math.Abs(want))), "rate", "%v: rate %v, by definition %v", what(), mon.GetConvergenceRate(), want)
				}
				// progress
				p := mon.GetProgress()
				c.Check(inUnit(p), "progress range", "%v: %v", what(), p)
				// two windows of samples are kept; beyond that only the latest window
				kept++
				if kept > 2*ws {
					kept = ws
				}
				if from := dist[len(dist)-kept]; from > 1e-6 {
					w := math.Max(0, math.Min(1, 1-x/from))
					c.Check(near(p, w, 1e-6*(1+x/from)), "progress", "%v, %d samples kept: progress %v, from distance %v to %v it is %v", what(), kept, p, from, x, w)
				}
			}
			if len(saw) > 0 {
				c.Key(ws, dist)
			}
			for k := range saw {
				c.Cnt("sequences with "+k, 1)
			}
			c.Cnt("samples recorded", steps)
			c.Sample("window %d, %d samples, last distances %v", ws, steps, dist[max(0, len(dist)-4):])
		})
	})

	// many recorders and readers at once: race detector, and consistent figures
	m.Each("concurrent", m.N(60), func(c *Case) {
		mon := convergence.NewMonitor(c.PickI(3, 10))
		tgt := &core.TargetPattern{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9}
		mon.SetTarget(tgt)
		c.Within(60*time.Second, "concurrent trend monitoring", func() {
			var wg sync.WaitGroup
			for g := range 3 {
				r := c.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range 200 {
						mon.RecordSample(&core.TargetPattern{Phase: float64((r>>uint(i%40))&7) / 2, Frequency: 90 * time.Millisecond, Coherence: 0.5}, 0.5)
						if g == 0 && i%50 == 0 {
							mon.SetTarget(&core.TargetPattern{Phase: float64(i%3) + 0.5, Frequency: 100 * time.Millisecond, Coherence: 0.9})
						}
						if g == 1 && i%77 == 0 {
							mon.Reset()
						}
					}
				}()
			}
			for range 2 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for range 300 {
						p := mon.GetProgress()
						c.Check(inUnit(p) && finite(mon.GetConvergenceRate()), "figures under load", "progress %v", p)
						_ = mon.IsConverging()
						_ = mon.IsStuck()
						_ = mon.ShouldSwitchStrategy()
					}
				}()
			}
			wg.Wait()
		})
		c.Key(c.I)
	})
}
