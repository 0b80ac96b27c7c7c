package verifmon

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
)

func (c *Case) phaseSet(n int) []float64 {
	ph := make([]float64, n)
	kind := c.Intn(7)
	base := c.Phase()
	if math.Abs(base) > 1e6 {
		base = 1
	}
	k := c.Range(2, 5)
	for i := range ph {
		switch kind {
		case 0:
			ph[i] = base
		case 1:
			ph[i] = twoPi * float64(i) / float64(n)
		case 2:
			ph[i] = base + (c.Float64()-0.5)*0.2
		case 3: // clusters, evenly spaced
			ph[i] = base + twoPi*float64(i%k)/float64(k)
		case 4: // around the wrap
			ph[i] = (c.Float64() - 0.5) * 0.5
		case 5:
			p := c.Phase()
			if math.Abs(p) > 1e6 {
				p = 0
			}
			ph[i] = p
		default:
			ph[i] = c.Circle()
		}
	}
	return ph
}

// C05: the synchronization measures are what their definitions say.
func TestProp(t *testing.T) {
	m := Start(t, "C05", "phase sets (aligned, evenly spread, clustered, around the wrap, random, several turns) of 0 to 300 phases for the functions, and for swarms of 1 to 1100 agents of both storage kinds whose agents are set to such phases; compared with the definitions computed independently; non-trivial when there are at least two different phases; distinct by the phases")
	defer m.Finish()

	m.Each("functions", m.N(60000), func(c *Case) {
		n := c.PickI(0, 1, 2, 3, 4, 5, 7, 10, 50, 100, 101, 300, c.Range(1, 40))
		ph := c.phaseSet(n)
		in := append([]float64(nil), ph...)
		r := core.MeasureCoherence(ph)
		c.Check(near(r, refCoherence(ph), 1e-9), "coherence", "MeasureCoherence(%v) = %v, by definition %v", trunc(ph), r, refCoherence(ph))
		c.Check(r >= 0 && r <= 1+1e-9, "coherence range", "MeasureCoherence(%v) = %v", trunc(ph), r)
		// invariances
		sh := c.Float64() * twoPi
		rot := make([]float64, n)
		for i := range ph {
			rot[i] = ph[i] + sh + twoPi*float64(c.Intn(5)-2)
		}
		c.Shuffle(n, func(i, j int) { rot[i], rot[j] = rot[j], rot[i] })
		c.Check(near(core.MeasureCoherence(rot), r, 1e-9), "coherence invariance", "MeasureCoherence changed from %v to %v under rotation and permutation of %v", r, core.MeasureCoherence(rot), trunc(ph))

		// weighted
		nw := n
		if c.Intn(4) == 0 {
			nw = c.Intn(n + 3)
		}
		w := make([]float64, nw)
		for i := range w {
			w[i] = c.PickF(0, 1, c.Float64()*10, 0.5)
		}
		if c.Intn(5) == 0 {
			for i := range w {
				w[i] = c.PickF(2.5)
			}
		}
		var s, k, tot float64
		for i := range min(n, nw) {
			s += w[i] * math.Sin(ph[i])
			k += w[i] * math.Cos(ph[i])
			tot += w[i]
		}
		want := 0.0
		if tot > 0 {
			want = math.Hypot(s, k) / tot
		}
		g := core.MeasureCoherenceWeighted(ph, w)
		c.Check(near(g, want, 1e-9), "weighted coherence", "MeasureCoherenceWeighted(%v, %v) = %v, by definition %v", trunc(ph), trunc(w), g, want)
		// only the ratios of the weights count
		f := c.PickF(1e-12, 1e-6, 1e-3, 1e3, 1e9)
		ws := make([]float64, nw)
		for i := range w {
			ws[i] = w[i] * f
		}
		c.Check(near(core.MeasureCoherenceWeighted(ph, ws), want, 1e-9), "weights scaled", "MeasureCoherenceWeighted(%v, %v times %v) = %v, by definition %v", trunc(ph), f, trunc(w), core.MeasureCoherenceWeighted(ph, ws), want)
		for i := range ph {
			if ph[i] != in[i] {
				c.Fail("measuring mutates", "measuring changed the phases")
				break
			}
		}
		if n > 1 && math.Abs(r-1) > 1e-12 {
			c.Key(n, math.Float64bits(r), math.Float64bits(g))
		}
	})

	m.Each("swarms", m.N(700), func(c *Case) {
		n := []int{1, 2, 3, 5, 10, 20, 50, 99, 100, 101, 102, 150, 200}[c.Intn(13)]
		if c.I%70 == 0 {
			n = c.PickI(999, 1000, 1001, 1100)
		}
		s := mkSwarm(c, n)
		if s == nil {
			return
		}
		for range 4 {
			ph := c.phaseSet(n)
			i := 0
			s.ForEachAgent(func(a *agent.Agent) bool {
				a.SetPhase(ph[i])
				i++
				return true
			})
			if !c.Check(i == n, "visited agents", "ForEachAgent visited %d of %d agents", i, n) {
				return
			}
			r := refCoherence(ph)
			c.Check(near(s.MeasureCoherence(), r, 1e-9), "swarm coherence", "%d agents: MeasureCoherence %v, by definition %v", n, s.MeasureCoherence(), r)
			tp := c.Phase()
			if math.Abs(tp) > 1e6 {
				tp = math.Pi
			}
			sum := 0.0
			for _, p := range ph {
				sum += angDist(p, tp)
			}
			want := 1 - sum/float64(n)/math.Pi
			got := s.MeasurePhaseConvergence(tp)
			c.Check(near(got, want, 1e-7), "phase convergence", "%d agents, target %v: phase convergence %v, by definition %v", n, tp, got, want)
			c.Check(got >= 0 && got <= 1, "phase convergence range", "%v", got)
			if r > 1e-3 {
				var sn, cs float64
				for _, p := range ph {
					sn += math.Sin(p)
					cs += math.Cos(p)
				}
				mean := math.Atan2(sn, cs)
				v := 0.0
				ambiguous := false
				for _, p := range ph {
					d := angDist(p, mean)
					ambiguous = ambiguous || d > math.Pi-1e-3
					v += d * d
				}
				got := s.MeasurePhaseVariance()
				c.Check(near(got, v/float64(n), 1e-4), "phase variance", "%d agents: phase variance %v, by definition %v", n, got, v/float64(n))
			}
			c.Check(s.MeasurePhaseVariance() >= 0, "phase variance sign", "%v", s.MeasurePhaseVariance())
			c.Cnt("swarm measurements", 4)
			c.Max("max swarm", n)
			if n > 1 && r < 1-1e-12 {
				c.Key("swarm", n, math.Float64bits(r))
			}
			c.Sample("%d agents: coherence %.6f, phase convergence to %.3f %.6f", n, r, tp, got)
		}
	})
}

func trunc(x []float64) string {
	if len(x) > 12 {
		return fmt.Sprintf("%v... (%d)", x[:12], len(x))
	}
	return fmt.Sprint(x)
}

func mkSwarm(c *Case, n int) *swarm.Swarm {
	goal := core.State{Phase: c.Circle(), Frequency: 100 * time.Millisecond, Coherence: 0.8}
	var s *swarm.Swarm
	var err error
	if c.Intn(3) == 0 {
		cfg := config.AutoScaleConfig(n)
		cfg.MaxSwarmSize = 0
		s, err = swarm.NewSwarmFromConfig(n, goal, cfg)
	} else {
		s, err = swarm.New(n, goal)
	}
	if err != nil {
		c.Fail("construction", "swarm of %d: %v", n, err)
		return nil
	}
	return s
}
