package verifmon

import (
	"errors"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
)

type recRM struct {
	avail     float64
	requested float64
	released  float64
	calls     int
}

func (r *recRM) Request(x float64) float64 { r.requested += x; r.calls++; return x }
func (r *recRM) Release(x float64)         { r.released += x }
func (r *recRM) Available() float64        { return r.avail }

// C09: an action either takes its whole effect or none.
func TestProp(t *testing.T) {
	m := Start(t, "C09", "random sequences of actions (every known type and unknown ones, values of both signs and several turns, costs from zero to above and exactly at the remaining energy) on one agent, each compared with a sequential model of phase, energy, and resources; non-trivial when the sequence contains both an applied and a refused action; distinct by the sequence")
	defer m.Finish()
	moving := []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse"}
	m.Each("sequence", m.N(30000), func(c *Case) {
		rm := &recRM{avail: 50}
		energy := c.PickF(0, 1, 10, 100, c.Float64()*50, 0.3)
		opts := []agent.Option{agent.WithEnergy(energy), agent.WithPhase(c.Phase())}
		withRM := c.Intn(4) > 0
		if withRM {
			opts = append([]agent.Option{agent.WithResourceManager(rm)}, opts...)
		}
		a := agent.New("a", opts...)
		phase, goal, freq, infl, stub := a.Phase(), a.LocalGoal(), a.Frequency(), a.Influence(), a.Stubbornness()
		c.Check(a.Energy() == energy, "initial energy", "energy %v, expected %v", a.Energy(), energy)
		trace := fmt.Sprint("energy ", energy)
		applied, refused := 0, 0
		want := 0.0
		for range c.Range(1, 12) {
			typ := moving[c.Intn(len(moving))]
			known := true
			switch c.Intn(8) {
			case 0, 1:
				typ = "maintain"
			case 2:
				typ = []string{"", "bogus", "MAINTAIN", "adjust_phase ", "teleport"}[c.Intn(5)]
				known = false
			}
			cost := c.PickF(0, energy, math.Nextafter(energy, math.Inf(1)), math.Nextafter(energy, 0), energy/2, energy+1, c.Float64()*20, 1e-9, 1e9)
			val := c.PickF(0, c.Phase(), c.Float64()-0.5, -math.Pi, math.Pi, 10)
			act := core.Action{Type: typ, Value: val, Cost: cost, Benefit: c.Float64()}
			trace += fmt.Sprintf(" | %+v", act)
			ok, got, err := a.ApplyAction(act)
			should := known && cost <= energy
			if !c.Check(ok == should, "verdict", "ApplyAction(%+v) with energy %v = %v, %v", act, energy, ok, err) {
				return
			}
			c.Check(ok == (err == nil), "verdict and error", "ApplyAction(%+v) = %v with error %v", act, ok, err)
			if ok {
				applied++
				energy = math.Max(0, energy-cost)
				want += cost
				if typ != "maintain" {
					if math.Abs(val) < 1e12 {
						c.Check(angDist(a.Phase(), phase+val) < 1e-6+math.Abs(val)*1e-12, "phase moved", "ApplyAction(%+v) moved the phase from %v to %v", act, phase, a.Phase())
					}
					phase = a.Phase()
				}
				c.Check(got == cost, "reported cost", "ApplyAction(%+v) reported cost %v", act, got)
			} else {
				refused++
				c.Check(got == 0, "refused action cost", "refused ApplyAction(%+v) reported cost %v", act, got)
				if known {
					c.Check(errors.Is(err, core.ErrInsufficientEnergy), "error kind", "ApplyAction(%+v) with energy %v: %v is not ErrInsufficientEnergy", act, energy, err)
				} else {
					c.Check(errors.Is(err, core.ErrUnknownActionType) || cost > energy && errors.Is(err, core.ErrInsufficientEnergy), "error kind", "ApplyAction(%+v): %v is not ErrUnknownActionType", act, err)
				}
			}
			c.Check(near(a.Energy(), energy, 1e-12) && a.Energy() >= 0, "energy", "after ApplyAction(%+v) (ok=%v) energy is %v, expected %v", act, ok, a.Energy(), energy)
			c.Check(a.Phase() == phase && a.Phase() >= 0 && a.Phase() < twoPi, "phase", "after ApplyAction(%+v) (ok=%v) phase is %v, expected %v", act, ok, a.Phase(), phase)
			c.Check(a.LocalGoal() == goal && a.Frequency() == freq && a.Influence() == infl && a.Stubbornness() == stub, "side effect", "ApplyAction(%+v) changed another attribute: %+v", act, a)
			if withRM {
				c.Check(near(rm.requested-rm.released, want, 1e-6), "resource charge", "applied actions cost %v, %v was requested from the resource manager", want, rm.requested-rm.released)
			}
			energy = a.Energy()
			c.Cnt("actions", 1)
		}
		if applied > 0 && refused > 0 {
			c.Key(trace)
		}
		c.Sample("%s", trace)
	})
	_ = time.Second
}
