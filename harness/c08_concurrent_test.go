package verifmon

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/resource"
)

// C08: concurrent updates of one agent are not lost, energy is spent once.
func TestProp(t *testing.T) {
	m := Start(t, "C08", "one agent shared by goroutines under the race detector: each field has one writer goroutine that reads its own writes back while the others update other fields, apply actions, connect neighbors and refresh the perception; and groups of goroutines spending one energy budget in exactly representable amounts; a case is non-trivial when writers of different fields were really interleaved (a writer saw another field change between two of its own writes) or spenders competed (some succeeded, some were refused); distinct by case parameters and outcome")
	defer m.Finish()

	m.Each("single writer per field", m.N(160), func(c *Case) {
		a := agent.New("shared", agent.WithPhase(0), agent.WithLocalGoal(0), agent.WithEnergy(1), agent.WithInfluence(0.5), agent.WithStubbornness(0.5), agent.WithFrequency(1))
		iters := 300
		var inter atomic.Int64
		type field struct {
			name string
			set  func(float64)
			get  func() float64
			val  func(i int) float64
		}
		all := []field{
			{"phase", func(v float64) { a.SetPhase(v) }, a.Phase, func(i int) float64 { return float64(i%600) / 128 }},
			{"local goal", func(v float64) { a.SetLocalGoal(v) }, a.LocalGoal, func(i int) float64 { return float64(i%600) / 128 }},
			{"energy", func(v float64) { a.SetEnergy(v) }, a.Energy, func(i int) float64 { return float64(i) / 8 }},
			{"influence", func(v float64) { a.SetInfluence(v) }, a.Influence, func(i int) float64 { return float64(i%1024) / 1024 }},
			{"stubbornness", func(v float64) { a.SetStubbornness(v) }, a.Stubbornness, func(i int) float64 { return float64(i%1024) / 1024 }},
			{"frequency", func(v float64) { a.SetFrequency(time.Duration(v)) }, func() float64 { return float64(a.Frequency()) }, func(i int) float64 { return float64(1 + i) }},
		}
		noise := c.Intn(3) // 0 none, 1 maintain actions of no cost, 2 neighbors and perception
		fields := all
		if noise == 2 {
			// refreshing the perception rewrites the local goal
			fields = append(append([]field{}, all[:1]...), all[2:]...)
			for i := range 3 {
				a.ConnectTo(fmt.Sprint("n", i), agent.New(fmt.Sprint("n", i)))
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		stop := make(chan struct{})
		for fi, f := range fields {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				other := fields[(fi+1)%len(fields)]
				last := other.get()
				for i := 1; i <= iters; i++ {
					v := f.val(i)
					f.set(v)
					if i%7 == 0 {
						runtime.Gosched()
					}
					if got := f.get(); got != v && !near(got, v, 1e-9) {
						c.Fail("lost update of "+f.name, "wrote %s = %v and, as its only writer, read back %v (write %d)", f.name, v, got, i)
						return
					}
					if o := other.get(); o != last {
						inter.Add(1)
						last = o
					}
				}
			}()
		}
		var nwg sync.WaitGroup
		if noise > 0 {
			for k := range 2 {
				nwg.Add(1)
				go func() {
					defer nwg.Done()
					<-start
					for {
						select {
						case <-stop:
							return
						default:
						}
						if noise == 1 {
							_, _, _ = a.ApplyAction(core.Action{Type: "maintain", Cost: 0})
							_, _ = a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
						} else {
							a.UpdateContext()
							id := fmt.Sprint("x", k)
							a.ConnectTo(id, agent.New(id))
							a.DisconnectFrom(id)
							_ = a.NeighborCount()
						}
					}
				}()
			}
		}
		close(start)
		wg.Wait()
		close(stop)
		nwg.Wait()
		for _, f := range fields {
			c.Check(near(f.get(), f.val(iters), 1e-9), "lost update of "+f.name, "after all writers ended %s is %v, its last written value %v", f.name, f.get(), f.val(iters))
		}
		c.Cnt("writes", iters*len(fields))
		c.Cnt("observed interleavings", int(inter.Load()))
		if inter.Load() > 0 {
			c.Key(noise, c.I)
		}
		c.Sample("noise %d: %d writers x %d writes, %d times a writer saw another field change", noise, len(fields), iters, inter.Load())
	})

	m.Each("spending", m.N(300), func(c *Case) {
		// dyadic amounts: all sums are exact
		budget := float64(c.Range(1, 64)) * c.PickF(0.25, 1, 8)
		rm := resource.NewTokenManager(1 << 20)
		a := agent.New("spender", agent.WithResourceManager(rm), agent.WithEnergy(budget), agent.WithPhase(1))
		g := c.Range(2, 8)
		per := c.Range(5, 60)
		costs := make([][]float64, g)
		types := []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"}
		acts := make([][]core.Action, g)
		for i := range g {
			for range per {
				cost := float64(c.Intn(16)) / 8
				costs[i] = append(costs[i], cost)
				acts[i] = append(acts[i], core.Action{Type: types[c.Intn(len(types))], Value: float64(c.Intn(64)-32) / 256, Cost: cost})
			}
		}
		var wg sync.WaitGroup
		spent := make([]float64, g)
		moved := make([]float64, g)
		okN, noN := atomic.Int64{}, atomic.Int64{}
		start := make(chan struct{})
		var negative atomic.Int64
		for i := range g {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, act := range acts[i] {
					ok, cost, err := a.ApplyAction(act)
					if ok != (err == nil) {
						c.Fail("verdict", "ApplyAction returned %v with error %v", ok, err)
					}
					if ok {
						okN.Add(1)
						if cost != act.Cost {
							c.Fail("reported cost", "action of cost %v reported %v", act.Cost, cost)
						}
						spent[i] += act.Cost
						if act.Type != "maintain" {
							moved[i] += act.Value
						}
					} else {
						noN.Add(1)
					}
					if a.Energy() < 0 {
						negative.Add(1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		var s, mv float64
		for i := range g {
			s += spent[i]
			mv += moved[i]
		}
		c.Check(s <= budget, "overspent", "%d goroutines spent %v of a budget of %v", g, s, budget)
		c.Check(a.Energy() == budget-s, "energy conservation", "budget %v, successful actions cost %v, energy left %v", budget, s, a.Energy())
		c.Check(negative.Load() == 0, "negative energy", "energy was seen negative %d times", negative.Load())
		c.Check(angDist(a.Phase(), 1+mv) < 1e-6, "lost phase adjustment", "successful actions moved the phase by %v in total, it went from 1 to %v", mv, a.Phase())
		c.Check(near(rm.Available(), math.Max(0, float64(1<<20)-s), 1e-6), "resource accounting", "actions cost %v, the resource manager gave out %v", s, float64(1<<20)-rm.Available())
		c.Cnt("actions", g*per)
		c.Cnt("actions refused", int(noN.Load()))
		if okN.Load() > 0 && noN.Load() > 0 {
			c.Key(budget, g, per, okN.Load())
		}
		c.Sample("budget %v, %d goroutines x %d actions: %d applied, %d refused", budget, g, per, okN.Load(), noN.Load())
	})
}
