package verifmon

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

// C35: what is no longer used is released.
func TestProp(t *testing.T) {
	m := Start(t, "C35", "swarms of every storage kind, clients and simulations constructed (also unsuccessfully), measured, disrupted, run to the end or canceled, and dropped; afterwards no goroutine of theirs may exist and the garbage collector must get them back; worker pools under load; non-trivial when the object was used; distinct by object and use")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}

	m.Each("lifecycle", m.N(500), func(c *Case) {
		var ref weak.Pointer[swarm.Swarm]
		var what string
		virtual(t, func() {
			ref, what = func() (weak.Pointer[swarm.Swarm], string) {
				n := c.PickI(1, 5, 20, 50, 100, 101, 150, 250)
				g := pickGoalState(c, n, 0.3, 0.9)
				var opts []swarm.Option
				fail := errors.New("refused on purpose")
				kind := c.Intn(8)
				what := fmt.Sprintf("%d agents, kind %d:", n, kind)
				switch kind {
				case 0:
					opts = append(opts, swarm.WithTopology(func(*swarm.Swarm) error { return fail }))
				case 1:
					opts = append(opts, func(*swarm.Swarm) error { return fail })
				case 2:
					opts = append(opts, swarm.WithGoalConfig(swarm.For(goals[c.Intn(8)]).WithSize(n)))
				case 3:
					opts = append(opts, swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent { return agent.New(id) }))
				}
				var s *swarm.Swarm
				if kind == 4 {
					cl, err := client.New().WithGoal(goals[c.Intn(8)]).WithScale(scale.Size(c.Intn(3))).Build()
					if err != nil {
						c.Fail("construction", "%v", err)
						return ref, what
					}
					s = cl.Swarm()
				} else {
					var err error
					s, err = swarm.New(n, g, opts...)
					if !c.Check((err != nil) == (kind < 2) && (kind >= 2 || errors.Is(err, fail)), "construction", "%s %v", what, err) || s == nil {
						return ref, what + " refused"
					}
				}
				for range c.Intn(6) {
					switch c.Intn(7) {
					case 0:
						what += " measure"
						_, _, _ = s.MeasureCoherence(), s.MeasurePhaseVariance(), s.MeasurePhaseConvergence(1)
					case 1:
						what += " disrupt"
						s.DisruptAgents(c.Float64())
					case 2:
						what += " run"
						ctx, cancel := context.WithCancel(context.Background())
						time.AfterFunc(time.Duration(c.Range(0, 4000))*time.Millisecond, cancel)
						_ = s.Run(ctx)
						cancel()
					case 3:
						what += " continuous"
						ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.Range(0, 20000))*time.Millisecond)
						_ = s.RunContinuous(ctx)
						cancel()
					case 4:
						what += " visit"
						k := 0
						s.ForEachAgent(func(*agent.Agent) bool { k++; return k < 7 })
						_ = s.Agents()
					case 5:
						what += " two runs"
						ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.Range(0, 9000))*time.Millisecond)
						var wg sync.WaitGroup
						wg.Add(2)
						go func() { defer wg.Done(); _ = s.Run(ctx) }()
						go func() { defer wg.Done(); _ = s.RunContinuous(ctx) }()
						wg.Wait()
						cancel()
					case 6:
						what += " already canceled"
						ctx, cancel := context.WithCancel(context.Background())
						cancel()
						_, _ = s.Run(ctx), s.RunContinuous(ctx)
					}
				}
				return weak.Make(s), what
			}()
			time.Sleep(5 * time.Second)
			synctest.Wait()
			checkLeft(c, what)
		})
		if ref != (weak.Pointer[swarm.Swarm]{}) {
			released := false
			for range 6 {
				runtime.GC()
				if ref.Value() == nil {
					released = true
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			c.Check(released, "retained", "%s: the swarm cannot be collected after use", what)
			c.Cnt("swarms collected", 1)
		}
		c.Key(what)
		c.Sample("%s", what)
	})

	m.Each("simulation", m.N(60), func(c *Case) {
		what := ""
		virtual(t, func() {
			g := goals[c.Intn(8)]
			p := []pattern.Type{pattern.Unset, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}[c.Intn(5)]
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: scale.Tiny, Pattern: p, TargetCoherence: 0.7})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			what = fmt.Sprint(g, p)
			if c.Intn(4) > 0 {
				ctx, cancel := context.WithCancel(context.Background())
				ended := make(chan struct{})
				go func() { defer close(ended); _ = sim.Start(ctx) }()
				for range c.Intn(5) {
					time.Sleep(time.Duration(c.Range(0, 5000)) * time.Millisecond)
					switch c.Intn(5) {
					case 0:
						what += "p"
						sim.Pause()
					case 1:
						what += "r"
						sim.Resume()
					case 2:
						what += "x"
						sim.Reset()
					case 3:
						what += "d"
						sim.Disrupt()
					case 4:
						_, _ = sim.Snapshot(), sim.Statistics()
					}
				}
				cancel()
				<-ended
			}
			time.Sleep(45 * time.Second)
			synctest.Wait()
			checkLeft(c, what)
		})
		c.Key(what, c.I)
	})

	m.Each("worker pool", m.N(300), func(c *Case) {
		virtual(t, func() {
			workers := c.Range(1, 16)
			p := swarm.NewWorkerPool(workers)
			if c.Intn(6) == 0 {
				p.Stop()
				synctest.Wait()
				checkLeft(c, "unused pool")
				c.Key("unused", workers)
				return
			}
			k := c.Range(1, 120)
			runs := make([]atomic.Int32, k)
			var active, most atomic.Int32
			var wg sync.WaitGroup
			for i := range k {
				wg.Add(1)
				d := time.Duration(c.Intn(20)) * time.Millisecond
				p.Submit(func() {
					defer wg.Done()
					if a := active.Add(1); a > most.Load() {
						most.Store(a)
					}
					time.Sleep(d)
					active.Add(-1)
					runs[i].Add(1)
				})
			}
			wg.Wait()
			for i := range runs {
				if n := runs[i].Load(); n != 1 {
					c.Fail("worker pool", "task %d of %d ran %d times", i, k, n)
				}
			}
			c.Check(int(most.Load()) <= workers, "worker pool width", "%d tasks at once with %d workers", most.Load(), workers)
			p.Stop()
			synctest.Wait()
			checkLeft(c, "stopped pool")
			c.Cnt("pool tasks", k)
			c.Key(workers, k)
		})
	})
}
