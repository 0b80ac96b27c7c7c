package verifmon

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	iemerge "github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

// rng is a PRNG per goroutine.
type rng uint64

func (r *rng) n(k int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int(uint64(*r)>>33) % k
}

// C27: everything a client offers may be used from many goroutines at once.
func TestProp(t *testing.T) {
	m := Start(t, "C27", "swarms of both storage kinds, clients, simulations and every part that locks itself, each used by 6 to 10 goroutines at once that draw from their whole API (runs, continuous runs, disruption, measuring, looking up, visiting, agent reads and writes, commands, snapshots) under the race detector, with invariants checked on everything that is returned and a watchdog; non-trivial when runs and other calls overlapped; distinct by configuration")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}

	use := func(c *Case, s *swarm.Swarm, mon *monitoring.Monitor, r *rng, calls *atomic.Int64, stop <-chan struct{}) {
		n := s.Size()
		for {
			select {
			case <-stop:
				return
			default:
			}
			calls.Add(1)
			switch r.n(14) {
			case 0:
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.n(40))*time.Millisecond)
				_ = s.Run(ctx)
				cancel()
			case 1:
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.n(40))*time.Millisecond)
				_ = s.RunContinuous(ctx)
				cancel()
			case 2:
				s.DisruptAgents(float64(r.n(11)) / 10)
			case 3:
				if x := s.MeasureCoherence(); !(x >= 0 && x <= 1+1e-9) {
					c.Fail("coherence out of range", "%v", x)
				}
			case 4:
				if k := len(s.Agents()); k != n {
					c.Fail("agents lost", "%d of %d", k, n)
				}
			case 5:
				k := 0
				s.ForEachAgent(func(a *agent.Agent) bool {
					k++
					if p := a.Phase(); !(p >= 0 && p < twoPi) {
						c.Fail("phase out of range", "%v", p)
					}
					return true
				})
				if k != n {
					c.Fail("agents lost", "%d of %d visited", k, n)
				}
			case 6:
				_, _ = s.IsConverged(), s.ConvergenceTime()
				if x := s.CurrentCoherence(); !(x >= 0 && x <= 1+1e-9) {
					c.Fail("coherence out of range", "current %v", x)
				}
			case 7:
				if x := s.MeasurePhaseConvergence(float64(r.n(7))); !(x >= -1e-9 && x <= 1+1e-9) {
					c.Fail("phase convergence out of range", "%v", x)
				}
				if x := s.MeasurePhaseVariance(); !(x >= 0) {
					c.Fail("phase variance out of range", "%v", x)
				}
			case 8:
				_ = s.Config()
				_ = s.Size()
			case 9, 10:
				a := pickAgent(s, r)
				if a == nil {
					c.Fail("agents lost", "an agent is not found")
					return
				}
				a.SetPhase(float64(r.n(1000)))
				a.SetLocalGoal(float64(r.n(1000)))
				a.SetEnergy(float64(r.n(100)))
				a.SetInfluence(float64(r.n(10)) / 10)
				a.SetStubbornness(float64(r.n(10)) / 10)
				a.SetFrequency(time.Duration(1 + r.n(1e9)))
			case 11:
				a := pickAgent(s, r)
				a.UpdateContext()
				act, ok := a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
				if ok {
					_, _, _ = a.ApplyAction(act)
				}
				if e := a.Energy(); !(e >= 0) {
					c.Fail("energy out of range", "%v", e)
				}
			case 12:
				a, b := pickAgent(s, r), pickAgent(s, r)
				if a.IsConnectedTo(b.ID) {
					_ = a.NeighborCount()
				} else {
					a.ConnectTo(b.ID, b)
					a.DisconnectFrom(b.ID)
				}
			case 13:
				if mon != nil {
					mon.RecordSample(s.MeasureCoherence())
					_ = mon.History()
				}
			}
		}
	}

	m.Each("swarm", m.N(48), func(c *Case) {
		n := c.PickI(2, 5, 20, 60, 101, 120)
		g := core.State{Phase: c.Circle(), Frequency: 200 * time.Millisecond, Coherence: c.PickF(0.5, 0.8, 0.95)}
		cfg := swarm.For(goals[c.Intn(8)]).WithSize(n)
		cfg.Strategy.UpdateInterval = c.PickD(200*time.Microsecond, time.Millisecond, 5*time.Millisecond)
		rc := swarm.DefaultRecoveryConfig(g.Coherence)
		rc.CheckInterval = c.PickD(time.Millisecond, 3*time.Millisecond)
		mon := monitoring.New()
		s, err := swarm.New(n, g, swarm.WithGoalConfig(cfg), swarm.WithRecoveryConfig(rc), swarm.WithMonitor(mon))
		if err != nil {
			c.Fail("construction", "%v", err)
			return
		}
		var calls atomic.Int64
		c.Within(120*time.Second, "concurrent use of a swarm", func() {
			stop := make(chan struct{})
			var wg sync.WaitGroup
			for range c.Range(6, 10) {
				r := rng(c.Int63())
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Guard("concurrent use", func() { use(c, s, mon, &r, &calls, stop) })
				}()
			}
			time.Sleep(400 * time.Millisecond)
			close(stop)
			wg.Wait()
		})
		c.Check(s.Size() == n && len(s.Agents()) == n, "agents lost", "%d of %d", len(s.Agents()), n)
		// left alone, it still works
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		c.Within(60*time.Second, "the run afterwards", func() { _ = s.Run(ctx) })
		c.Cnt("concurrent calls", int(calls.Load()))
		if calls.Load() > 50 {
			c.Key(n, g.Coherence, cfg.Strategy.UpdateInterval, rc.CheckInterval, c.I)
		}
		c.Sample("%d agents: %d concurrent calls", n, calls.Load())
	})

	// every part that locks itself, each of its methods hammered at once
	m.Each("component", m.N(64), func(c *Case) {
		target := core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8}
		x := func(r *rng) float64 { return float64(r.n(1001)) / 1000 }
		pat := func(r *rng) *core.TargetPattern {
			return &core.TargetPattern{Phase: 6 * x(r), Frequency: time.Duration(1 + r.n(1e9)), Coherence: x(r), Waveform: []float64{x(r), x(r)}}
		}
		unit := func(what string, v float64) {
			if !(v >= 0 && v <= 1+1e-9) {
				c.Fail(what+" out of range", "%v", v)
			}
		}
		type op = func(r *rng)
		var name string
		var ops []op
		switch c.I % 8 {
		case 0:
			name = "monitoring.Monitor"
			q := monitoring.New()
			ops = []op{func(r *rng) { q.RecordSample(x(r)) }, func(r *rng) { q.RecordSample(x(r)) }, func(*rng) { unit("latest", q.Latest()) }, func(*rng) { unit("average", q.Average()) }, func(*rng) {
				h := q.History()
				if len(h) > 100 {
					c.Fail("history too long", "%d", len(h))
				}
				for _, v := range h {
					unit("sample", v)
				}
			}}
		case 1:
			name = "internal/emerge.Monitor"
			q := iemerge.NewMonitor()
			ops = []op{func(r *rng) { q.RecordSample(x(r)) }, func(r *rng) { q.RecordSample(x(r)) }, func(*rng) { unit("latest", q.Latest()) }, func(*rng) { unit("average", q.Average()) }, func(*rng) {
				for _, v := range q.History() {
					unit("sample", v)
				}
			}}
		case 2:
			name = "monitoring.ConvergenceMonitor"
			q := monitoring.NewConvergence(target, 0.5)
			ops = []op{func(r *rng) { q.Record(x(r)) }, func(r *rng) { q.Record(x(r)) }, func(*rng) { _ = q.IsConverged() }, func(*rng) { _ = q.ConvergenceTime() }, func(*rng) { unit("current", q.CurrentCoherence()) }, func(*rng) { _ = q.ConvergenceRate() }, func(*rng) { unit("stability", q.Stability()) }, func(*rng) { _ = q.PredictConvergenceTime() }, func(*rng) { _ = len(q.History()) }, func(*rng) { _ = q.Statistics() }, func(r *rng) {
				if r.n(20) == 0 {
					q.Reset()
				}
			}}
		case 3:
			name = "internal/emerge.ConvergenceMonitor"
			q := iemerge.NewConvergenceMonitor(target, 0.5)
			ops = []op{func(r *rng) { q.Record(x(r)) }, func(r *rng) { q.Record(x(r)) }, func(*rng) { _ = q.IsConverged() }, func(*rng) { _ = q.ConvergenceTime() }, func(*rng) { unit("current", q.CurrentCoherence()) }, func(*rng) { _ = q.ConvergenceRate() }, func(*rng) { unit("stability", q.Stability()) }, func(*rng) { _ = q.PredictConvergenceTime() }, func(*rng) { _ = len(q.History()) }, func(*rng) { _ = q.Statistics() }, func(r *rng) {
				if r.n(20) == 0 {
					q.Reset()
				}
			}}
		case 4:
			name = "convergence.Monitor"
			q := convergence.NewMonitor(c.Range(2, 50))
			rec := func(r *rng) { q.RecordSample(pat(r), x(r)) }
			ops = []op{rec, rec, func(r *rng) { q.SetTarget(pat(r)) }, func(*rng) { _ = q.IsConverging() }, func(*rng) { _ = q.IsStuck() }, func(*rng) { unit("progress", q.GetProgress()) }, func(*rng) { _ = q.GetConvergenceRate() }, func(*rng) { _ = q.ShouldSwitchStrategy() }, func(r *rng) {
				if r.n(20) == 0 {
					q.Reset()
				}
			}}
		case 5:
			name = "completion.Engine"
			q := completion.NewEngine()
			done := func(r *rng) {
				a, b := pat(r), pat(r)
				cp := q.CompletePattern(a, append(core.IdentifyGaps(a, b), core.PatternGap{Type: "waveform", Severity: 0.5}))
				if !finite(cp.GetPhaseAdjustment()) {
					c.Fail("completion", "%+v", cp)
				}
			}
			ops = []op{func(r *rng) { q.AddTemplate(string(rune('a'+r.n(20))), pat(r)) }, func(*rng) { q.LoadDefaultTemplates() }, done, done}
		case 6:
			name = "simulation.MetricsCollector"
			q := simulation.NewMetricsCollector()
			ops = []op{func(r *rng) { q.RecordBatch(1+r.n(100), 3, 1.5, 0) }, func(r *rng) { q.UpdateCoherence(x(r)) }, func(*rng) { unit("coherence", q.Current().PeakCoherence) }, func(*rng) { _ = q.Final() }, func(*rng) { _ = q.BatchSizeDistribution() }, func(r *rng) {
				if r.n(20) == 0 {
					q.Reset()
				}
			}}
		case 7:
			name = "simulation.BatchManager"
			q, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			ended := make(chan struct{})
			go func() { defer close(ended); q.ProcessBatches(ctx, mc) }()
			defer func() { cancel(); <-ended }()
			ops = []op{func(r *rng) { q.SubmitBatch("a", make([]simulation.Task, 1+r.n(30))) }, func(r *rng) { q.SubmitBatch("b", make([]simulation.Task, 1+r.n(250))) }, func(*rng) {
				if k := q.PendingCount(); k < 0 {
					c.Fail("pending", "%d", k)
				}
			}, func(*rng) { _ = q.CurrentBatchSize() }, func(*rng) { _, _ = q.LastBatchInfo() }, func(*rng) { _ = mc.Current() }, func(r *rng) {
				if r.n(20) == 0 {
					q.Reset()
				}
			}}
		}
		var calls atomic.Int64
		c.Within(120*time.Second, "concurrent use of "+name, func() {
			var wg sync.WaitGroup
			hammer := func(r rng, pick func(r *rng) op) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Guard("concurrent use of "+name, func() {
						for i := range 1500 {
							pick(&r)(&r)
							calls.Add(1)
							if i%50 == 0 {
								time.Sleep(time.Duration(r.n(200)) * time.Microsecond)
							}
						}
					})
				}()
			}
			for _, o := range ops { // one each, which synchronizes with nothing else
				hammer(rng(c.Int63()), func(*rng) op { return o })
			}
			for range 3 {
				hammer(rng(c.Int63()), func(r *rng) op { return ops[r.n(len(ops))] })
			}
			wg.Wait()
		})
		c.Check(true, "", "")
		c.Cnt("concurrent calls", int(calls.Load()))
		c.Key(name, c.I)
	})

	m.Each("client", m.N(24), func(c *Case) {
		cl, err := client.New().WithGoal(goals[c.Intn(8)]).WithScale(scale.Size(c.Intn(3))).Build()
		if err != nil {
			c.Fail("construction", "%v", err)
			return
		}
		n := cl.Size()
		var calls atomic.Int64
		c.Within(120*time.Second, "concurrent use of a client", func() {
			stop := make(chan struct{})
			var wg sync.WaitGroup
			for w := range c.Range(4, 8) {
				r := rng(c.Int63())
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Guard("concurrent use", func() {
						if w < 2 {
							use(c, cl.Swarm(), nil, &r, &calls, stop)
							return
						}
						for {
							select {
							case <-stop:
								return
							default:
							}
							calls.Add(1)
							switch r.n(7) {
							case 0:
								ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.n(120))*time.Millisecond)
								_ = cl.Start(ctx)
								cancel()
							case 1:
								if x := cl.Coherence(); !(x >= 0 && x <= 1+1e-9) {
									c.Fail("coherence out of range", "%v", x)
								}
							case 2:
								_ = cl.IsConverged()
							case 3:
								if k := len(cl.Agents()); k != n {
									c.Fail("agents lost", "%d of %d", k, n)
								}
							case 4:
								_, _ = cl.Size(), cl.Config().Strategy.UpdateInterval
							case 5:
								cl.Stop()
							case 6:
								a := pickAgent(cl.Swarm(), &r)
								a.SetPhase(float64(r.n(100)))
							}
						}
					})
				}()
			}
			time.Sleep(400 * time.Millisecond)
			close(stop)
			wg.Wait()
		})
		c.Check(len(cl.Agents()) == n, "agents lost", "%d of %d", len(cl.Agents()), n)
		c.Cnt("concurrent calls", int(calls.Load()))
		c.Key("client", n, c.I)
	})

	m.Each("simulation", m.N(32), func(c *Case) {
		pats := []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}
		sim, err := simulation.New(simulation.BuildConfig{Goal: goals[c.Intn(8)], Scale: scale.Size(c.Intn(2)), Pattern: pats[c.Intn(6)], TargetCoherence: 0.8})
		if err != nil {
			c.Fail("construction", "%v", err)
			return
		}
		var calls atomic.Int64
		c.Within(120*time.Second, "concurrent use of a simulation", func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var sw, wg sync.WaitGroup
			sw.Add(1)
			go func() { defer sw.Done(); _ = sim.Start(ctx) }()
			for range 5 {
				r := rng(c.Int63())
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Guard("concurrent use", func() {
						for range 120 {
							calls.Add(1)
							switch r.n(9) {
							case 0:
								sim.Pause()
							case 1, 2:
								sim.Resume()
							case 3:
								sim.Reset()
							case 4:
								sim.Disrupt()
							case 5, 6:
								s := sim.Snapshot()
								if s.PendingTasks < 0 || s.BatchesProcessed < 0 || s.Coherence < 0 || s.Coherence > 1+1e-9 {
									c.Fail("snapshot", "%d pending, %d batches, coherence %v", s.PendingTasks, s.BatchesProcessed, s.Coherence)
								}
							default:
								st := sim.Statistics()
								if !near(st.TotalSavings, st.CostWithoutSync-st.CostWithSync, 1e-9) || !near(st.CostWithoutSync, 0.03*float64(st.TotalAPICalls), 1e-6) {
									c.Fail("statistics under load", "%+v", st)
								}
							}
							time.Sleep(time.Duration(r.n(8)) * time.Millisecond)
						}
					})
				}()
			}
			wg.Wait()
			sim.Resume()
			cancel()
			sw.Wait()
		})
		c.Check(true, "", "")
		c.Cnt("concurrent calls", int(calls.Load()))
		c.Key("simulation", c.I)
	})
}

func pickAgent(s *swarm.Swarm, r *rng) *agent.Agent {
	id := r.n(s.Size())
	a, _ := s.Agent("agent-" + itoa(id))
	return a
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	b := ""
	for ; i > 0; i /= 10 {
		b = string(rune('0'+i%10)) + b
	}
	return b
}
