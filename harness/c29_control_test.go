package verifmon

import (
	"context"
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

// C29: pause freezes, resume continues, reset clears, disruption is healed.
// mark judges the mark of a batch, which appears with it and goes away.
func (c *Case) mark(s simulation.Snapshot) {
	age := s.Timestamp.Sub(s.LastBatchTime)
	if age < 300*time.Millisecond || age > time.Second {
		c.Check(s.BatchJustSent == (age < time.Second), "mark of a batch", "%v with a batch %v ago", s.BatchJustSent, age)
		if age < time.Second {
			c.Cnt("marks of a batch", 1)
		}
	}
}

func TestProp(t *testing.T) {
	m := Start(t, "C29", "histories of up to 14 control commands (pause, resume, reset, disrupt, repeated and in any order) at arbitrary moments on running simulations of every goal, scale up to 200 and pattern, in virtual time, with a snapshot compared with a model after every command; commands from several goroutines at once with a watchdog; non-trivial when a pause or a reset happened; distinct by history")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	pats := []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

	m.Each("history", m.N(64), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := goals[c.Intn(len(goals))]
			sc := []scale.Size{scale.Tiny, scale.Tiny, scale.Tiny, scale.Tiny, scale.Tiny, scale.Small, scale.Small, scale.Medium}[c.Intn(8)]
			p := pats[c.Intn(len(pats))]
			tc := c.PickF(0.6, 0.8, sc.DefaultTargetCoherence())
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: tc})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			n := sc.DefaultAgentCount()
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error, 1)
			started := time.Now()
			if c.Intn(8) == 0 { // paused before it starts
				sim.Pause()
				go func() { done <- sim.Start(ctx) }()
				time.Sleep(3 * time.Second)
				synctest.Wait()
				s := sim.Snapshot()
				c.mark(s)
				c.Check(s.Paused && s.PendingTasks == 0 && s.BatchesProcessed == 0, "paused start", "paused %v, %d pending", s.Paused, s.PendingTasks)
				sim.Resume()
			} else {
				go func() { done <- sim.Start(ctx) }()
			}
			paused := false
			elapsed0 := started
			var lastDisrupt time.Time
			hist := ""
			freezes, resets := 0, 0
			for range c.Range(2, 14) {
				time.Sleep(time.Duration(c.Range(1, 4000)) * time.Millisecond)
				synctest.Wait()
				switch c.Intn(7) {
				case 0, 1:
					if c.Intn(3) > 0 {
						// paused while the swarm is at work, resumed more than once before
						if c.Intn(2) == 0 {
							hist += "rr"
							sim.Resume()
							sim.Resume()
						}
						if c.Intn(2) == 0 {
							hist += "x"
							sim.Reset()
							elapsed0 = time.Now()
						}
						hist += "d"
						sim.Disrupt()
						lastDisrupt = time.Now()
						time.Sleep(c.PickD(0, 5, 60, 130, 250) * time.Millisecond)
						synctest.Wait()
					}
					hist += "p"
					sim.Pause()
					paused = true
					// frozen at once: no workload adds or sends anything any more
					synctest.Wait()
					z, sz := sim.Snapshot(), sim.Statistics()
					c.mark(z)
					// frozen: after what was on its way has been sent nothing changes
					time.Sleep(12 * time.Second)
					synctest.Wait()
					a, sa := sim.Snapshot(), sim.Statistics()
					time.Sleep(time.Duration(c.Range(100, 9000)) * time.Millisecond)
					synctest.Wait()
					b, sb := sim.Snapshot(), sim.Statistics()
					c.Check(a.Paused && b.Paused, "pause flag", "%s: %v %v", hist, a.Paused, b.Paused)
					same := func() bool {
						return a.PendingTasks == b.PendingTasks && a.BatchesProcessed == b.BatchesProcessed && sa.TotalAPICalls == sb.TotalAPICalls
					}
					// a long queue of batches takes its time, but it ends
					for k := 0; k < 60 && !same() && b.PendingTasks <= a.PendingTasks; k++ {
						a, sa = b, sb
						time.Sleep(10 * time.Second)
						synctest.Wait()
						b, sb = sim.Snapshot(), sim.Statistics()
						c.Cnt("waits for a long queue", 1)
					}
					c.Check(same(), "work while paused", "%s: pending %d to %d, sent %d to %d", hist, a.PendingTasks, b.PendingTasks, sa.TotalAPICalls, sb.TotalAPICalls)
					for i := range z.Agents {
						if z.Agents[i].PendingTasks != b.Agents[i].PendingTasks || z.Agents[i].BatchesSent != b.Agents[i].BatchesSent {
							c.Fail("work after pausing", "%s: %+v when paused, %+v later", hist, z.Agents[i], b.Agents[i])
							break
						}
					}
					c.Check(sz.FinalCoherence == sb.FinalCoherence, "agents move after pausing", "%s: coherence %v when paused, %v later", hist, sz.FinalCoherence, sb.FinalCoherence)
					c.Check(sa.FinalCoherence == sb.FinalCoherence, "agents move while paused", "%s: coherence %v to %v", hist, sa.FinalCoherence, sb.FinalCoherence)
					c.Check(a.Coherence == b.Coherence, "shown coherence moves while paused", "%s: %v to %v", hist, a.Coherence, b.Coherence)
					for i := range a.Agents {
						if a.Agents[i].Phase != b.Agents[i].Phase || a.Agents[i].ID != b.Agents[i].ID {
							c.Fail("shown phases move while paused", "%s: %+v to %+v", hist, a.Agents[i], b.Agents[i])
							break
						}
					}
					freezes++
				case 2, 3:
					hist += "r"
					was := paused
					sim.Resume()
					paused = false
					s := sim.Snapshot()
					c.mark(s)
					c.Check(!s.Paused, "pause flag", "%s: still paused after resuming", hist)
					if was || c.Intn(3) == 0 {
						// work goes on: compared once nothing is on its way any more
						sim.Pause()
						time.Sleep(12 * time.Second)
						synctest.Wait()
						a, sa := sim.Snapshot(), sim.Statistics()
						sim.Resume()
						time.Sleep(3100 * time.Millisecond)
						sim.Pause()
						time.Sleep(12 * time.Second)
						synctest.Wait()
						b, sb := sim.Snapshot(), sim.Statistics()
						sim.Resume()
						if p == pattern.Steady || p == pattern.HighFrequency || p == pattern.Unset {
							c.Check(b.PendingTasks+sb.TotalAPICalls > a.PendingTasks+sa.TotalAPICalls, "no work after resuming", "%s: %d tasks before, %d three seconds later", hist, a.PendingTasks+sa.TotalAPICalls, b.PendingTasks+sb.TotalAPICalls)
						}
						// and synchronization as well
						if tc >= 0.5 {
							time.Sleep(70 * time.Second)
							if !c.Check(sim.Statistics().FinalCoherence >= tc-0.1, "no synchronization after resuming", "%s (%v, %d agents): coherence %v for %v a minute after resuming", hist, g, n, sim.Statistics().FinalCoherence, tc) {
								cancel()
								time.Sleep(time.Minute)
								return
							}
						}
					}
				case 4, 5:
					hist += "x"
					sim.Reset()
					elapsed0 = time.Now()
					s, st := sim.Snapshot(), sim.Statistics()
					resets++
					c.Check(s.Reset, "reset flag", "%s: not shown", hist)
					c.Check(s.PendingTasks == 0 && s.CurrentBatchSize == 0 && s.BatchesProcessed == 0 && s.CostWithoutSync == 0 && s.CostWithSync == 0 && s.Savings == 0 && s.SavingsPercent == 0 && st.TotalAPICalls == 0 && st.TotalBatches == 0 && s.LastBatchTime.IsZero() && s.LastBatchSize == 0, "figures after reset", "%s: %+v", hist, st)
					for _, a := range s.Agents {
						if a.PendingTasks != 0 || a.BatchesSent != 0 || a.InBurstMode || a.ActivityLevel == "burst" {
							c.Fail("workload after reset", "%s: %+v", hist, a)
							break
						}
					}
					c.Check(s.ElapsedTime == 0, "elapsed after reset", "%s: %v", hist, s.ElapsedTime)
					if tc >= 0.5 {
						checkReset(c, g, st.FinalCoherence)
					}
					if c.Intn(2) == 0 {
						time.Sleep(1900 * time.Millisecond)
						early := sim.Snapshot().Reset
						time.Sleep(200 * time.Millisecond)
						synctest.Wait()
						// an earlier reset may have ended the mark early, never late
						late := sim.Snapshot().Reset
						c.Check(!late, "reset flag stays", "%s: still shown 2.1 s later (after 1.9 s: %v)", hist, early)
					}
				default:
					hist += "d"
					before := phasesOf(sim)
					was := sim.Snapshot().Paused
					alone := time.Since(lastDisrupt) > 31*time.Second && n <= 50
					sim.Disrupt()
					lastDisrupt = time.Now()
					s := sim.Snapshot()
					c.mark(s)
					c.Check(s.Disrupted, "disruption flag", "%s: not shown", hist)
					if !was {
						moved := 0
						odd := 0.0
						for id, x := range phasesOf(sim) {
							if d := angDist(x, before[id]); d > 1e-3 {
								moved++
								odd = math.Max(odd, math.Abs(d-math.Pi))
							}
						}
						c.Check(moved == n/5, "disrupted agents", "%s: %d of %d agents disrupted, expected %d", hist, moved, n, n/5)
						c.Check(odd < 1e-3, "disruption", "%s: moved %v from the opposite", hist, odd)
					}
					if !was && c.Intn(2) == 0 {
						// the mark stays until the coherence is back at the target
						best := 0.0
						for since := time.Now(); alone && time.Since(since) < 29*time.Second; {
							time.Sleep(10 * time.Millisecond)
							synctest.Wait()
							z := sim.Snapshot()
							best = math.Max(best, z.Coherence)
							if !z.Disrupted {
								c.Check(best >= tc-0.04, "disruption flag ends early", "%s: no longer shown %v after a disruption with coherence %v for %v", hist, time.Since(since), best, tc)
								break
							}
						}
						time.Sleep(time.Until(lastDisrupt.Add(30300 * time.Millisecond)))
						synctest.Wait()
						c.Check(!sim.Snapshot().Disrupted, "disruption flag stays", "%s: still shown after 30.3 s", hist)
						if tc >= 0.5 {
							time.Sleep(40 * time.Second)
							if !c.Check(sim.Statistics().FinalCoherence >= tc-0.1, "disruption not healed", "%s (%v, %d agents): coherence %v for %v 70 s later", hist, g, n, sim.Statistics().FinalCoherence, tc) {
								cancel()
								time.Sleep(time.Minute)
								return
							}
						}
					}
				}
				s := sim.Snapshot()
				c.mark(s)
				c.Check(s.Paused == paused, "pause flag", "%s: %v", hist, s.Paused)
				c.Check(s.ElapsedTime == time.Since(elapsed0) || hist == "" || s.ElapsedTime <= time.Since(started), "elapsed", "%s: %v", hist, s.ElapsedTime)
				c.Check(len(s.Agents) == n && s.TargetCoherence == tc && s.Coherence >= 0 && s.Coherence <= 1+1e-9, "snapshot", "%s: %d agents, target %v, coherence %v", hist, len(s.Agents), s.TargetCoherence, s.Coherence)
				ids := map[string]bool{}
				for _, a := range s.Agents {
					ids[a.ID] = true
				}
				c.Check(len(ids) == n, "snapshot agents", "%d different agents of %d", len(ids), n)
				if !paused {
					var ph []float64
					for _, a := range s.Agents {
						ph = append(ph, a.Phase)
					}
					c.Check(near(refCoherence(ph), s.Coherence, 1e-9), "shown coherence", "%s: %v, the shown phases have %v", hist, s.Coherence, refCoherence(ph))
				}
			}
			c.Cnt("commands", len(hist))
			c.Cnt("freezes observed", freezes)
			c.Cnt("resets observed", resets)
			if freezes+resets > 0 {
				c.Key(g, n, p, hist)
			}
			c.Sample("%v, %d workloads, %v: %s", g, n, p, hist)
			cancel()
			synctest.Wait()
			select {
			case err := <-done:
				c.Check(err == nil, "end", "Start returned %v", err)
			default:
				c.Fail("not ended", "%s: Start still runs after its context ended", hist)
			}
			// nothing works on after the end
			time.Sleep(12 * time.Second)
			synctest.Wait()
			a, sa := sim.Snapshot(), sim.Statistics()
			time.Sleep(30 * time.Second)
			synctest.Wait()
			b, sb := sim.Snapshot(), sim.Statistics()
			c.Check(a.PendingTasks == b.PendingTasks && sa.TotalAPICalls == sb.TotalAPICalls && sa.FinalCoherence == sb.FinalCoherence, "work after the end", "%s: %d to %d pending, %d to %d sent, coherence %v to %v", hist, a.PendingTasks, b.PendingTasks, sa.TotalAPICalls, sb.TotalAPICalls, sa.FinalCoherence, sb.FinalCoherence)
			if left := repoStacks(allStacks()); true {
				k := 0
				w := ""
				for _, s := range left {
					if !hasHarness(s) {
						k++
						w = s
					}
				}
				if k > 0 {
					c.Fail("goroutine left", "%s: %d goroutines still run 42 s after the end:\n%s", hist, k, w)
					c.m.write(true)
					exitNow()
				}
				c.Check(true, "", "")
			}
		})
	})

	// commands, snapshots and statistics from several goroutines at once
	m.Each("concurrent", m.N(24), func(c *Case) {
		p := pats[c.Intn(len(pats))]
		sim, err := simulation.New(simulation.BuildConfig{Goal: goals[c.Intn(len(goals))], Scale: scale.Tiny, Pattern: p, TargetCoherence: 0.8})
		if err != nil {
			c.Fail("construction", "%v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		c.Within(120*time.Second, "concurrent commands", func() {
			var wg, sw sync.WaitGroup
			sw.Add(1)
			go func() { defer sw.Done(); _ = sim.Start(ctx) }()
			for w := range 4 {
				seed := c.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := uint64(seed)
					for range 60 {
						x = x*6364136223846793005 + 1442695040888963407
						switch (x >> 33) % 6 {
						case 0:
							sim.Pause()
						case 1:
							sim.Resume()
						case 2:
							sim.Reset()
						case 3:
							sim.Disrupt()
						case 4:
							s := sim.Snapshot()
							c.mark(s)
							if len(s.Agents) != 20 || s.PendingTasks < 0 {
								c.Fail("snapshot under load", "%d agents, %d pending", len(s.Agents), s.PendingTasks)
							}
						default:
							st := sim.Statistics()
							if !near(st.TotalSavings, st.CostWithoutSync-st.CostWithSync, 1e-9) || !near(st.CostWithoutSync, 0.03*float64(st.TotalAPICalls), 1e-6) {
								c.Fail("statistics under load", "%+v", st)
							}
						}
						time.Sleep(time.Duration((x>>40)%6) * time.Millisecond)
					}
					_ = w
				}()
			}
			wg.Wait()
			sim.Resume()
			time.Sleep(50 * time.Millisecond)
			cancel()
			sw.Wait()
		})
		cancel()
		c.Check(true, "", "")
		c.Cnt("concurrent commands", 240)
		c.Key(c.I)
	})
}

func phasesOf(sim *simulation.Simulation) map[string]float64 {
	out := map[string]float64{}
	for _, a := range sim.Snapshot().Agents {
		out[a.ID] = a.Phase
	}
	return out
}

// checkReset: a reset brings the agents into the worst arrangement for the goal.
func checkReset(c *Case, g goal.Type, coh float64) {
	switch g {
	case goal.MinimizeAPICalls, goal.ReachConsensus, goal.MinimizeLatency, goal.RecoverFromFailure:
		c.Check(coh < 0.1, "arrangement after reset", "%v: coherence %v instead of none", g, coh)
	case goal.DistributeLoad, goal.SaveEnergy, goal.AdaptToTraffic:
		c.Check(coh > 0.99, "arrangement after reset", "%v: coherence %v instead of full", g, coh)
	}
}

var _ = fmt.Sprint
