package verifmon

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

// money checks that the reported figures follow from calls and batches.
func (c *Case) money(what string, calls, batches int, without, with, sav, pct, avg float64) {
	c.Check(near(without, 0.03*float64(calls), 1e-6), "cost without batching", "%s: %d calls cost %v", what, calls, without)
	c.Check(near(with, 0.015*float64(batches), 1e-6), "cost with batching", "%s: %d batches cost %v", what, batches, with)
	c.Check(near(sav, without-with, 1e-9), "savings", "%s: %v - %v saved %v", what, without, with, sav)
	wp, wa := 0.0, 0.0
	if calls > 0 {
		wp, wa = 100*(without-with)/without, float64(calls)/float64(batches)
	}
	c.Check(near(pct, wp, 1e-6), "savings percentage", "%s: %v, expected %v", what, pct, wp)
	if !math.IsNaN(avg) {
		c.Check(near(avg, wa, 1e-9), "average batch", "%s: %d calls in %d batches, average %v", what, calls, batches, avg)
	}
}

var simGoals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var simPatterns = []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse, pattern.Type(99)}

// rate bounds of each request pattern: tasks per tick and shortest/longest tick
func patternBounds(p pattern.Type, d time.Duration) (lo, hi int) {
	switch p {
	case pattern.HighFrequency:
		return 2 * int(d/(100*time.Millisecond)), 4 * int(d/(50*time.Millisecond))
	case pattern.Burst:
		return 0, 7 * int(d/(100*time.Millisecond))
	case pattern.Mixed:
		return 0, 3 * (int(d/(200*time.Millisecond)) + 1)
	case pattern.Sparse:
		return 0, int(d / (2 * time.Second))
	}
	n := int(d / (500 * time.Millisecond))
	return n, n
}

// queueOf finds the channel the batch manager is served from, whatever it is
// called; nil if there is none.
func queueOf(bm *simulation.BatchManager) chan simulation.AgentBatch {
	v := reflect.ValueOf(bm).Elem()
	for i := range v.NumField() {
		f := v.Field(i)
		if f.Type() == reflect.TypeFor[chan simulation.AgentBatch]() {
			return *(*chan simulation.AgentBatch)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

// C28: every generated task is sent exactly once, and costs follow from it.
func TestProp(t *testing.T) {
	m := Start(t, "C28", "simulations of every goal, scale up to 200 workloads and request pattern, workloads driven directly with fixed phases, and batch managers fed with scripted submissions (bursts beyond the queue included), all in virtual time; tasks generated, pending and sent are balanced after draining, API batches stay within their size, and cost figures follow from them; non-trivial when tasks were sent; distinct by configuration and counts")
	defer m.Finish()

	// the whole simulation: a steady pattern generates a known number of tasks
	m.Each("simulation", m.N(260), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := simGoals[c.Intn(len(simGoals))]
			sc := []scale.Size{scale.Tiny, scale.Tiny, scale.Small, scale.Small, scale.Medium}[c.Intn(5)]
			p := simPatterns[c.Intn(len(simPatterns))]
			tc := c.PickF(sc.DefaultTargetCoherence(), 0.2, 0.6, 0.8)
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: tc})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			n := sc.DefaultAgentCount()
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error, 1)
			begun := time.Now()
			go func() { done <- sim.Start(ctx) }()
			active := time.Duration(0)
			what := fmt.Sprintf("%v, %d workloads, %v pattern, coherence %v", g, n, p, tc)
			cycles := c.Range(1, 3)
			lo, hi := 0, 0
			for range cycles {
				// run, then pause and drain: nothing may be in flight any more
				d := time.Duration(c.Range(300, 12000))*time.Millisecond + 7*time.Millisecond
				time.Sleep(d)
				sim.Pause()
				active += d
				l, h := patternBounds(p, d)
				lo, hi = lo+max(0, l-1)*n, hi+(h+8)*n
				time.Sleep(30*time.Second - d%(500*time.Millisecond))
				synctest.Wait()
				s := sim.Snapshot()
				st := sim.Statistics()
				c.Check(len(s.Agents) == n, "workloads", "%s: %d shown", what, len(s.Agents))
				pend := 0
				for _, a := range s.Agents {
					pend += a.PendingTasks
				}
				c.Check(pend == s.PendingTasks, "pending sum", "%s: %d pending, the workloads have %d", what, s.PendingTasks, pend)
				c.Check(s.CurrentBatchSize == 0, "not drained", "%s: %d submissions still queued 30 s after the pause", what, s.CurrentBatchSize)
				total := pend + st.TotalAPICalls
				c.Check(total >= lo && total <= hi, "tasks lost or duplicated", "%s: %d pending and %d sent after %v of activity, expected between %d and %d in all", what, pend, st.TotalAPICalls, active, lo, hi)
				c.money(what, st.TotalAPICalls, st.TotalBatches, st.CostWithoutSync, st.CostWithSync, st.TotalSavings, st.SavingsPercent, st.AverageBatchSize)
				c.money(what, st.TotalAPICalls, s.BatchesProcessed, s.CostWithoutSync, s.CostWithSync, s.Savings, s.SavingsPercent, math.NaN())
				if age := s.Timestamp.Sub(s.LastBatchTime); age < 300*time.Millisecond || age > time.Second {
					c.Check(s.BatchJustSent == (age < time.Second), "mark of a batch", "%s: %v with a batch %v ago", what, s.BatchJustSent, age)
				}
				c.Check(st.AverageBatchSize <= 100 && s.LastBatchSize <= 100 && (st.TotalBatches == 0) == s.LastBatchTime.IsZero(), "batch size", "%s: average %v, last %d at %v", what, st.AverageBatchSize, s.LastBatchSize, s.LastBatchTime)
				// the final figures are those of the run, also when nothing was shown before
				c.Check(st.PeakCoherence >= st.FinalCoherence && st.PeakCoherence <= 1+1e-9, "peak of the run", "%s: peak %v, final %v", what, st.PeakCoherence, st.FinalCoherence)
				c.Check((st.TimeToConverge > 0) == (st.PeakCoherence >= 0.7) && st.TimeToConverge <= time.Since(begun), "time to converge", "%s: %v with peak %v, after %v", what, st.TimeToConverge, st.PeakCoherence, time.Since(begun))
				if st.TotalAPICalls > 0 {
					c.Key(what, st.TotalAPICalls, st.TotalBatches)
				}
				c.Cnt("tasks sent", st.TotalAPICalls)
				c.Cnt("API batches", st.TotalBatches)
				sim.Resume()
			}
			cancel()
			<-done
			time.Sleep(time.Minute)
			c.Sample("%s: %v active", what, active)
		})
	})

	// exact count for the steady pattern, one uninterrupted stretch
	m.Each("steady", m.N(160), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := simGoals[c.Intn(len(simGoals))]
			sc := []scale.Size{scale.Tiny, scale.Small, scale.Medium}[c.Intn(3)]
			p := []pattern.Type{pattern.Steady, pattern.Unset}[c.Intn(2)]
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: 0.8})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			n := sc.DefaultAgentCount()
			ctx, cancel := context.WithCancel(context.Background())
			go func() { _ = sim.Start(ctx) }()
			ticks := 0
			for range c.Range(1, 4) {
				k := c.Range(1, 40)
				time.Sleep(time.Duration(k)*500*time.Millisecond + 3*time.Millisecond)
				ticks += k
				sim.Pause()
				// a whole number of ticks passes while paused
				time.Sleep(30*time.Second - 3*time.Millisecond)
				synctest.Wait()
				s, st := sim.Snapshot(), sim.Statistics()
				c.Check(s.PendingTasks+st.TotalAPICalls == ticks*n, "tasks lost or duplicated", "%v, %d workloads, %d steady ticks: %d pending and %d sent instead of %d in all", g, n, ticks, s.PendingTasks, st.TotalAPICalls, ticks*n)
				c.Key(g, n, ticks, st.TotalAPICalls)
				c.Cnt("tasks sent", st.TotalAPICalls)
				sim.Resume()
			}
			cancel()
			time.Sleep(time.Minute)
		})
	})

	// workloads driven directly: what they hold and what arrives
	m.Each("workloads", m.N(500), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			p := simPatterns[c.Intn(len(simPatterns))]
			n := c.PickI(1, 2, 7, 30, 150, 260)
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			// the beat is within a tenth of a radian of phase 0, and nothing else
			away := c.PickF(math.Pi, math.Pi/2, 1, 0.105, twoPi-0.105, 4.5)
			var ws []*simulation.Workload
			for i := range n {
				a := agent.New(fmt.Sprintf("w%d", i))
				a.SetPhase(away)
				w := simulation.NewWorkloadWithEmerge(a.ID, i, a, nil, p, simGoals[c.Intn(len(simGoals))])
				ws = append(ws, w)
				w.Start(ctx, bm)
			}
			pctx, pcancel := context.WithCancel(context.Background())
			go bm.ProcessBatches(pctx, mc)
			d := time.Duration(c.Range(0, 20000)) * time.Millisecond
			time.Sleep(d + time.Millisecond)
			synctest.Wait()
			held := 0
			for _, w := range ws {
				s := w.Snapshot()
				held += s.PendingTasks
				l, h := patternBounds(p, d)
				c.Check(s.PendingTasks >= l && s.PendingTasks <= h+7, "request pattern", "%v pattern: %d tasks after %v, expected %d to %d", p, s.PendingTasks, d, l, h)
				c.Check(s.BatchesSent == 0, "sent off beat", "a workload at phase %v sent %d batches", s.Phase, s.BatchesSent)
				c.Check(s.ID == w.EmergeAgent().ID && s.Phase == w.EmergeAgent().Phase() && s.InBurstMode == (s.ActivityLevel == "burst"), "workload shown", "%+v", s)
			}
			c.Check(mc.Current().TotalAPICalls == 0, "sent off beat", "%d calls though every workload is off beat", mc.Current().TotalAPICalls)
			if d > time.Second {
				switch p {
				case pattern.HighFrequency:
					c.Check(float64(held) > 10*d.Seconds()*float64(n), "request rate", "%v: %d tasks of %d workloads in %v", p, held, n, d)
				case pattern.Sparse:
					c.Check(float64(held) <= d.Seconds()*float64(n), "request rate", "%v: %d tasks of %d workloads in %v", p, held, n, d)
				}
			}
			// stop generating, then come to the beat: everything held is sent once
			cancel()
			synctest.Wait()
			held = 0
			for _, w := range ws {
				held += w.Snapshot().PendingTasks
			}
			ctx2, cancel2 := context.WithCancel(context.Background())
			beat := c.PickF(0, 0.05, twoPi-0.05, 0.095, twoPi-0.095)
			on := 0
			for i, w := range ws {
				if c.Intn(5) > 0 || i == 0 {
					w.EmergeAgent().SetPhase(beat)
					on++
				}
			}
			before := make([]int, n)
			for i, w := range ws {
				before[i] = w.Snapshot().PendingTasks
				w.Start(ctx2, bm)
			}
			time.Sleep(c.PickD(150, 420) * time.Millisecond)
			cancel2()
			synctest.Wait()
			time.Sleep(40 * time.Second)
			sent, extra := 0, 0
			for i, w := range ws {
				s := w.Snapshot()
				off := angDist(w.EmergeAgent().Phase(), 0) > 0.1
				if off {
					c.Check(s.PendingTasks >= before[i] && s.BatchesSent == 0, "sent off beat", "%d held, %d left", before[i], s.PendingTasks)
				} else {
					sent += before[i]
					if before[i] > 0 && n <= 90 {
						c.Check(s.BatchesSent > 0, "not sent on the beat", "%v: workload %d at phase %v still holds %d", p, i, beat, s.PendingTasks)
					}
					if s.BatchesSent == 0 {
						sent -= before[i]
					}
				}
				extra += 7 * 10
			}
			got := mc.Current()
			c.Check(got.TotalAPICalls >= sent && got.TotalAPICalls <= sent+extra, "tasks lost or duplicated", "%v, %d workloads: %d tasks handed over, %d sent", p, n, sent, got.TotalAPICalls)
			c.money("workloads", got.TotalAPICalls, got.TotalBatches, got.CostWithoutSync, got.CostWithSync, got.TotalSavings, got.SavingsPercent, got.AverageBatchSize)
			pcancel()
			if sent > 0 {
				c.Key(p, n, sent)
			}
		})
	})

	// more workloads than the queue takes, served late: what is refused is kept
	m.Each("full queue", m.N(120), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			n := c.Range(60, 400)
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			var ws []*simulation.Workload
			for i := range n {
				a := agent.New(fmt.Sprintf("w%d", i))
				a.SetPhase(math.Pi)
				w := simulation.NewWorkloadWithEmerge(a.ID, i, a, nil, pattern.Steady, simGoals[c.Intn(len(simGoals))])
				ws = append(ws, w)
				w.Start(ctx, bm)
			}
			ticks := c.Range(1, 6)
			time.Sleep(time.Duration(ticks)*500*time.Millisecond + time.Millisecond)
			cancel()
			synctest.Wait()
			// all on the beat for a while that is too short for another task
			ctx2, cancel2 := context.WithCancel(context.Background())
			for _, w := range ws {
				w.EmergeAgent().SetPhase(0)
				w.Start(ctx2, bm)
			}
			pctx, pcancel := context.WithCancel(context.Background())
			late := time.Duration(c.PickI(0, 20, 120, 300, 1000)) * time.Millisecond
			run := time.Duration(c.PickI(60, 150, 300, 450)) * time.Millisecond
			go func() { time.Sleep(late); bm.ProcessBatches(pctx, mc) }()
			time.Sleep(run)
			cancel2()
			synctest.Wait()
			time.Sleep(2 * time.Minute)
			held := 0
			for _, w := range ws {
				s := w.Snapshot()
				held += s.PendingTasks
				c.Check(s.PendingTasks == 0 || s.BatchesSent == 0, "sent and kept", "a workload has sent %d batches and still holds %d tasks", s.BatchesSent, s.PendingTasks)
			}
			got := mc.Current()
			c.Check(held+got.TotalAPICalls == ticks*n, "tasks lost or duplicated", "%d workloads with %d tasks each on the beat for %v, served after %v: %d sent and %d kept", n, ticks, run, late, got.TotalAPICalls, held)
			c.money("full queue", got.TotalAPICalls, got.TotalBatches, got.CostWithoutSync, got.CostWithSync, got.TotalSavings, got.SavingsPercent, got.AverageBatchSize)
			if held > 0 {
				c.Cnt("tasks refused and kept", held)
			}
			pcancel()
			c.Key("full", n, ticks, late, run)
		})
	})

	// what is in the batches: every task of a workload arrives once, whole, and
	// is still the same when it is looked at later
	m.Each("contents", m.N(220), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			p := simPatterns[c.Intn(len(simPatterns))]
			n := c.PickI(1, 2, 5, 20)
			bm := simulation.NewBatchManager()
			queue := queueOf(bm)
			if queue == nil {
				c.Cnt("queue not accessible", 1)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			var ws []*simulation.Workload
			for i := range n {
				a := agent.New(fmt.Sprintf("w%d", i))
				a.SetPhase(c.PickF(0, 0, 0.05, math.Pi, twoPi-0.05))
				w := simulation.NewWorkloadWithEmerge(a.ID, i, a, nil, p, simGoals[c.Intn(len(simGoals))])
				ws = append(ws, w)
				w.Start(ctx, bm)
			}
			// looked at on arrival and once more when everything is over
			type held struct {
				b     simulation.AgentBatch
				tasks []simulation.Task
				at    time.Time
			}
			var got []held
			lag := c.PickD(0, 30, 400, 1500) * time.Millisecond
			stop := make(chan struct{})
			ended := make(chan struct{})
			go func() {
				defer close(ended)
				for {
					select {
					case b := <-queue:
						got = append(got, held{b, append([]simulation.Task(nil), b.Tasks...), time.Now()})
						time.Sleep(lag)
					case <-stop:
						return
					}
				}
			}()
			d := time.Duration(c.PickI(3, 10, 30, 60)) * time.Second
			if n <= 2 && c.Intn(3) == 0 {
				d = time.Duration(c.PickI(600, 1300)) * time.Second
			}
			start := time.Now()
			for time.Since(start) < d {
				time.Sleep(time.Duration(c.Range(200, 5000)) * time.Millisecond)
				w := ws[c.Intn(n)]
				w.EmergeAgent().SetPhase(c.PickF(0, 0, 0.08, math.Pi, 1, twoPi-0.08))
			}
			cancel()
			synctest.Wait()
			time.Sleep(5 * time.Minute)
			close(stop)
			<-ended
			seen := map[string]int{}
			types := map[string]bool{}
			per, bat := map[string]int{}, map[string]int{}
			what := fmt.Sprintf("%v, %d workloads for %v, looked at after %v", p, n, d, lag)
			for i, h := range got {
				c.Check(len(h.b.Tasks) > 0, "empty batch", "%s: batch %d of %s", what, i, h.b.AgentID)
				c.Check(!h.b.Timestamp.Before(start) && !h.b.Timestamp.After(h.at), "batch time", "%s: batch taken at %v is from %v", what, h.at, h.b.Timestamp)
				bat[h.b.AgentID]++
				for k, x := range h.b.Tasks {
					if !c.Check(x == h.tasks[k], "batch changed after it was sent", "%s: task %d of batch %d was %+v and became %+v", what, k, i, h.tasks[k], x) {
						return
					}
					if !c.Check(x.AgentID == h.b.AgentID && x.ID != "" && x.Type != "" && x.Payload != "", "task", "%s: in a batch of %s: %+v", what, h.b.AgentID, x) {
						return
					}
					seen[x.ID]++
					if !c.Check(seen[x.ID] == 1, "task sent twice", "%s: task %s is in batch %d of %d and in an earlier one", what, x.ID, i, len(got)) {
						return
					}
					per[x.AgentID]++
					types[x.Type] = true
				}
			}
			lo, hi := patternBounds(p, d)
			for _, w := range ws {
				s := w.Snapshot()
				c.Check(bat[s.ID] == s.BatchesSent, "batches sent", "%s: %s sent %d batches, %d arrived", what, s.ID, s.BatchesSent, bat[s.ID])
				total := per[s.ID] + s.PendingTasks
				c.Check(total >= max(0, lo-1) && total <= hi+5*7*10, "tasks lost or duplicated", "%s: %s has sent %d tasks and holds %d, expected %d to %d", what, s.ID, per[s.ID], s.PendingTasks, lo, hi)
			}
			c.Cnt("tasks inspected", len(seen))
			if len(seen) > 0 {
				c.Key(p, n, d, len(seen), len(got))
			}
			c.Sample("%s: %d batches with %d tasks of %d kinds", what, len(got), len(seen), len(types))
		})
	})

	// the batch manager alone: exact conservation, sizes, combining, delay
	m.Each("batches", m.N(4000), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			go bm.ProcessBatches(ctx, mc)
			accepted, refused, id := 0, 0, 0
			maxBurst := 0
			for range c.Range(1, 12) {
				idle := false
				switch c.Intn(4) {
				case 0:
					time.Sleep(30 * time.Second) // drained and idle
					synctest.Wait()
					idle = true
					c.Check(mc.Current().TotalAPICalls == accepted, "tasks lost or duplicated", "%d tasks submitted, %d sent after half a minute", accepted, mc.Current().TotalAPICalls)
				case 1:
					time.Sleep(time.Duration(c.Range(1, 80)) * time.Millisecond)
				}
				b0 := mc.Current()
				k := c.PickI(1, 2, 5, 20, 99, 130)
				burst, ok := 0, true
				for range k {
					tasks := make([]simulation.Task, c.PickI(0, 1, 1, 2, 5, 17, 100, 101, 250))
					for j := range tasks {
						id++
						tasks[j] = simulation.Task{ID: fmt.Sprint(id)}
					}
					if bm.SubmitBatch("a", tasks) {
						accepted += len(tasks)
						burst += len(tasks)
					} else {
						refused++
						ok = false
					}
				}
				maxBurst = max(maxBurst, burst)
				if idle && ok && burst > 0 && burst < 100 {
					// together within one window: one API call, within the window and the call
					time.Sleep(70 * time.Millisecond)
					synctest.Wait()
					b1 := mc.Current()
					c.Check(b1.TotalBatches == b0.TotalBatches+1 && b1.TotalAPICalls == b0.TotalAPICalls+burst, "not combined", "%d tasks submitted together by %d workloads: %d calls in %d batches", burst, k, b1.TotalAPICalls-b0.TotalAPICalls, b1.TotalBatches-b0.TotalBatches)
					c.Cnt("windows combined", 1)
				}
			}
			time.Sleep(time.Hour)
			synctest.Wait()
			got := mc.Current()
			c.Check(got.TotalAPICalls == accepted, "tasks lost or duplicated", "%d tasks submitted, %d sent", accepted, got.TotalAPICalls)
			dist := 0
			for _, v := range mc.BatchSizeDistribution() {
				dist += v
			}
			c.Check(dist == got.TotalBatches, "batch distribution", "%d batches, distribution of %d", got.TotalBatches, dist)
			c.Check(got.TotalBatches*100 >= accepted, "batch size", "%d tasks in %d batches of at most 100", accepted, got.TotalBatches)
			_, last := bm.LastBatchInfo()
			c.Check(last <= 100 && (last > 0) == (accepted > 0), "batch size", "last batch of %d", last)
			c.money("batches", got.TotalAPICalls, got.TotalBatches, got.CostWithoutSync, got.CostWithSync, got.TotalSavings, got.SavingsPercent, got.AverageBatchSize)
			cancel()
			if accepted > 0 {
				c.Key(accepted, got.TotalBatches, refused)
			}
			c.Cnt("submissions refused by a full queue", refused)
			c.Cnt("tasks sent", accepted)
		})
	})

	// figures
	m.Each("figures", m.N(4000), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			mc := simulation.NewMetricsCollector()
			start := time.Now()
			calls, nb := 0, 0
			peak, conv := 0.0, time.Duration(0)
			sizes := map[string]int{"1-10": 0, "11-25": 0, "26-50": 0, "51-75": 0, "76-100": 0}
			class := func(n int) string {
				switch {
				case n <= 10:
					return "1-10"
				case n <= 25:
					return "11-25"
				case n <= 50:
					return "26-50"
				case n <= 75:
					return "51-75"
				}
				return "76-100"
			}
			for range c.Range(1, 60) {
				time.Sleep(time.Duration(c.Range(1, 900)) * time.Millisecond)
				switch c.Intn(6) {
				case 0, 1, 2:
					n := c.Range(1, 100)
					mc.RecordBatch(n, 0.03*float64(n), 0.015, 0.03*float64(n)-0.015)
					calls, nb = calls+n, nb+1
					sizes[class(n)]++
				case 3, 4:
					x := c.Unit()
					mc.UpdateCoherence(x)
					peak = math.Max(peak, x)
					if x >= 0.7 && conv == 0 {
						conv = time.Since(start)
					}
				default:
					if c.Intn(8) == 0 {
						mc.Reset()
						start, calls, nb, peak, conv = time.Now(), 0, 0, 0, 0
						sizes = map[string]int{"1-10": 0, "11-25": 0, "26-50": 0, "51-75": 0, "76-100": 0}
					}
				}
				s := mc.Current()
				c.Check(s.TotalAPICalls == calls && s.TotalBatches == nb, "counts", "%d calls in %d batches, expected %d in %d", s.TotalAPICalls, s.TotalBatches, calls, nb)
				c.money("figures", calls, nb, s.CostWithoutSync, s.CostWithSync, s.TotalSavings, s.SavingsPercent, s.AverageBatchSize)
				c.Check(s.PeakCoherence == peak, "peak coherence", "%v, expected %v", s.PeakCoherence, peak)
				c.Check(s.TimeToConverge == conv, "time to converge", "%v, expected %v", s.TimeToConverge, conv)
				c.Check(fmt.Sprint(mc.BatchSizeDistribution()) == fmt.Sprint(sizes), "batch distribution", "%v, expected %v", mc.BatchSizeDistribution(), sizes)
				c.Check(mc.Final() == s, "final figures", "%+v and %+v", mc.Final(), s)
			}
			c.Key(calls, nb, peak)
		})
	})
	// pattern advice
	m.Each("patterns", 8*6*40, func(c *Case) {
		g, p := c.I%8, simPatterns[(c.I/8)%6]
		n := 1 + (c.I/48)*60
		x := pattern.GetCoherenceModifier(g, n, p)
		c.Check(x >= 0.5 && x <= 1.5, "modifier range", "goal %d, %d agents, %v: %v", g, n, p, x)
		q := pattern.GetQualifier(g, n, p)
		c.Check((q == "poor") == (x < 0.8) && (q == "optimal") == (x >= 1.3), "qualifier", "%v is %s", x, q)
		c.Check(pattern.IsRecommended(g, n, p) == (x >= 1.2), "recommendation", "%v", x)
		b := pattern.BestPatternForGoal(g)
		if n < 1000 && n > 50 {
			c.Check(pattern.GetCoherenceModifier(g, n, b) >= x, "best pattern", "goal %d: %v is recommended, but %v is better", g, b, p)
		}
		c.Key(g, n, p)
	})
}
