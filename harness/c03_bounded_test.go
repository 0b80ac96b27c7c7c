package verifmon

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
)

func snapshot(s *swarm.Swarm) []core.State {
	var out []core.State
	for _, a := range sortedAgents(s) {
		out = append(out, core.State{Phase: a.Phase(), Frequency: a.Frequency(), Coherence: a.Energy()})
	}
	return out
}

// quiet observes that nothing of the code under test still runs: agents stay
// as they are while virtual time passes, and no goroutine is left.
func (c *Case) quiet(s *swarm.Swarm, what string) {
	before := snapshot(s)
	coh := s.CurrentCoherence()
	time.Sleep(5 * time.Second)
	after := snapshot(s)
	same := len(before) == len(after)
	for i := range before {
		same = same && before[i] == after[i]
	}
	c.Check(same, "agents move after return", "%s: agents changed in the 5 s after it returned", what)
	c.Check(coh == s.CurrentCoherence(), "recording after return", "%s: the recorded coherence changed after it returned", what)
	if left := leftovers(); len(left) > 0 {
		c.Fail("goroutine left", "%s: still running after it returned:\n%s", what, left[0])
		c.m.write(true)
		os.Exit(0) // the bubble would never end
	}
	c.Check(true, "", "")
}

// leftovers lists goroutines inside code under test (not the harness).
func leftovers() []string {
	var out []string
	for _, g := range repoStacks(allStacks()) {
		if !hasHarness(g) {
			out = append(out, g)
		}
	}
	return out
}

// C03: every run ends: at its budget, or when it is canceled.
func TestProp(t *testing.T) {
	m := Start(t, "C03", "runs, continuous runs and client starts with contexts canceled before, at the instant of, and between updates, deadlines, and no cancellation at all, under goals that can and cannot be reached and agents scrambled so that no goal is ever reached, in virtual time; several runs at once on one swarm; after each return the swarm is observed for 5 s and goroutines are counted; non-trivial when the run was ended by cancellation or by its budget; distinct by configuration, kind and instant")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}

	type setup struct {
		s   *swarm.Swarm
		cfg *swarm.Config
		g   core.State
		n   int
	}
	mk := func(c *Case) *setup {
		n := c.PickI(1, 2, 4, 5, 9, 10, 20, 50, 99, 100, 101, 130)
		g := pickGoalState(c, n, 0, 1)
		cfg := refDefault()
		var opts []swarm.Option
		if c.Intn(2) == 0 {
			cfg = swarm.For(goals[c.Intn(8)]).TuneFor(trait.Target(c.Intn(6))).WithSize(n)
			if c.Intn(3) == 0 {
				cfg.Strategy.MaxIterationsFactor = c.PickF(0, 1, 10, 50, 1e6)
			}
			cp := *cfg
			opts = append(opts, swarm.WithGoalConfig(&cp))
		}
		s, err := swarm.New(n, g, opts...)
		if err != nil {
			c.Fail("construction", "%v", err)
			return nil
		}
		c.arrange(s, g.Phase, c.Intn(len(arrangements)))
		return &setup{s, cfg, g, n}
	}

	// cancellation
	m.Each("cancel", m.N(3000), func(c *Case) {
		virtual(t, func() {
			u := mk(c)
			if u == nil {
				return
			}
			iv := u.cfg.Strategy.UpdateInterval
			at := c.PickD(0, 1, iv-1, iv, iv+1, time.Duration(c.Range(1, 30))*iv, time.Duration(c.Int63n(int64(20*iv))))
			kind := c.Intn(4)
			name := []string{"Run", "RunContinuous", "Run", "RunContinuous"}[kind]
			var ctx context.Context
			var cancel context.CancelFunc
			want := context.Canceled
			if kind < 2 {
				ctx, cancel = context.WithCancel(context.Background())
				if at == 0 {
					cancel()
				} else {
					time.AfterFunc(at, cancel)
				}
			} else {
				want = context.DeadlineExceeded
				ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(at))
			}
			defer cancel()
			before := snapshot(u.s)
			t0 := time.Now()
			var err error
			if kind%2 == 0 {
				err = u.s.Run(ctx)
			} else {
				err = u.s.RunContinuous(ctx)
			}
			took := time.Since(t0)
			what := fmt.Sprintf("%s canceled after %v (updates every %v, %d agents)", name, at, iv, u.n)
			c.Check(took <= at, "late after cancellation", "%s: returned after %v", what, took)
			if kind%2 == 1 {
				c.Check(errors.Is(err, want) && took == at, "continuous run ended", "%s: returned %v after %v, want %v", what, err, took, want)
			} else {
				budget := took >= time.Duration(budgetOf(u.cfg, u.n, u.g.Coherence))*iv
				c.Check(err == nil || errors.Is(err, want) || budget, "wrong error", "%s: returned %v after %v, want %v", what, err, took, want)
				if took < at {
					c.Check(err == nil || budget, "gave up early", "%s: returned %v after %v", what, err, took)
				}
			}
			if at < iv {
				after := snapshot(u.s)
				for i := range before {
					if before[i] != after[i] && !(kind%2 == 1 && at >= iv) {
						c.Fail("changed though canceled", "%s: agents changed before the first update", what)
						break
					}
				}
			}
			c.quiet(u.s, what)
			if errors.Is(err, want) {
				c.Key(kind, at, u.n, u.g, iv)
				c.Cnt("ended by cancellation", 1)
			}
			c.Sample("%s: %v after %v", what, err, took)
		})
	})

	// no cancellation: the budget ends the run
	m.Each("budget", m.N(500), func(c *Case) {
		virtual(t, func() {
			u := mk(c)
			if u == nil {
				return
			}
			iv := u.cfg.Strategy.UpdateInterval
			n := budgetOf(u.cfg, u.n, u.g.Coherence)
			ctx, cancel := context.WithCancel(context.Background())
			ags := sortedAgents(u.s)
			ended := make(chan struct{})
			if c.Intn(3) > 0 && u.n > 1 && u.g.Coherence > 0.5 {
				// scramble right before every update: never coherent
				t0 := time.Now()
				go func() {
					for k := 1; ; k++ {
						select {
						case <-ctx.Done():
							close(ended)
							return
						case <-time.After(time.Until(t0.Add(time.Duration(k)*iv - 1))):
							for i, a := range ags {
								a.SetPhase(twoPi * float64(i) / float64(len(ags)))
							}
						}
					}
				}()
			} else {
				close(ended)
			}
			t0 := time.Now()
			err := u.s.Run(ctx)
			took := time.Since(t0)
			cancel()
			<-ended
			what := fmt.Sprintf("run of %d agents, goal %+v, budget of %d updates every %v", u.n, u.g, n, iv)
			c.Check(took <= time.Duration(n)*iv, "beyond budget", "%s: returned %v after %v", what, err, took)
			if err != nil {
				c.Check(took == time.Duration(n)*iv, "gave up early", "%s: returned %v after %v", what, err, took)
				c.Check(!errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded), "wrong error", "%s: %v", what, err)
				c.Key(u.n, u.g, n, iv)
				c.Cnt("ended by budget", 1)
			}
			c.quiet(u.s, what)
		})
	})

	// several runs of one swarm at once, and clients
	m.Each("several", m.N(300), func(c *Case) {
		virtual(t, func() {
			u := mk(c)
			if u == nil {
				return
			}
			iv := u.cfg.Strategy.UpdateInterval
			at := time.Duration(c.Range(1, 40))*iv + time.Duration(c.Intn(2))
			ctx, cancel := context.WithTimeout(context.Background(), at)
			defer cancel()
			k := c.Range(2, 4)
			done := make(chan error, k)
			for i := range k {
				go func() {
					if (c.I+i)%2 == 0 {
						done <- u.s.Run(ctx)
					} else {
						done <- u.s.RunContinuous(ctx)
					}
				}()
			}
			t0 := time.Now()
			for range k {
				<-done
			}
			took := time.Since(t0)
			c.Check(took <= at, "late after cancellation", "%d runs at once canceled after %v returned after %v", k, at, took)
			c.quiet(u.s, fmt.Sprintf("%d runs at once", k))
			c.Key(u.n, u.g, at, k)
		})
	})
	m.Each("client", m.N(150), func(c *Case) {
		virtual(t, func() {
			cl, err := client.New().WithGoal(goals[c.Intn(8)]).WithScale(scale.Size(c.Intn(3))).Build()
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			at := time.Duration(c.Intn(3000)) * time.Millisecond
			ctx, cancel := context.WithTimeout(context.Background(), at)
			defer cancel()
			if c.Intn(3) == 0 {
				cl.Stop()
			}
			t0 := time.Now()
			err = cl.Start(ctx)
			took := time.Since(t0)
			c.Check(took <= at && (err == nil || took == at && errors.Is(err, context.DeadlineExceeded)), "client start", "Start with a deadline of %v returned %v after %v", at, err, took)
			c.quiet(cl.Swarm(), "client start")
			c.Key(at, cl.Size(), err != nil)
		})
	})
}

// budgetOf is the documented number of updates a run may take.
func budgetOf(cfg *swarm.Config, n int, coh float64) int {
	lim := swarm.GetCoherenceLimits(n)
	coh = math.Min(coh, lim.Practical)
	return int(math.Min(cfg.Strategy.MaxIterationsFactor*swarm.GetConvergenceTimeFactor(n, coh), 1000))
}
