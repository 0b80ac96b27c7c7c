package verifmon

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
)

type recStrategy struct {
	c    *Case
	mu   sync.Mutex
	live bool
	ctx  []core.Context
	tgt  []core.State
}

func (r *recStrategy) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.live {
		r.c.Fail("previous strategy", "a reused agent still asks the strategy of its previous use")
	}
	r.ctx = append(r.ctx, ctx)
	r.tgt = append(r.tgt, tgt)
	return core.Action{Type: "adjust_phase", Value: 0.1, Cost: 1, Benefit: 10}, 1
}
func (*recStrategy) Name() string { return "recorder" }

type recResources struct {
	c    *Case
	mu   sync.Mutex
	live bool
}

func (r *recResources) Request(x float64) float64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.live {
		r.c.Fail("previous resources", "a reused agent still draws on the resources of its previous use")
	}
	return x
}
func (r *recResources) Release(float64)    {}
func (r *recResources) Available() float64 { return 3 }

type recGoals struct {
	c    *Case
	mu   sync.Mutex
	live bool
}

func (r *recGoals) Blend(local, global core.State, _ float64) core.State {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.live {
		r.c.Fail("previous goals", "a reused agent still uses the goals of its previous use")
	}
	return local
}

var _ goal.Manager = (*recGoals)(nil)

// C31: agents from the pool are exclusive and carry nothing over.
func TestProp(t *testing.T) {
	m := Start(t, "C31", "histories of taking, using up (every setter, option, connection, action) and giving back pooled agents, each taken agent compared with a fresh one through everything it lets see; many goroutines at once with an exclusive-ownership monitor; non-trivial when an agent was reused; distinct by history")
	defer m.Finish()
	type use struct {
		st *recStrategy
		rm *recResources
		gm *recGoals
	}
	m.Each("history", m.N(3000), func(c *Case) {
		held := map[*agent.Agent]*use{}
		var order []*agent.Agent
		seen := map[*agent.Agent]bool{}
		g0, p0, n0, u0 := agent.Pool.Stats()
		gets, puts, news := 0, 0, 0
		reused := 0
		hist := ""
		others := make([]*agent.Agent, 60)
		for i := range others {
			others[i] = agent.New(fmt.Sprint("other-", i))
		}
		known := map[*agent.Agent]bool{}
		for range c.Range(4, 40) {
			switch k := c.Intn(7); {
			case k < 3 || len(order) == 0:
				hist += "g"
				id := fmt.Sprint("a", c.Intn(6))
				_, _, before, _ := agent.Pool.Stats()
				a := agent.Pool.Get(id)
				gets++
				_, _, after, _ := agent.Pool.Stats()
				if !c.Check(a != nil && held[a] == nil, "exclusive", "%s: handed out an agent that is in use", hist) {
					return
				}
				if seen[a] {
					reused++
					c.Check(after == before, "statistics", "%s: reusing an agent counts as creating one", hist)
				} else if !known[a] && after > before {
					news++
				}
				c.Check(after-before <= 1, "statistics", "%s: %d agents created by one request", hist, after-before)
				seen[a] = true
				c.Check(a.ID == id, "identity", "%s: %q requested, got %q", hist, id, a.ID)
				c.Check(a.Energy() == 100 && a.Frequency() == 100*time.Millisecond, "fresh state", "%s: energy %v frequency %v", hist, a.Energy(), a.Frequency())
				c.Check(a.Phase() >= 0 && a.Phase() < twoPi && a.LocalGoal() >= 0 && a.LocalGoal() < twoPi, "fresh state", "%s: phase %v goal %v", hist, a.Phase(), a.LocalGoal())
				c.Check(a.Influence() >= 0.1 && a.Influence() <= 0.2 && a.Stubbornness() >= 0 && a.Stubbornness() <= 0.3, "fresh state", "%s: influence %v stubbornness %v", hist, a.Influence(), a.Stubbornness())
				nb := 0
				a.Neighbors().Range(func(any, any) bool { nb++; return true })
				c.Check(a.NeighborCount() == 0 && nb == 0, "fresh neighbors", "%s: %d neighbors", hist, a.NeighborCount())
				for _, o := range others {
					if a.IsConnectedTo(o.ID) {
						c.Fail("fresh neighbors", "%s: still connected to %s", hist, o.ID)
						break
					}
				}
				// components of the previous use are gone
				a.SetStubbornness(0)
				for range 3 {
					act, ok := a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
					if ok {
						_, _, _ = a.ApplyAction(act)
					}
				}
				// and so is what it knew of its swarm
				u := &use{st: &recStrategy{c: c, live: true}, rm: &recResources{c: c, live: true}, gm: &recGoals{c: c, live: true}}
				agent.WithStrategy(u.st)(a)
				_, _ = a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
				if c.Check(len(u.st.ctx) == 1, "strategy", "%s: asked %d times", hist, len(u.st.ctx)) {
					c.Check(u.st.ctx[0] == core.Context{}, "fresh perception", "%s: %+v", hist, u.st.ctx[0])
				}
				k := c.Range(1, 40)
				for i := range k {
					a.ConnectTo(others[i].ID, others[i])
				}
				c.Check(a.NeighborCount() == k, "neighbors", "%s: %d of %d", hist, a.NeighborCount(), k)
				a.UpdateContext()
				u.st.ctx = nil
				_, _ = a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
				if len(u.st.ctx) == 1 {
					c.Check(u.st.ctx[0].Neighbors == k && u.st.ctx[0].Density == 1, "fresh swarm information", "%s: %+v with %d neighbors", hist, u.st.ctx[0], k)
				}
				agent.WithStrategy(u.st)(a)
				held[a] = u
				order = append(order, a)
			case k < 5:
				hist += "u"
				a := order[c.Intn(len(order))]
				u := held[a]
				agent.WithResourceManager(u.rm)(a)
				agent.WithGoalManager(u.gm)(a)
				agent.WithSwarmInfo(c.Range(1, 5000), c.Intn(100)-1)(a)
				a.SetPhase(c.Phase())
				a.SetLocalGoal(c.Phase())
				a.SetEnergy(c.PickF(0, 1, 500))
				a.SetInfluence(c.Float64())
				a.SetStubbornness(c.Float64())
				a.SetFrequency(time.Duration(c.Int63n(int64(time.Hour))))
				for range c.Intn(50) {
					o := others[c.Intn(len(others))]
					a.ConnectTo(o.ID, o)
				}
				if c.Intn(2) == 0 {
					a.Neighbors().Store("by hand", others[0])
				}
				a.UpdateContext()
				for range 3 {
					act, ok := a.ProposeAdjustment(core.State{Phase: 2, Frequency: time.Second, Coherence: 1})
					if ok {
						_, _, _ = a.ApplyAction(act)
					}
				}
			default:
				hist += "p"
				i := c.Intn(len(order))
				a := order[i]
				order = append(order[:i], order[i+1:]...)
				u := held[a]
				u.st.mu.Lock()
				u.st.live = false
				u.st.mu.Unlock()
				u.rm.live = false
				u.gm.live = false
				delete(held, a)
				agent.Pool.Put(a)
				puts++
				if c.Intn(6) == 0 {
					agent.Pool.Put(nil)
				}
			}
			g, p, n, u := agent.Pool.Stats()
			c.Check(int(g-g0) == gets && int(p-p0) == puts && int(u-u0) == gets-puts && n-n0 <= g-g0 && int(n-n0) >= news, "statistics", "%s: gets %d puts %d news %d in use %d, expected %d %d %d %d", hist, g-g0, p-p0, n-n0, u-u0, gets, puts, news, gets-puts)
		}
		for _, a := range order {
			u := held[a]
			u.st.live, u.rm.live, u.gm.live = false, false, false
			agent.Pool.Put(a)
		}
		c.Cnt("agents reused", reused)
		if reused > 0 {
			c.Key(hist)
		}
		c.Sample("%s", hist)
	})

	m.Each("concurrent", m.N(60), func(c *Case) {
		g0, p0, _, u0 := agent.Pool.Stats()
		var owner sync.Map
		var wg sync.WaitGroup
		const workers, rounds = 8, 200
		target := agent.New("target")
		for w := range workers {
			seed := uint64(c.Int63())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := range rounds {
					id := fmt.Sprintf("w%d-%d", w, r)
					a := agent.Pool.Get(id)
					if o, taken := owner.LoadOrStore(a, id); taken {
						c.Fail("exclusive", "%s was handed the agent %v holds", id, o)
						return
					}
					seed = seed*6364136223846793005 + 1442695040888963407
					ph := float64(seed>>40) / float64(1<<24) * 6
					a.SetPhase(ph)
					a.ConnectTo(target.ID, target)
					a.UpdateContext()
					if a.ID != id || a.Phase() != ph || a.Energy() != 100 || a.NeighborCount() != 1 {
						c.Fail("isolation", "%s: ID %q, phase %v for %v, energy %v, %d neighbors", id, a.ID, a.Phase(), ph, a.Energy(), a.NeighborCount())
					}
					owner.Delete(a)
					agent.Pool.Put(a)
				}
			}()
		}
		wg.Wait()
		g, p, _, u := agent.Pool.Stats()
		c.Check(g-g0 == workers*rounds && p-p0 == workers*rounds && u == u0, "statistics", "gets %d puts %d in use %d to %d", g-g0, p-p0, u0, u)
		c.Cnt("concurrent uses", workers*rounds)
		c.Key(c.I)
	})
}
