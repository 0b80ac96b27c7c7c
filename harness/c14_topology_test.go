package verifmon

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/topology"
)

// C14: connections are what the chosen topology promises.
func TestProp(t *testing.T) {
	m := Start(t, "C14", "swarms of 1 to 2000 agents built with the ring, star and fully connected topologies and with the default connections under auto-scaled and random configurations (connection probability 0..1, neighbor bounds, minimal-connection mode), the whole adjacency read back through the agents and compared with the graph promised; non-trivial for at least three agents; distinct by size, kind and configuration")
	defer m.Finish()
	goal := core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.8}

	type kind struct {
		name  string
		build func(*swarm.Swarm) error
	}
	kinds := []kind{{"ring", topology.Ring}, {"star", topology.Star}, {"full", topology.FullyConnected}}
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 19, 20, 21, 22, 25, 33, 49, 50, 64, 99, 100, 101, 102, 110, 130, 150}
	m.Each("named", len(kinds)*len(sizes)*m.N(2), func(c *Case) {
		k := kinds[c.I%3]
		n := sizes[(c.I/3)%len(sizes)]
		s, err := swarm.New(n, goal, swarm.WithTopology(k.build))
		if n < 2 && k.name != "full" {
			c.Check(err != nil && errors.Is(err, core.ErrInsufficientAgents), "too few agents", "%s of %d agents: error %v", k.name, n, err)
			return
		}
		if !c.Check(err == nil, "topology error", "%s of %d agents: %v", k.name, n, err) {
			return
		}
		ag, adj, ok := adjacency(c, s, n, k.name)
		if !ok {
			return
		}
		edges := 0
		deg := map[int]int{}
		for id := range ag {
			deg[len(adj[id])]++
			edges += len(adj[id])
		}
		switch k.name {
		case "full":
			c.Check(deg[n-1] == n, "full degrees", "fully connected %d agents: degrees %v", n, deg)
		case "star":
			if n == 2 {
				c.Check(deg[1] == 2, "star degrees", "star of 2: degrees %v", deg)
			} else {
				c.Check(deg[n-1] == 1 && deg[1] == n-1, "star degrees", "star of %d agents: degrees %v", n, deg)
			}
		case "ring":
			want := min(2, n-1)
			c.Check(deg[want] == n, "ring degrees", "ring of %d agents: degrees %v", n, deg)
		}
		c.Check(reach(adj, ag) == n, "connected", "%s of %d agents: only %d reachable from one", k.name, n, reach(adj, ag))
		if n >= 3 {
			c.Key(k.name, n)
		}
		c.Cnt("connections read", edges)
		c.Max("max swarm", n)
		c.Sample("%s of %d: degree histogram %v", k.name, n, deg)
	})

	m.Each("default", m.N(700), func(c *Case) {
		n := sizes[c.Intn(len(sizes))]
		if c.I%100 == 0 {
			n = c.PickI(200, 999, 1000, 1001, 2000)
		}
		var s *swarm.Swarm
		var err error
		desc := "auto"
		switch c.Intn(3) {
		case 0:
			s, err = swarm.New(n, goal)
		case 1:
			cfg := randConfig(c, n)
			desc = "WithConfig"
			s, err = swarm.New(n, goal, swarm.WithConfig(cfg))
		default:
			cfg := randConfig(c, n)
			desc = "NewSwarmFromConfig"
			s, err = swarm.NewSwarmFromConfig(n, goal, cfg)
		}
		if !c.Check(err == nil, "construction", "%s, %d agents: %v", desc, n, err) {
			return
		}
		cfg := s.Config()
		ag, adj, ok := adjacency(c, s, n, desc)
		if !ok {
			return
		}
		minimal := cfg.EnableConnectionOptim && n > cfg.ConnectionOptimThreshold
		// in minimal-connection mode partners are drawn at random a bounded
		// number of times; far below the swarm size that never runs out
		if !minimal || cfg.MinNeighbors*10 <= n {
			for id := range ag {
				if !c.Check(len(adj[id]) >= cfg.MinNeighbors, "too few neighbors", "%s, %d agents: %s has %d neighbors, at least %d are configured", desc, n, id, len(adj[id]), cfg.MinNeighbors) {
					break
				}
			}
		}
		if !minimal && cfg.ConnectionProbability == 1 && cfg.MaxNeighbors >= n-1 {
			for id := range ag {
				if !c.Check(len(adj[id]) == n-1, "certain connections", "%s, %d agents, probability 1 and no neighbor bound: %s has %d neighbors", desc, n, id, len(adj[id])) {
					break
				}
			}
		}
		if !minimal && cfg.ConnectionProbability == 0 {
			// nobody starts more connections than the minimum
			e := 0
			for id := range ag {
				e += len(adj[id])
			}
			c.Check(e/2 <= n*cfg.MinNeighbors, "unwanted connections", "%s, %d agents, probability 0, minimum %d: %d connections", desc, n, cfg.MinNeighbors, e/2)
		}
		if !minimal {
			e := 0
			for id := range ag {
				e += len(adj[id])
			}
			c.Check(e/2 <= n*cfg.MaxNeighbors, "too many connections", "%s, %d agents with at most %d neighbors each made %d connections", desc, n, cfg.MaxNeighbors, e/2)
		}
		if n >= 3 {
			c.Key(desc, n, cfg.ConnectionProbability, cfg.MinNeighbors, cfg.MaxNeighbors, minimal)
		}
		c.Max("max swarm", n)
		if minimal {
			c.Cnt("minimal-connection swarms", 1)
		}
	})
}

func randConfig(c *Case, n int) config.Swarm {
	cfg := []config.Swarm{config.DefaultConfig(), config.SmallSwarmConfig(), config.MediumSwarmConfig(), config.AutoScaleConfig(n), config.ForBatching(n, 200*time.Millisecond)}[c.Intn(5)]
	cfg.MaxSwarmSize = 0
	cfg.ConnectionProbability = c.PickF(0, 1, 0.1, 0.5, c.Float64())
	cfg.MaxNeighbors = c.PickI(1, 3, 5, 8, 20, n-1, n+5)
	cfg.MinNeighbors = c.PickI(0, 1, 2, 3, 5, n-1, n)
	if n > 150 {
		cfg.MaxNeighbors = c.PickI(3, 10)
		cfg.MinNeighbors = c.PickI(1, 2, 3)
	}
	cfg.EnableConnectionOptim = c.Intn(3) == 0
	cfg.ConnectionOptimThreshold = c.PickI(0, 10, 1000)
	return cfg
}

// adjacency reads the whole graph through the agents: IsConnectedTo over all
// pairs for small swarms, the neighbor counts always.
func adjacency(c *Case, s *swarm.Swarm, n int, what string) (map[string]*agent.Agent, map[string]map[string]bool, bool) {
	ag := s.Agents()
	if !c.Check(len(ag) == n, "agents", "%s: %d agents, expected %d", what, len(ag), n) {
		return nil, nil, false
	}
	adj := make(map[string]map[string]bool, n)
	for id, a := range ag {
		adj[id] = map[string]bool{}
		if n <= 160 {
			for other := range ag {
				if a.IsConnectedTo(other) {
					adj[id][other] = true
				}
			}
		} else {
			for k := range n {
				other := fmt.Sprint("agent-", k)
				if a.IsConnectedTo(other) {
					adj[id][other] = true
				}
			}
		}
		if !c.Check(!adj[id][id], "self loop", "%s, %d agents: %s is its own neighbor", what, n, id) {
			return nil, nil, false
		}
		if !c.Check(a.NeighborCount() == len(adj[id]), "foreign neighbors", "%s, %d agents: %s counts %d neighbors, %d of them in the swarm", what, n, id, a.NeighborCount(), len(adj[id])) {
			return nil, nil, false
		}
	}
	for id := range ag {
		for o := range adj[id] {
			if !c.Check(adj[o][id], "one-way connection", "%s, %d agents: %s is connected to %s but not back", what, n, id, o) {
				return nil, nil, false
			}
		}
	}
	return ag, adj, true
}

func reach(adj map[string]map[string]bool, ag map[string]*agent.Agent) int {
	seen := map[string]bool{}
	var stack []string
	for id := range ag {
		stack = append(stack, id)
		seen[id] = true
		break
	}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for o := range adj[x] {
			if !seen[o] {
				seen[o] = true
				stack = append(stack, o)
			}
		}
	}
	return len(seen)
}
