package verifmon

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/carlisia/bio-adapt/emerge/agent"
)

type nsOp struct {
	op  string
	id  string
	tag string
}

type nsOut struct {
	ok  bool
	tag string
	n   int
	set string
}

type nsState struct {
	m   string // "id=tag,..." sorted
	cap int
}

func parseSet(s string) map[string]string {
	m := map[string]string{}
	if s == "" {
		return m
	}
	for _, kv := range strings.Split(s, ",") {
		p := strings.SplitN(kv, "=", 2)
		m[p[0]] = p[1]
	}
	return m
}

func fmtSet(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func tagsOf(m map[string]string) string {
	var l []string
	for _, v := range m {
		l = append(l, v)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func nsStep(capacity int) func(st, in, out any) (bool, any) {
	return func(st, in, out any) (bool, any) {
		s := st.(string)
		i, o := in.(nsOp), out.(nsOut)
		m := parseSet(s)
		switch i.op {
		case "store":
			_, have := m[i.id]
			if !have && len(m) >= capacity {
				return !o.ok, s
			}
			m[i.id] = i.tag
			return o.ok, fmtSet(m)
		case "load":
			t, have := m[i.id]
			return o.ok == have && o.tag == t, s
		case "delete":
			delete(m, i.id)
			return true, fmtSet(m)
		case "count":
			return o.n == len(m), s
		case "all":
			return o.set == tagsOf(m), s
		case "range":
			return o.set == s, s
		case "clear":
			return true, ""
		}
		return false, s
	}
}

// apply runs an operation on the real storage.
func nsApply(ns *agent.NeighborStorage, i nsOp) nsOut {
	switch i.op {
	case "store":
		return nsOut{ok: ns.Store(i.id, tagged(i.tag))}
	case "load":
		a, ok := ns.Load(i.id)
		o := nsOut{ok: ok}
		if a != nil {
			o.tag = a.ID
		}
		return o
	case "delete":
		ns.Delete(i.id)
	case "count":
		return nsOut{n: ns.Count()}
	case "all":
		var l []string
		for _, a := range ns.All() {
			if a == nil {
				l = append(l, "nil")
				continue
			}
			l = append(l, a.ID)
		}
		sort.Strings(l)
		return nsOut{set: strings.Join(l, ",")}
	case "range":
		m := map[string]string{}
		dup := ""
		ns.Range(func(id string, a *agent.Agent) bool {
			if _, ok := m[id]; ok {
				dup = "duplicate " + id
			}
			if a == nil {
				m[id] = "nil"
			} else {
				m[id] = a.ID
			}
			return true
		})
		return nsOut{set: fmtSet(m) + dup}
	case "clear":
		ns.Clear()
	}
	return nsOut{}
}

var (
	tagMu  sync.Mutex
	tagged = func() func(string) *agent.Agent {
		cache := map[string]*agent.Agent{}
		return func(t string) *agent.Agent {
			tagMu.Lock()
			defer tagMu.Unlock()
			a := cache[t]
			if a == nil {
				a = agent.New(t)
				cache[t] = a
			}
			return a
		}
	}()
)

// C12: neighbor storage is a linearizable map of bounded size.
func TestProp(t *testing.T) {
	m := Start(t, "C12", "random operation sequences of up to 400 operations against a plain map (capacities 1 to 64), and concurrent histories of 3-4 clients with 5-7 operations each over 3-4 ids, every stored value unique, under the race detector, recorded at the boundary and decided by the porcupine linearizability checker; also connections of an agent, each goroutine owning its ids; non-trivial when operations of different clients really overlapped (histories) or the capacity was reached (sequences); distinct by the recorded history")
	defer m.Finish()
	ops := []string{"store", "store", "store", "load", "load", "delete", "count", "all", "range", "clear"}

	m.Each("sequential", m.N(3000), func(c *Case) {
		capacity := c.PickI(1, 2, 3, 5, 20, 64, 0, -3)
		eff := capacity
		ns := agent.NewNeighborStorage(capacity)
		if capacity <= 0 {
			// a default capacity applies: learn it from the storage itself
			eff = 0
			for ns.Store(fmt.Sprint("fill", eff), tagged("x")) {
				eff++
				if eff > 10000 {
					c.Fail("unbounded", "storage with capacity %d accepts everything", capacity)
					return
				}
			}
			ns.Clear()
			if !c.Check(eff > 0, "no capacity", "storage with capacity %d holds nothing", capacity) {
				return
			}
		}
		step := nsStep(eff)
		st := any("")
		full := false
		hist := ""
		ids := c.Range(1, 2*eff+2)
		for k := range c.Range(5, 400) {
			op := nsOp{op: ops[c.Intn(len(ops)-1)], id: fmt.Sprint("i", c.Intn(ids)), tag: fmt.Sprint("v", k)}
			if c.Intn(150) == 0 {
				op.op = "clear"
			}
			out := nsApply(ns, op)
			ok, next := step(st, op, out)
			if !c.Check(ok, "sequential "+op.op, "capacity %d, contents {%v}: %+v returned %+v", eff, st, op, out) {
				return
			}
			st = next
			full = full || len(parseSet(st.(string))) == eff
			hist += fmt.Sprint(op.op[0:2], op.id)
			c.Cnt("operations", 1)
		}
		// a range that is stopped visits no more
		n := 0
		ns.Range(func(string, *agent.Agent) bool { n++; return false })
		c.Check(n <= 1, "range stop", "a stopped Range visited %d neighbors", n)
		if full {
			c.Key(hist)
		}
	})

	var clock atomic.Int64
	m.Each("history", m.N(2500), func(c *Case) {
		capacity := c.Range(1, 4)
		ns := agent.NewNeighborStorage(capacity)
		clients, per, ids := c.Range(3, 4), c.Range(5, 7), c.Range(3, 4)
		plan := make([][]nsOp, clients)
		for p := range plan {
			for k := range per {
				plan[p] = append(plan[p], nsOp{op: ops[c.Intn(len(ops))], id: fmt.Sprint("i", c.Intn(ids)), tag: fmt.Sprintf("v%d.%d", p, k)})
				tagged(plan[p][k].tag)
			}
		}
		hist := make([][]porcupine.Operation, clients)
		var wg sync.WaitGroup
		var gate sync.WaitGroup
		gate.Add(1)
		for p := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate.Wait()
				for _, op := range plan[p] {
					call := clock.Add(1)
					out := nsApply(ns, op)
					ret := clock.Add(1)
					hist[p] = append(hist[p], porcupine.Operation{ClientId: p, Input: op, Call: call, Output: out, Return: ret})
				}
			}()
		}
		gate.Done()
		wg.Wait()
		var all []porcupine.Operation
		for _, h := range hist {
			all = append(all, h...)
		}
		overlap := overlaps(all)
		model := porcupine.Model{Init: func() any { return "" }, Step: nsStep(capacity)}
		res := porcupine.CheckOperationsTimeout(model, all, 20*time.Second)
		c.Cnt("operations", len(all))
		c.Cnt("histories", 1)
		c.Cnt("overlapping pairs", overlap)
		if res == porcupine.Unknown {
			c.Cnt("histories undecided", 1)
			return
		}
		c.Check(res == porcupine.Ok, "not linearizable", "capacity %d: no sequential order explains\n%s", capacity, fmtHist(all))
		if overlap > 0 {
			c.Key(fmtHist(all))
			c.Sample("capacity %d, %d operations, %d overlapping pairs: %s", capacity, len(all), overlap, strings.ReplaceAll(fmtHist(all[:min(4, len(all))]), "\n", "; "))
		}
	})

	m.Each("connections", m.N(60), func(c *Case) {
		a := agent.New("hub")
		g := c.Range(2, 6)
		per := c.PickI(1, 3, 5, 10)
		var wg sync.WaitGroup
		final := make([]map[string]bool, g)
		for p := range g {
			seed := c.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := seed
				own := map[string]bool{}
				for k := range 120 {
					r = r*6364136223846793005 + 1442695040888963407
					id := fmt.Sprintf("g%d-%d", p, uint64(r>>33)%uint64(per))
					if (r>>20)&3 != 0 {
						a.ConnectTo(id, tagged(id))
						own[id] = true
					} else {
						a.DisconnectFrom(id)
						own[id] = false
					}
					if a.IsConnectedTo(id) != own[id] {
						c.Fail("lost connection", "goroutine %d, the only one to touch %s, set connected=%v and read %v (step %d)", p, id, own[id], !own[id], k)
						return
					}
				}
				final[p] = own
			}()
		}
		wg.Wait()
		want := 0
		for _, own := range final {
			for id, on := range own {
				c.Check(a.IsConnectedTo(id) == on, "final connection", "%s connected=%v, expected %v", id, a.IsConnectedTo(id), on)
				if on {
					want++
				}
			}
		}
		c.Check(a.NeighborCount() == want, "final count", "%d neighbors, expected %d", a.NeighborCount(), want)
		c.Cnt("operations", 120*g)
		c.Key("conn", g, per, want)
	})
}

func overlaps(h []porcupine.Operation) int {
	n := 0
	for i := range h {
		for j := i + 1; j < len(h); j++ {
			if h[i].ClientId != h[j].ClientId && h[i].Call < h[j].Return && h[j].Call < h[i].Return {
				n++
			}
		}
	}
	return n
}

func fmtHist(h []porcupine.Operation) string {
	base := h[0].Call
	for _, o := range h {
		base = min(base, o.Call)
	}
	s := ""
	for _, o := range h {
		s += fmt.Sprintf("client %d [%d,%d] %+v -> %+v\n", o.ClientId, o.Call-base, o.Return-base, o.Input, o.Output)
	}
	return s
}
