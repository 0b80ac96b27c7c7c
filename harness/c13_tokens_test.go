package verifmon

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/internal/resource"
)

type tkOp struct {
	op string
	x  float64
}

func tkStep(maxT float64) func(st, in, out any) (bool, any) {
	return func(st, in, out any) (bool, any) {
		s := st.(float64)
		i, o := in.(tkOp), out.(float64)
		switch i.op {
		case "request":
			g := 0.0
			if i.x > 0 {
				g = math.Min(i.x, s)
			}
			return o == g, s - g
		case "release":
			if i.x > 0 {
				s = math.Min(maxT, s+i.x)
			}
			return true, s
		default:
			return o == s, s
		}
	}
}

func tkApply(r core.ResourceManager, i tkOp) float64 {
	switch i.op {
	case "request":
		return r.Request(i.x)
	case "release":
		r.Release(i.x)
		return 0
	default:
		return r.Available()
	}
}

func newTokens(c *Case, x float64) core.ResourceManager {
	if c.Intn(2) == 0 {
		return strategy.NewTokenResourceManager(x)
	}
	return resource.NewTokenManager(x)
}

// C13: tokens are conserved.
func TestProp(t *testing.T) {
	m := Start(t, "C13", "sequences of requests and releases (fractions, whole pool, more than the pool, zero, negative, infinite) against a counter, and concurrent histories of 3-5 clients in exactly representable amounts under the race detector, decided by the porcupine linearizability checker, plus longer races checked by conservation alone; non-trivial when a request was granted only in part or operations of different clients overlapped; distinct by the history")
	defer m.Finish()
	m.Each("sequential", m.N(20000), func(c *Case) {
		maxT := c.PickF(0, 1, 10, 100, 1e10, 0.001, -5, c.Float64()*100, math.Inf(1))
		r := newTokens(c, maxT)
		eff := math.Max(0, maxT)
		s := eff
		c.Check(r.Available() == eff, "initial", "a pool of %v starts with %v", maxT, r.Available())
		partial := false
		tr := fmt.Sprint(maxT)
		for range c.Range(1, 40) {
			x := c.PickF(0, -1, 1, s, s/2, s*2+1, c.Float64()*eff+0.0, 1e-9, math.Inf(1), -1e9)
			if math.IsInf(eff, 1) {
				x = c.PickF(0, -1, 1, 1e9, 1e100)
			}
			if math.IsNaN(x) {
				continue
			}
			if c.Intn(2) == 0 {
				g := r.Request(x)
				want := 0.0
				if x > 0 {
					want = math.Min(x, s)
				}
				c.Check(near(g, want, 1e-9*math.Max(1, eff)) || g == want, "grant", "Request(%v) with %v available granted %v", x, s, g)
				if x > 0 {
					c.Check(g <= x, "over-grant", "Request(%v) granted %v", x, g)
				}
				c.Check(g >= 0 && g <= s, "grant range", "Request(%v) with %v available granted %v", x, s, g)
				partial = partial || x > 0 && g < x
				s -= g
			} else {
				r.Release(x)
				if x > 0 {
					s = math.Min(eff, s+x)
				}
			}
			tr += fmt.Sprint(" ", x)
			a := r.Available()
			c.Check(a >= 0 && a <= eff, "pool range", "%v available in a pool of %v", a, eff)
			if !c.Check(near(a, s, 1e-9*math.Max(1, eff)) || a == s, "balance", "%v available, expected %v (pool %v)", a, s, eff) {
				return
			}
			s = a
			c.Cnt("operations", 1)
		}
		if partial {
			c.Key(tr)
		}
	})
	var clock atomic.Int64
	m.Each("history", m.N(3000), func(c *Case) {
		maxT := float64(c.Range(1, 12))
		r := newTokens(c, maxT)
		clients, per := c.Range(3, 5), c.Range(4, 6)
		plan := make([][]tkOp, clients)
		for p := range plan {
			for range per {
				plan[p] = append(plan[p], tkOp{[]string{"request", "request", "release", "available"}[c.Intn(4)], float64(c.Range(1, 16)) / 4})
			}
		}
		hist := make([][]porcupine.Operation, clients)
		var wg, gate sync.WaitGroup
		gate.Add(1)
		for p := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate.Wait()
				for _, op := range plan[p] {
					call := clock.Add(1)
					out := tkApply(r, op)
					ret := clock.Add(1)
					hist[p] = append(hist[p], porcupine.Operation{ClientId: p, Input: op, Call: call, Output: out, Return: ret})
				}
			}()
		}
		gate.Done()
		wg.Wait()
		var all []porcupine.Operation
		ov := 0
		for _, h := range hist {
			all = append(all, h...)
		}
		for i := range all {
			for j := i + 1; j < len(all); j++ {
				if all[i].ClientId != all[j].ClientId && all[i].Call < all[j].Return && all[j].Call < all[i].Return {
					ov++
				}
			}
		}
		res := porcupine.CheckOperationsTimeout(porcupine.Model{Init: func() any { return maxT }, Step: tkStep(maxT)}, all, 20*time.Second)
		c.Cnt("operations", len(all))
		c.Cnt("histories", 1)
		c.Cnt("overlapping pairs", ov)
		if res == porcupine.Unknown {
			c.Cnt("histories undecided", 1)
			return
		}
		var b strings.Builder
		for _, o := range all {
			fmt.Fprintf(&b, "client %d [%d,%d] %+v -> %v\n", o.ClientId, o.Call-all[0].Call, o.Return-all[0].Call, o.Input, o.Output)
		}
		c.Check(res == porcupine.Ok, "not linearizable", "pool of %v: no sequential order explains\n%s", maxT, b.String())
		if ov > 0 {
			c.Key(b.String())
			c.Sample("pool %v: %d operations of %d clients, %d overlapping pairs", maxT, len(all), clients, ov)
		}
	})
	m.Each("conservation", m.N(120), func(c *Case) {
		// never release more than held: then in = out + held exactly
		maxT := float64(c.Range(1, 64))
		r := newTokens(c, maxT)
		g := c.Range(4, 8)
		held := make([]float64, g)
		var wg, gate sync.WaitGroup
		gate.Add(1)
		var bad atomic.Int64
		for p := range g {
			seed := c.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate.Wait()
				x := uint64(seed)
				for range 400 {
					x = x*6364136223846793005 + 1442695040888963407
					if held[p] > 0 && x>>62 < 2 {
						k := held[p]
						if (x>>40)&1 == 0 {
							k = math.Min(k, 0.25)
						}
						r.Release(k)
						held[p] -= k
					} else {
						held[p] += r.Request(float64(x>>40&31+1) / 4)
					}
					if a := r.Available(); a < 0 || a > maxT {
						bad.Add(1)
					}
				}
			}()
		}
		gate.Done()
		wg.Wait()
		sum := r.Available()
		for _, h := range held {
			sum += h
		}
		c.Check(bad.Load() == 0, "pool range", "the pool left [0,%v] %d times", maxT, bad.Load())
		c.Check(sum == maxT, "conservation", "%v tokens in a pool of %v: %v available, %v held", sum, maxT, r.Available(), held)
		c.Cnt("operations", 400*g)
		c.Key("cons", maxT, g, r.Available())
	})
}
