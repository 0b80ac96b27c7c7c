package verifmon

import (
	crand "crypto/rand"
	"encoding/binary"
	"math"
	"math/big"
	"sync"
	"testing"

	"github.com/carlisia/bio-adapt/internal/random"
)

// C32: random numbers are in range, uniform, and from the secure source.
func TestProp(t *testing.T) {
	m := Start(t, "C32", "draws of floats, phases and integers below many bounds with the random source replaced by a recording one (ordinary, all-zero and all-one words included); ranges, uniformity (chi-square at a bound that fails once in 10^9), independence of the source and behaviour for extreme words; non-trivial always; distinct by bound and round")
	defer m.Finish()

	// uniformity
	m.Each("bounds", m.N(400), func(c *Case) {
		n := c.PickI(1, 2, 3, 5, 6, 7, 10, 16, 31, 50, 100, 101, 256, 1000)
		draws := 200 * n
		if draws < 4000 {
			draws = 4000
		}
		cnt := make([]int, n)
		pair := make([]int, 4)
		lastHigh := 0
		for i := range draws {
			v := random.Intn(n)
			if !c.Check(v >= 0 && v < n, "integer range", "Intn(%d) = %d", n, v) {
				return
			}
			cnt[v]++
			h := 0
			if 2*v >= n {
				h = 1
			}
			if i > 0 {
				pair[lastHigh*2+h]++
			}
			lastHigh = h
		}
		if n > 1 {
			c.chi(cnt, draws, nil, "integer uniformity")
		}
		if n%2 == 0 {
			c.chi(pair, draws-1, nil, "integer independence")
		}
		c.Key(n, c.I)
		c.Cnt("draws", draws)
	})
	m.Each("floats", m.N(60), func(c *Case) {
		const k, draws = 64, 20000
		a, b := make([]int, k), make([]int, k)
		lo, hi := make([]int, 2), make([]int, 2)
		for range draws {
			f := random.Float64()
			if !c.Check(f >= 0 && f < 1, "float range", "%v", f) {
				return
			}
			a[int(f*k)]++
			// low-order bits are random as well (53 bits of precision)
			u := uint64(f * (1 << 53))
			lo[u&1]++
			hi[(u>>20)&1]++
			p := random.Phase()
			if !c.Check(p >= 0 && p < twoPi, "phase range", "%v", p) {
				return
			}
			b[min(k-1, int(p/twoPi*k))]++
		}
		c.chi(a, draws, nil, "float uniformity")
		c.chi(b, draws, nil, "phase uniformity")
		c.chi(lo, draws, nil, "float precision")
		c.chi(hi, draws, nil, "float precision")
		c.Key(c.I)
	})
	// extreme words from the source
	m.Each("words", m.N(3000), func(c *Case) {
		w := c.Uint64()
		switch c.Intn(5) {
		case 0:
			w = 0
		case 1:
			w = math.MaxUint64
		case 2:
			w = 1<<53 - 1
		case 3:
			w &= 1<<uint(c.Intn(64)) - 1
		}
		src := &wordReader{w: w}
		crand.Reader = src
		f := random.Float64()
		p := random.Phase()
		crand.Reader = seeded
		c.Check(f >= 0 && f < 1, "float range", "source word %x gives %v", w, f)
		c.Check(p >= 0 && p < twoPi, "phase range", "source word %x gives %v", w, p)
		c.Check(src.n > 0, "source", "no random bytes were drawn from the secure source")
		if w == 0 {
			c.Check(f == 0 && p == 0, "zero word", "%v %v", f, p)
		}
		c.Key(w)
		// integers: rejection never leaves the range whatever the words are
		n := c.PickI(1, 2, 3, 1000, math.MaxInt32, math.MaxInt32-1, 1<<30, 1<<30+1, c.Range(1, math.MaxInt32))
		src2 := &wordReader{w: w, step: c.Uint64() | 1}
		crand.Reader = src2
		v := random.Intn(n)
		crand.Reader = seeded
		c.Check(v >= 0 && v < n, "integer range", "Intn(%d) = %d from words starting at %x", n, v, w)
	})
	// large bounds: the mean of many draws and no bias to the low half
	m.Each("large", m.N(60), func(c *Case) {
		n := c.PickI(math.MaxInt32, 1<<30+1, 3<<29, 1<<30, 1431655766)
		const k, draws = 16, 8000
		cnt := make([]int, k)
		for range draws {
			v := random.Intn(n)
			if !c.Check(v >= 0 && v < n, "integer range", "Intn(%d) = %d", n, v) {
				return
			}
			q := new(big.Int).Div(new(big.Int).Mul(big.NewInt(int64(v)), big.NewInt(k)), big.NewInt(int64(n)))
			cnt[q.Int64()]++
		}
		c.chi(cnt, draws, nil, "integer uniformity")
		c.Key(n, c.I)
	})
	m.Each("invalid", 40, func(c *Case) {
		n := -c.Intn(3) * c.Intn(100)
		func() {
			defer func() { c.Check(recover() != nil, "invalid bound accepted", "Intn(%d) returned", n) }()
			random.Intn(n)
		}()
		c.Key(n)
	})
	m.Each("concurrent", m.N(20), func(c *Case) {
		var wg sync.WaitGroup
		for range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range 2000 {
					f, v := random.Float64(), random.Intn(7)
					if f < 0 || f >= 1 || v < 0 || v >= 7 {
						c.Fail("range under load", "%v %v", f, v)
					}
				}
			}()
		}
		wg.Wait()
		c.Check(true, "", "")
		c.Key(c.I)
	})
}

// chi is a chi-square test at about 6.5 standard deviations.
func (c *Case) chi(cnt []int, total int, _ any, sig string) {
	k := float64(len(cnt))
	e := float64(total) / k
	x := 0.0
	for _, n := range cnt {
		x += (float64(n) - e) * (float64(n) - e) / e
	}
	df := k - 1
	// Wilson–Hilferty
	z := (math.Cbrt(x/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
	c.Check(z < 6.5, sig, "%d classes, %d draws: chi-square %v (%.1f standard deviations)", len(cnt), total, x, z)
}

type wordReader struct {
	mu   sync.Mutex
	w    uint64
	step uint64
	n    int
}

func (r *wordReader) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	for i := 0; i < len(p); i += 8 {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], r.w)
		copy(p[i:], b[:])
		r.w += r.step * 0x9e3779b97f4a7c15
	}
	return len(p), nil
}
