package verifmon

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/carlisia/bio-adapt/internal/analysis"
)

// C37: the diagnosis of a run says what happened in it.

func kindOf(s string) string {
	l := strings.ToLower(s)
	kinds := []string{}
	for _, k := range []string{"success", "stuck", "minimal progress", "close!", "convergence failed"} {
		if strings.Contains(l, k) {
			kinds = append(kinds, k)
		}
	}
	return strings.Join(kinds, "+")
}

// words without any mark in front: what is left when everything but plain
// text is dropped.
func plain(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 128 && r != '(' && r != ')' {
			b.WriteRune(r)
		}
	}
	out := b.String()
	for _, mk := range []string{"[OK]", "[!!]", "[~]", "[X]"} {
		out = strings.ReplaceAll(out, mk, "")
	}
	return strings.Join(strings.Fields(out), " ")
}

func withEmoji(v string, fn func()) {
	old, had := os.LookupEnv("EMOJI")
	if v == "" {
		_ = os.Unsetenv("EMOJI")
	} else {
		_ = os.Setenv("EMOJI", v)
	}
	defer func() {
		if had {
			_ = os.Setenv("EMOJI", old)
		} else {
			_ = os.Unsetenv("EMOJI")
		}
	}()
	fn()
}

func level(c *Case) float64 {
	switch c.Intn(6) {
	case 0:
		return c.PickF(0, 0.2, 0.4, 0.6, 0.8, 1)
	case 1:
		return c.PickF(0.2, 0.4, 0.6, 0.8) + (c.Float64()-0.5)*1e-6
	case 2:
		return 0.2 * float64(c.Intn(6))
	}
	return c.Float64()
}

func TestProp(t *testing.T) {
	m := Start(t, "C37", "statistics of runs on and off every threshold (target reached, stuck share, improvement, gap), both modes and unknown ones, with and without symbols; non-trivial when the run did not reach its target; distinct by statistics")
	defer m.Finish()
	m.Each("diagnose", m.N(60000), func(c *Case) {
		target := c.PickF(0, 0.5, 0.65, 0.9, 1, c.Float64(), c.Float64())
		s := analysis.RunStats{Initial: level(c), Final: level(c), MaxIter: c.PickI(1, 2, 3, 4, 10, 100, 299, 300, 1000, c.Range(1, 5000))}
		switch c.Intn(5) {
		case 0:
			s.Final = target
		case 1:
			s.Final = target - c.PickF(1e-9, 0.01, 0.05, 0.099, 0.101, 0.2)
		case 2:
			s.Initial = s.Final - c.PickF(-0.3, 0, 0.05, 0.099, 0.101, 0.3)
		}
		if s.Final < 0 {
			s.Final = 0
		}
		s.Iter = c.Range(0, s.MaxIter)
		s.StuckCount = c.PickI(0, s.MaxIter/3-1, s.MaxIter/3, s.MaxIter/3+1, s.MaxIter, c.Range(0, s.MaxIter))
		if s.StuckCount < 0 {
			s.StuckCount = 0
		}
		mode := []string{"sync", "batch", "", "other"}[c.Intn(4)]
		want, also := "convergence failed", ""
		gap, imp := target-s.Final, s.Final-s.Initial
		switch {
		case s.Final >= target:
			want = "success"
		case s.StuckCount > s.MaxIter/3:
			want = "stuck"
			// a third of a number not divisible by three: either side of the fraction
			if 3*s.StuckCount <= s.MaxIter {
				also = "*"
			}
		case imp < 0.1:
			want = "minimal progress"
		case gap < 0.1:
			want = "close!"
		}
		edge := (imp > 0.1-1e-9 && imp < 0.1+1e-9) || (gap > 0.1-1e-9 && gap < 0.1+1e-9)
		var sums []string
		var suggs [][]string
		for _, e := range []string{"", "1", "0"} {
			withEmoji(e, func() {
				sum, sg := analysis.Diagnose(s, target, mode)
				sums = append(sums, sum)
				suggs = append(suggs, sg)
			})
		}
		sum, sg := sums[0], suggs[0]
		desc := fmt.Sprintf("%+v target %v mode %q", s, target, mode)
		if !edge && also == "" {
			c.Check(kindOf(sum) == want, "kind", "%s: %q, should be %q", desc, sum, want)
		}
		c.Check((want == "success") == (len(sg) == 0), "suggestions", "%s: %q with %d suggestions", desc, sum, len(sg))
		c.Check(strings.Contains(sum, fmt.Sprintf("%.1f%%", s.Final*100)), "figure", "%s: %q does not name the final coherence", desc, sum)
		switch kindOf(sum) {
		case "stuck", "close!", "convergence failed":
			c.Check(strings.Contains(sum, fmt.Sprintf("target: %.1f%%", target*100)), "target figure", "%s: %q", desc, sum)
		case "minimal progress":
			a, b := fmt.Sprintf("%.1f%%", s.Initial*100), fmt.Sprintf("%.1f%%", s.Final*100)
			i := strings.Index(sum, a)
			c.Check(i >= 0 && strings.Contains(sum[i+len(a):], b), "progress figures", "%s: %q", desc, sum)
		}
		seen := map[string]bool{}
		for _, x := range sg {
			c.Check(strings.TrimSpace(x) != "" && !seen[x], "suggestion text", "%s: %q", desc, sg)
			seen[x] = true
		}
		c.Check(plain(sums[1]) == plain(sum) && sums[2] == sum, "symbols", "%s: %q, %q and %q", desc, sum, sums[1], sums[2])
		for _, r := range sum {
			c.Check(r < 128 || r == '→', "symbols without being asked", "%s: %q", desc, sum)
		}
		c.Check(sums[1] != sum, "no symbols", "%s: %q", desc, sums[1])
		c.Check(reflect.DeepEqual(suggs[1], sg) && reflect.DeepEqual(suggs[2], sg), "suggestions by symbols", "%s", desc)
		// the mode only ever adds advice about batches
		_, sgSync := analysis.Diagnose(s, target, "sync")
		sumB, sgB := analysis.Diagnose(s, target, "batch")
		c.Check(plain(sumB) == plain(sum) && len(sgB) >= len(sgSync) && reflect.DeepEqual(append([]string{}, sgB[:len(sgSync)]...), append([]string{}, sgSync...)),
			"batch advice", "%s: %q against %q", desc, sgB, sgSync)
		c.Check((kindOf(sum) == "stuck") == (len(sgB) > len(sgSync)), "extra batch advice", "%s: %q against %q", desc, sgB, sgSync)
		if mode != "batch" {
			c.Check(reflect.DeepEqual(append([]string{}, sg...), append([]string{}, sgSync...)), "unknown mode", "%s: %q against %q", desc, sg, sgSync)
		}
		// changing what was returned changes nothing later
		for i := range sg {
			sg[i] = "x"
		}
		_, again := analysis.Diagnose(s, target, mode)
		c.Check(reflect.DeepEqual(again, suggs[1]), "shared suggestions", "%s: %q", desc, again)
		if want != "success" {
			c.Key(desc)
		}
		c.Cnt(want, 1)
		c.Sample("%s: %q %q", desc, sum, suggs[1])
	})

	class := func(x float64) int {
		switch {
		case x < 0.2:
			return 0
		case x < 0.4:
			return 1
		case x < 0.6:
			return 2
		case x < 0.8:
			return 3
		}
		return 4
	}
	words := map[string][5]string{
		"sync":  {"chaos", "groups", "partial", "good", "excellent"},
		"batch": {"chaos", "weak", "moderate", "good", "excellent"},
		"level": {"very low", "low", "moderate", "good", "excellent"},
	}
	m.Each("quality", m.N(60000), func(c *Case) {
		x := level(c)
		if c.Intn(8) == 0 {
			x = c.PickF(-1, -1e-9, 1.0000001, 2)
		}
		k := class(x)
		mode := []string{"sync", "batch", "", "nonsense"}[c.Intn(4)]
		var d []string
		for _, e := range []string{"", "1"} {
			withEmoji(e, func() { d = append(d, analysis.DescribeSyncQuality(x, mode)) })
		}
		w := words["sync"]
		if mode == "batch" {
			w = words["batch"]
		}
		desc := fmt.Sprintf("coherence %v mode %q", x, mode)
		c.Check(strings.HasPrefix(strings.ToLower(plain(d[0])), w[k]), "quality", "%s: %q, class %d", desc, d[0], k)
		c.Check(plain(d[0]) == plain(d[1]) && d[0] != d[1], "symbols", "%s: %q and %q", desc, d[0], d[1])
		for _, r := range d[0] {
			c.Check(r < 128, "symbols without being asked", "%s: %q", desc, d[0])
		}
		lv := analysis.InterpretCoherenceLevel(x)
		c.Check(strings.EqualFold(lv, words["level"][k]), "level", "%s: %q, class %d", desc, lv, k)
		// same class, same words; another class, other words
		y := level(c)
		dx, dy := analysis.DescribeSyncQuality(x, mode), analysis.DescribeSyncQuality(y, mode)
		c.Check((class(x) == class(y)) == (dx == dy), "classes", "%v and %v: %q and %q", x, y, dx, dy)
		c.Key(x, mode)
	})
	rate := []string{"fast", "normal", "slow", "very slow"}
	m.Each("rate", m.N(40000), func(c *Case) {
		mx := c.PickI(1, 2, 3, 7, 10, 100, 1000, c.Range(1, 3000))
		it := c.Range(0, mx+2)
		if c.Intn(3) == 0 {
			it = int(float64(mx)*c.PickF(0.3, 0.6, 0.9)) + c.Range(-1, 1)
			if it < 0 {
				it = 0
			}
		}
		k := 3
		for i, p := range []int{3, 6, 9} {
			if 10*it < p*mx {
				k = i
				break
			}
		}
		got := strings.ToLower(analysis.AnalyzeConvergenceRate(it, mx))
		if 10*it == 3*mx || 10*it == 6*mx || 10*it == 9*mx {
			c.Cnt("rates exactly on a threshold", 1)
			c.Check(strings.HasPrefix(got, rate[k]) || strings.HasPrefix(got, rate[k-1]), "rate", "%d of %d: %q", it, mx, got)
		} else {
			c.Check(strings.HasPrefix(got, rate[k]+" convergence"), "rate", "%d of %d: %q, should be %q", it, mx, got, rate[k])
		}
		if it > 0 {
			c.Key(it, mx)
		}
	})
}
